package eng

import (
	"context"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

func init() {
	ctx := context.Background()

	// every option holds where it is given: for all runs of an engine or for one run only, where it outweighs
	// the engine's
	vf.Register("C12.options", func() {
		const nOpts = 10 // executor lock bus ids timer persist notx recursive dry postsave
		n := 2
		if vf.Thorough() {
			n = 3
		}
		var on [nOpts]bool // given to the run
		var base [nOpts]bool
		last := -1
		for i := 0; i < n; i++ {
			k := vf.Choice("option", nOpts+1) - 1
			if k < last || k == last && k >= 0 {
				vf.End()
			}
			last = k
			if k >= 0 {
				switch vf.Choice("given", 3) {
				case 0:
					on[k] = true
				case 1:
					base[k] = true
				case 2:
					on[k], base[k] = true, true
				}
			}
		}
		given := on
		txbus := vf.Bool("txbus")
		a, b := newW(), &W{kinds: map[string]bool{}, silent: true}
		a.silent = true
		a.store()
		b.store()
		for _, w := range []*W{a, b} {
			w.rows["sub"] = []ddd.IModel{&SubPO{PO{ID: "id-s", Parent: "id-a", Of: "s", Val: 4}}}
		}
		busA, busB := a.bus(txbus), b.bus(txbus)
		tmA, tmB := &stub{}, &stub{}
		posts := map[string]int{}
		post := func(tag string) ddd.Option {
			return ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { posts[tag]++ })
		}
		saved := map[string]int{}
		keep := func(tag string) ddd.Option {
			return ddd.WithEventPersist(func(e *ddd.DomainEvent) (ddd.IModel, error) { saved[tag]++; return persist(e) })
		}
		// the engine has environment a; base options are given to it as options, too
		eo := []ddd.Option{ddd.WithEventBus(busA), ddd.WithIDGenerator(&IDs{a}), ddd.WithTimer(tmA)}
		var lk ddd.ILock = &Lk{a}
		var ex ddd.IExecutor = &Ex{a}
		if base[0] {
			ex = nil
			eo = append(eo, ddd.WithExecutor(&Ex{a}))
		}
		if base[1] {
			lk = nil
			eo = append(eo, ddd.WithLock(&Lk{a}))
		}
		flags := func(tag string, on [nOpts]bool) (o []ddd.Option) {
			if on[5] {
				o = append(o, keep(tag))
			}
			if on[6] {
				o = append(o, ddd.WithoutTransaction)
			}
			if on[7] {
				o = append(o, ddd.WithRecursiveDelete)
			}
			if on[8] {
				o = append(o, ddd.WithDryRun)
			}
			if on[9] {
				o = append(o, post(tag))
			}
			return o
		}
		eo = append(eo, flags("engine", base)...)
		eng := ddd.NewEngine(lk, ex, eo...)
		var ro []ddd.Option
		for k, o := range []ddd.Option{ddd.WithExecutor(&Ex{b}), ddd.WithLock(&Lk{b}), ddd.WithEventBus(busB), ddd.WithIDGenerator(&IDs{b}), ddd.WithTimer(tmB)} {
			if given[k] {
				ro = append(ro, o)
			}
		}
		ro = append(ro, flags("run", on)...)
		run := func(ro []ddd.Option, given [nOpts]bool, what string) {
			at := func(k int) *W {
				if given[k] {
					return b
				}
				return a
			}
			is := func(k int) bool { return given[k] || base[k] }
			clear(posts)
			clear(saved)
			for _, w := range []*W{a, b} {
				w.ops, w.tx, w.txSeq = nil, 0, 0
			}
			r := &Root{}
			r.SetID("id-r")
			c := &initCmd{w: a, tag: "cmd", keys: []string{"k"}, f: func(ctx context.Context, repo *ddd.Repository) error {
				if err := repo.Get(ctx, r, &r.Kids); err != nil {
					return err
				}
				if len(r.Kids) != 2 {
					return fmt.Errorf("%d kids", len(r.Kids))
				}
				if txbus {
					r.AddEvent(&Evt{Typ: "T"}, ddd.WithSendType(ddd.SendTypeTransaction))
				} else {
					r.AddEvent(&Evt{Typ: "T"})
				}
				repo.Remove(r)
				repo.Add(&Root{Name: "new"})
				return nil
			}}
			cur = at(0)
			var res *ddd.Result
			res = eng.Run(ctx, c, ro...)
			vf.Assert(res.Error == nil, fmt.Sprint(what, " fails: ", res.Error))
			var tr [2]string
			for i, w := range []*W{a, b} {
				tr[i] = w.trace()
			}
			all := what + ": " + tr[0] + " | " + tr[1]
			n := func(k int, kind string) (int, int) {
				w, o := a, b
				if at(k) == b {
					w, o = b, a
				}
				return w.count(kind), o.count(kind)
			}
			one := func(k int, kind string, want int, say string) {
				own, other := n(k, kind)
				vf.Assert(own == want && other == 0, fmt.Sprintf("%s: %d times, %d times elsewhere, should be %d: %s", say, own, other, want, all))
			}
			one(0, "query", 2, "queries go through the run's executor")
			tx := 1 // opened by the run
			if is(6) {
				tx = 0
			}
			one(0, "begin", tx, "transactions are opened with the run's executor")
			one(1, "lock", 1, "the run's locker is asked")
			one(1, "unlock", 1, "the run's locker is released")
			dry := is(8)
			disp := 1
			if dry {
				disp = 0
			}
			if txbus && tx == 1 {
				one(2, "txbegin", disp, "the events go to the run's bus")
				one(2, "txcommit", disp, "the events are sent by the run's bus")
			} else {
				one(2, "dispatch", disp, "the events go to the run's bus")
			}
			one(3, "newid", 1, "the run's generator makes the ids")
			if own, other := n(0, "exec"); true {
				vf.Assert((own > 0) == !dry && other == 0, "the run writes with another executor, or in a dry run: "+all)
			}
			// the removed children
			kids := 0
			for _, o := range at(0).ops {
				act := o.Action
				if o.Kind != "exec" {
					continue
				}
				for _, m := range act.Models {
					if p := poOf(m); p != nil && act.Op == ddd.OpDelete && p.Of != "r" {
						kids++
					}
				}
			}
			vf.Assert(dry || (kids == 2) == is(7) && (kids == 0) == !is(7), fmt.Sprintf("recursive is %v, but %d children are removed: %s", is(7), kids, all))
			hook := func(tag string, on bool) {
				want := 0
				if on {
					want = 1
				}
				vf.Assert(posts[tag] == want, fmt.Sprintf("the hook of the %s runs %d times: %s", tag, posts[tag], all))
			}
			hook("engine", base[9])
			hook("run", given[9])
			vf.Assert(saved["run"] > 0 == given[5], "the events are not stored as the run says: "+all)
			vf.Assert(saved["engine"] > 0 == (base[5] && !given[5]), "the events are not stored as the engine says: "+all)
			// a bus and a timer know whom to call
			for i, x := range []ddd.IEventBus{busA, busB} {
				if i == 1 && !given[2] {
					continue
				}
				switch y := x.(type) {
				case *Bus:
					vf.Assert(y.cb != nil, what+": the bus has nobody to hand its events to")
				case *TxBus:
					vf.Assert(y.cb != nil && y.check != nil, what+": the bus has nobody to hand its events to or to check back with")
				}
			}
			vf.Assert(tmA.cb != nil && (tmB.cb != nil || !given[4]), what+": the timer has nobody to call")
		}
		run(ro, given, "a run with options")
		run(nil, [nOpts]bool{}, "the run after it")

		k := 0
		for _, x := range given {
			if x {
				k++
			}
		}
		vf.Reach(fmt.Sprint(k, " given"))
	})
}
