package eng

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// script is a command body made of arbitrary steps.
type script struct {
	w        *W
	steps    int
	only     []int // steps allowed, nil for all
	fixed    []int // the steps themselves
	end      int   // 0 ok, 1 error, 2 break, 3 wrapped break, 4 panic
	events   bool
	tag      string
	did      []string
	swallow  bool // errors of the repository are ignored by the business code
	bodyErr  error
	returned error // what the body gave back
	finished bool
	panicked bool
	r        *Root
	added    int
}

var errBody = errors.New("business error")

// bizErr is a business error that may have a cause known to the framework or to others.
type bizErr struct{ cause error }

func (b *bizErr) Error() string        { return "business error, of another" }
func (b *bizErr) Is(target error) bool { return target == errBody }
func (b *bizErr) Unwrap() error        { return b.cause }

// business gives back the error a command ends with.
func business() error {
	if cur.plain {
		return errBody
	}
	switch vf.Choice("business_error", 8) {
	case 1:
		return &bizErr{ddd.ErrEntityNotFound}
	case 2:
		return &bizErr{ddd.ErrEntityLocked}
	case 3:
		return &bizErr{ddd.ErrEntityRepeated}
	case 4:
		return &bizErr{context.Canceled}
	case 5:
		return &bizErr{context.DeadlineExceeded}
	case 6:
		return &bizErr{ddd.ErrNoEventBusFound}
	case 7:
		return &bizErr{ddd.ErrEntityNotRegister}
	}
	return errBody
}

// blow panics, with an error or with something else.
func blow() {
	if !cur.plain && vf.Bool("panic_value") {
		panic("business panic")
	}
	panic(errBody)
}

const (
	stGet = iota
	stAdd
	stEdit
	stDropKid
	stSave
	stRemove
	stKinds
)

func (sc *script) event(e interface {
	AddEvent(ddd.IEvent, ...ddd.EventOpt)
}, t ddd.SendType) {
	if !sc.events {
		return
	}
	e.AddEvent(&Evt{Typ: "t", N: sc.w.calls}, ddd.WithSendType(t))
}

func (sc *script) main(ctx context.Context, repo *ddd.Repository) error {
	sc.w.add(Op{Kind: "body", Key: sc.tag, InTx: sc.w.tx > 0})
	err := sc.body(ctx, repo)
	sc.finished = true
	sc.returned = err
	return err
}

func (sc *script) body(ctx context.Context, repo *ddd.Repository) error {
	for i := 0; i < sc.steps; i++ {
		var k int
		if sc.fixed != nil {
			k = sc.fixed[i]
		} else if sc.only != nil {
			k = sc.only[vf.Choice("step"+sc.tag, len(sc.only))]
		} else {
			k = vf.Choice("step"+sc.tag, stKinds)
		}
		var err error
		switch k {
		case stGet:
			if sc.r != nil {
				vf.End() // only once
			}
			sc.did = append(sc.did, "get")
			r := &Root{}
			r.SetID("id-r")
			sc.r = r
			err = repo.Get(ctx, r, &r.Kids)
			if err == nil {
				sc.event(r, ddd.SendTypeNormal)
			}
		case stAdd:
			sc.did = append(sc.did, "add")
			sc.added++
			r := &Root{Name: fmt.Sprint(sc.tag, "n", sc.added), Kids: []*Kid{{Name: fmt.Sprint(sc.tag, "nk", sc.added)}}}
			sc.event(r, ddd.SendTypeTransaction)
			sc.event(r.Kids[0], ddd.SendTypeNormal)
			repo.Add(r)
		case stEdit:
			if sc.r == nil {
				vf.End()
			}
			sc.did = append(sc.did, "edit")
			sc.r.Val++
			sc.r.Dirty()
			sc.event(sc.r, ddd.SendTypeTransaction)
		case stDropKid:
			if sc.r == nil || len(sc.r.Kids) == 0 {
				vf.End()
			}
			sc.did = append(sc.did, "dropkid")
			sc.event(sc.r.Kids[0], ddd.SendTypeNormal)
			sc.r.Kids = sc.r.Kids[1:]
		case stSave:
			sc.did = append(sc.did, "save")
			err = repo.Save(ctx)
		case stRemove:
			sc.did = append(sc.did, "remove")
			r := &Root{Name: fmt.Sprint(sc.tag, "gone", i)}
			r.SetID("id-gone" + fmt.Sprint(i))
			sc.event(r, ddd.SendTypeNormal)
			repo.Remove(r)
		}
		if err != nil && !sc.swallow {
			return fmt.Errorf("step %d: %w", i, err)
		}
	}
	switch sc.end {
	case 1:
		return business()
	case 2:
		return ddd.ErrBreak
	case 3:
		return fmt.Errorf("enough: %w", ddd.ErrBreak)
	case 4:
		sc.panicked = true
		blow()
	}
	return nil
}

func (w *W) store() {
	w.rows = map[string][]ddd.IModel{
		"root": {&RootPO{PO{ID: "id-r", Of: "r", Val: 1}}},
		"kid": {
			&KidPO{PO{ID: "id-a", Parent: "id-r", Of: "a", Val: 2}},
			&KidPO{PO{ID: "id-b", Parent: "id-r", Of: "b", Val: 3}},
		},
	}
}

func (w *W) writes() int {
	n := 0
	for _, o := range w.ops {
		if o.Kind == "exec" {
			n++
		}
	}
	return n
}

func (w *W) trace() string {
	var b []string
	for _, o := range w.ops {
		s := o.Kind
		if o.Key != "" {
			s += "(" + o.Key + ")"
		}
		if o.Action != nil && o.Kind == "exec" {
			s += fmt.Sprintf("(op%d x%d)", o.Action.Op, len(o.Action.Models))
		}
		if len(o.Events) > 0 {
			s += fmt.Sprintf("(%d events)", len(o.Events))
		}
		if !o.OK && o.Kind != "body" && o.Kind != "post" {
			s += "!"
		}
		b = append(b, s)
	}
	return strings.Join(b, " ")
}

// judgeTx is C01 over the recorded calls of one run with transactions on.
func judgeTx(w *W, res *ddd.Result, pan any, sc *script) {
	tr := w.trace()
	begins, commits, rollbacks, bodyFailed := 0, 0, 0, false
	begun, ended := false, false
	commitOK := false
	for _, o := range w.ops {
		switch o.Kind {
		case "begin":
			begins++
			vf.Assert(begins == 1, "a second transaction is opened: "+tr)
			begun = o.OK
		case "commit", "rollback":
			vf.Assert(begun && !ended, "the transaction is ended twice or was never begun: "+tr)
			vf.Assert(o.InTx, "commit or rollback does not get the context of the transaction: "+tr)
			ended = true
			if o.Kind == "commit" {
				commits++
				commitOK = o.OK
			} else {
				rollbacks++
			}
		case "exec", "query":
			vf.Assert(begun && !ended && o.InTx, "a "+o.Kind+" runs outside the transaction: "+tr)
			bodyFailed = bodyFailed || !o.OK
		case "body":
			vf.Assert(begun && !ended, "the business code runs outside the transaction: "+tr)
		case "hook", "newid", "dispatch", "txbegin":
			bodyFailed = bodyFailed || !o.OK
		}
	}
	if begins == 1 && !begun {
		vf.Assert(w.count("body") == 0, "the business code runs although begin failed: "+tr)
		vf.Assert(pan == nil && res != nil && res.Error != nil, "a failed begin is not reported: "+tr)
		vf.Reach("begin failed")
		return
	}
	vf.Assert(begun && ended, "the transaction is left open: "+tr)
	if pan != nil {
		vf.Assert(rollbacks == 1 && commits == 0, "a panic does not roll back: "+tr)
		vf.Assert(pan == any(errBody) || pan == any(errInjected) || pan == any("business panic"), "the panic does not reach the caller unchanged")
		vf.Reach("panic")
		return
	}
	vf.Assert(res != nil, "no result")
	switch {
	case sc.panicked:
		vf.Fail("a panic is lost: " + tr)
	case sc.returned != nil || bodyFailed && !sc.swallow:
		vf.Assert(rollbacks == 1 && commits == 0, "a failed or broken command is not rolled back: "+tr)
		if errors.Is(sc.returned, ddd.ErrBreak) {
			vf.Assert(res.Error == nil && res.Break, "a break is not reported as such: "+tr)
			vf.Reach("break")
		} else {
			vf.Assert(res.Error != nil, "a failure is not reported: "+tr)
			vf.Reach("failure")
		}
	default:
		if rollbacks == 1 {
			vf.Assert(res.Error != nil || res.Break, "rolled back, and reported as a success: "+tr)
		}
		if !bodyFailed {
			vf.Assert(commits == 1, "a successful command is not committed: "+tr)
		}
	}
	if res.Error == nil && !res.Break {
		vf.Assert(commits == 1 && commitOK, "success is reported although nothing was committed: "+tr)
		vf.Reach("committed")
	}
	if commits == 1 && !commitOK {
		vf.Assert(res.Error != nil, "a failed commit is not reported: "+tr)
		vf.Reach("commit failed")
	}
}

func (w *W) bus(tx bool) ddd.IEventBus {
	if tx {
		return &TxBus{Bus: Bus{w: w}}
	}
	return &Bus{w: w}
}

func persist(e *ddd.DomainEvent) (ddd.IModel, error) { return &EventPO{ID: e.ID, Evt: e}, nil }

// initCmd is a command with lock keys and a post-save hook of its own.
type initCmd struct {
	w       *W
	keys    []string
	initErr error
	f       func(ctx context.Context, repo *ddd.Repository) error
	tag     string
}

func (c *initCmd) Init(ctx context.Context) ([]string, error) { return c.keys, c.initErr }
func (c *initCmd) Main(ctx context.Context, repo *ddd.Repository) error {
	return c.f(ctx, repo)
}
func (c *initCmd) PostSave(ctx context.Context, res *ddd.Result) {
	c.w.add(Op{Kind: "post", Key: c.tag, Res: res, InTx: c.w.tx > 0})
}

func init() {
	ctx := context.Background()

	// C01
	tx := func(name string, mk func(w *W) *script, opts func(w *W) []ddd.Option) {
		vf.Register(name, func() {
			w := newW()
			w.store()
			sc := mk(w)
			w.failAt = vf.Int("failAt", 0, 16)
			w.failPanics = vf.Bool("failPanics")
			eng := w.engine(w.bus(true), opts(w)...)
			var res *ddd.Result
			pan := guarded(func() { res = eng.Run(w.caller(ctx), sc.main) })
			judgeTx(w, res, pan, sc)
		})
	}
	tx("C01.body", func(w *W) *script {
		w.silent = true
		w.errs = true
		n := 3
		if vf.Thorough() {
			n = 4
		}
		return &script{w: w, steps: n, end: vf.Choice("end", 5)}
	}, func(w *W) []ddd.Option { return nil })
	tx("C01.events", func(w *W) *script {
		w.kinds["hook"] = true
		w.errs = true
		return &script{w: w, steps: 2, events: true, end: vf.Choice("end", 2), swallow: false, only: []int{stAdd, stSave, stGet, stEdit}}
	}, func(w *W) []ddd.Option {
		if vf.Bool("persist") {
			return []ddd.Option{ddd.WithEventPersist(persist)}
		}
		return nil
	})
	vf.Register("C01.two", func() { // two failures: the rollback or the commit may fail on top
		w := newW()
		w.store()
		w.silent = true
		sc := &script{w: w, steps: 2, events: true, end: vf.Choice("end", 3)}
		w.failAt = vf.Int("failAt", 0, 12)
		w.failAt2 = vf.Int("failAt2", 0, 12)
		eng := w.engine(w.bus(vf.Bool("txbus")))
		var res *ddd.Result
		c := ctx
		if vf.Thorough() {
			c = w.caller(ctx)
		}
		pan := guarded(func() { res = eng.Run(c, &initCmd{w: w, keys: []string{"k"}, f: sc.main}) })
		if w.count("begin") == 0 {
			vf.Assert(res.Error != nil && w.count("body") == 0, "without lock the command must fail")
			return
		}
		judgeTx(w, res, pan, sc)
	})
	vf.Register("C01.off", func() {
		w := newW()
		w.store()
		w.silent = true
		sc := &script{w: w, steps: 2, events: true, end: vf.Choice("end", 5)}
		w.failAt = vf.Int("failAt", 0, 10)
		w.errs = true
		var opts, run []ddd.Option
		if vf.Bool("per_run") {
			run = append(run, ddd.WithoutTransaction)
		} else {
			opts = append(opts, ddd.WithoutTransaction)
		}
		eng := w.engine(w.bus(vf.Bool("txbus")), opts...)
		var res *ddd.Result
		pan := guarded(func() { res = eng.Run(ctx, sc.main, run...) })
		for _, o := range w.ops {
			vf.Assert(o.Kind != "begin" && o.Kind != "commit" && o.Kind != "rollback", "transactions are off, and there is a "+o.Kind)
		}
		if sc.panicked {
			vf.Assert(pan != nil, "a panic is lost")
		}
		if pan == nil && sc.finished && sc.returned != nil && !errors.Is(sc.returned, ddd.ErrBreak) {
			vf.Assert(res.Error != nil, "a failure is not reported")
		}
		vf.Reach("no transaction")
	})

	// C02
	lockRuns := func(name string, few bool) {
		vf.Register(name, func() {
			w := newW()
			w.store()
			w.silent = true
			n := 0
			if few {
				n = vf.Choice("nkeys", 3)
			} else if vf.Thorough() {
				n = vf.Choice("nkeys", 5)
			} else {
				n = vf.Choice("nkeys", 4)
			}
			var keys []string
			dup := false
			alpha := []string{"b", "a", "ab", "", "c"}
			for i := 0; i < n; i++ {
				k := alpha[i]
				if !few {
					k = alpha[vf.Choice("key", len(alpha))]
				}
				for _, p := range keys {
					dup = dup || p == k
				}
				keys = append(keys, k)
			}
			sorted := append([]string(nil), keys...)
			sort.Strings(sorted)
			sc := &script{w: w, steps: 1, only: []int{stAdd, stRemove}, end: vf.Choice("end", 5)}
			w.failAt = vf.Int("failAt", 0, 12)
			w.failPanics = vf.Bool("failPanics")
			c := ctx
			if few {
				w.errs = true
				w.tokens = vf.Choice("tokens", 3)
				c = w.caller(ctx)
			}
			old := vf.Bool("old_form")
			eng := w.engine(w.bus(false))
			var res *ddd.Result
			pan := guarded(func() {
				if old {
					lc := &lockCmd{committer: committer{}, keys: keys}
					lc.f = func(ctx context.Context, con ddd.RootContainer) error {
						w.add(Op{Kind: "body", InTx: w.tx > 0})
						sc.finished = true
						switch sc.end {
						case 1:
							sc.returned = business()
						case 2, 3:
							sc.returned = ddd.ErrBreak
						case 4:
							blow()
						}
						return sc.returned
					}
					res = eng.Run(c, lc)
				} else {
					res = eng.Run(c, &initCmd{w: w, keys: keys, f: sc.main})
				}
			})
			tr := w.trace()
			if dup {
				vf.Assert(pan == nil && res.Error != nil && w.count("lock") == 0 && w.count("body") == 0, "duplicate lock keys are not refused: "+tr)
				vf.Reach("duplicate")
				return
			}
			held := map[string]bool{}
			got := 0
			refused := false
			lastKey := ""
			for _, o := range w.ops {
				switch o.Kind {
				case "lock":
					vf.Assert(!refused, "locking goes on after a refusal: "+tr)
					vf.Assert(got == 0 || o.Key > lastKey, "locks are not taken in sorted order: "+tr)
					lastKey = o.Key
					vf.Assert(!o.InTx, "a lock is taken inside the transaction: "+tr)
					refused = !o.OK
					if o.OK {
						got++
						held[o.Key] = true
					}
				case "unlock":
					if w.tokens == 0 {
						vf.Assert(held[o.Key], "a lock is released that is not held: "+tr)
						held[o.Key] = false
					}
					vf.Assert(got > 0, "a lock is released twice: "+tr)
					got--
					vf.Assert(!o.InTx, "a lock is released before the transaction has ended: "+tr)
				case "begin", "body", "exec", "query", "commit", "rollback":
					vf.Assert(got == n && !refused, "a "+o.Kind+" happens without all locks: "+tr)
				}
			}
			vf.Assert(got == 0, "a lock is not released: "+tr)
			vf.Assert(w.count("unlock") <= n, "a lock is released twice: "+tr)
			if refused {
				vf.Assert(w.count("begin") == 0 && w.count("body") == 0, "the command runs without its lock: "+tr)
				vf.Assert(pan == nil && res.Error != nil && errors.Is(res.Error, errHeld), "a refused lock is not reported as the locker said")
				vf.Reach("refused")
				return
			}
			vf.Assert(w.count("lock") == n, "not every key is locked: "+tr)
			if pan != nil {
				vf.Assert(pan == any(errBody) || pan == any(errInjected) || pan == any("business panic"), "the panic is changed")
				vf.Reach("panic")
			}
			if pan == nil && res.Error == nil && n > 1 {
				vf.Reach("locked run")
			}
		})
	}
	lockRuns("C02.locks", false)
	lockRuns("C02.errors", true)

	// C11
	vf.Register("C11.dry", func() {
		n := 2
		if vf.Thorough() {
			n = 3
		}
		end := vf.Choice("end", 5)
		txbus := vf.Bool("txbus")
		noTx := vf.Bool("notx")
		keep := vf.Bool("persist")
		where := vf.Choice("where", 2)
		var outcome [2]string
		var steps []int
		for i := 0; i < n; i++ {
			steps = append(steps, vf.Choice("script", stKinds))
		}
		fail := vf.Int("failAt", 0, 8)
		for round := 0; round < 2; round++ {
			w := newW()
			w.store()
			w.silent = true
			w.plain = true
			sc := &script{w: w, steps: n, events: true, end: end}
			sc.fixed = steps
			opts := []ddd.Option{}
			run := []ddd.Option{}
			if noTx {
				opts = append(opts, ddd.WithoutTransaction)
			}
			if keep {
				opts = append(opts, ddd.WithEventPersist(persist))
			}
			if round == 1 {
				if where == 0 {
					opts = append(opts, ddd.WithDryRun)
				} else {
					run = append(run, ddd.WithDryRun)
				}
				w.failAt = fail
			}
			eng := w.engine(w.bus(txbus), opts...)
			var res *ddd.Result
			pan := guarded(func() { res = eng.Run(ctx, sc.main, run...) })
			switch {
			case pan != nil:
				outcome[round] = fmt.Sprint("panic ", pan)
			case res.Error != nil:
				outcome[round] = "error " + res.Error.Error()
			case res.Break:
				outcome[round] = "break"
			default:
				outcome[round] = "ok"
			}
			if round == 1 {
				tr := w.trace()
				vf.Assert(w.writes() == 0, "a dry run writes: "+tr)
				for _, o := range w.ops {
					vf.Assert(o.Kind != "dispatch" && o.Kind != "txbegin" && o.Kind != "txcommit", "a dry run sends events: "+tr)
				}
				if len(w.failed) == 0 {
					vf.Assert(outcome[0] == outcome[1], "a dry run ends with '"+outcome[1]+"' instead of '"+outcome[0]+"': "+strings.Join(sc.did, ","))
					vf.Reach("same outcome")
				}
				if w.count("query") > 0 && len(w.failed) == 0 {
					vf.Assert(sc.r == nil || len(sc.r.Kids) > 0 || contains(sc.did, "dropkid"), "queries do not work in a dry run")
					vf.Reach("queried")
				}
			}
		}
	})

	// C12
	vf.Register("C12.hooks", func() {
		w := newW()
		w.store()
		w.silent = true
		ne := vf.Choice("engine_hooks", 5)
		nr := vf.Choice("run_hooks", 3)
		mk := func(tag string) ddd.Option {
			return ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) {
				w.add(Op{Kind: "post", Key: tag, Res: res, InTx: w.tx > 0})
			})
		}
		var opts []ddd.Option
		want := map[string]int{}
		for i := 0; i < ne; i++ {
			opts = append(opts, mk(fmt.Sprint("e", i)))
		}
		eng := w.engine(w.bus(false), opts...)
		nested := vf.Choice("nested", 3) // 0 none, 1 while the first run is going, 2 from its post-save hook
		var inner *ddd.Result
		runInner := func(ctx context.Context) {
			var ro []ddd.Option
			for i := 0; i < nr; i++ {
				ro = append(ro, mk(fmt.Sprint("i", i)))
				want[fmt.Sprint("i", i)]++
			}
			for i := 0; i < ne; i++ {
				want[fmt.Sprint("e", i)]++
			}
			want["inner"]++
			inner = eng.Run(ctx, &initCmd{w: w, tag: "inner", f: func(ctx context.Context, repo *ddd.Repository) error {
				repo.Add(&Root{Name: "x"})
				return nil
			}}, ro...)
		}
		sc := &script{w: w, steps: 1, only: []int{stAdd, stGet}, end: vf.Choice("end", 5)}
		var ro []ddd.Option
		for i := 0; i < nr; i++ {
			ro = append(ro, mk(fmt.Sprint("o", i)))
		}
		var finalOp *Op
		if nested == 2 {
			ro = append(ro, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { runInner(context.Background()) }))
		}
		c := &initCmd{w: w, tag: "outer", keys: []string{"k"}, f: func(ctx context.Context, repo *ddd.Repository) error {
			if nested == 1 {
				saved := w.tx
				w.tx = 0
				runInner(context.Background())
				w.tx = saved
				w.txSeq = 1
			}
			return sc.main(ctx, repo)
		}}
		w.failAt = vf.Int("failAt", 0, 9)
		var res *ddd.Result
		pan := guarded(func() { res = eng.Run(ctx, c, ro...) })
		_ = finalOp
		if inner != nil && inner.Error != nil {
			for k := range want {
				want[k] = 0
			}
		}
		if pan == nil && res.Error == nil {
			for i := 0; i < ne; i++ {
				want[fmt.Sprint("e", i)]++
			}
			for i := 0; i < nr; i++ {
				want[fmt.Sprint("o", i)]++
			}
			want["outer"]++
		} else if nested == 2 {
			vf.Assert(inner == nil, "a post-save hook runs after a failed run")
		}
		got := map[string]int{}
		tr := w.trace()
		for _, o := range w.ops {
			if o.Kind != "post" {
				continue
			}
			got[o.Key]++
			vf.Assert(o.Res != nil && o.Res.Error == nil, "a post-save hook gets a failed result: "+tr)
			if o.Key != "inner" && o.Key[0] == 'o' {
				vf.Assert(o.Res == res, "a post-save hook gets another result than the caller: "+tr)
			}
		}
		for k, n := range want {
			vf.Assert(got[k] == n, fmt.Sprintf("post-save hook %s runs %d times instead of %d: %s", k, got[k], n, tr))
		}
		for k := range got {
			vf.Assert(got[k] == want[k], fmt.Sprintf("post-save hook %s runs %d times instead of %d: %s", k, got[k], want[k], tr))
		}
		// a hook of the outer run comes after its transaction and lock
		if pan == nil && res.Error == nil {
			for i, o := range w.ops {
				if o.Kind == "post" && o.Key == "outer" {
					vf.Assert(i > w.lastIndexOf("unlock", "ddd_engine_k"), "a post-save hook runs before the lock is released: "+tr)
					vf.Assert(!o.InTx, "a post-save hook runs inside the transaction: "+tr)
				}
			}
			vf.Reach("hooks after success")
			if res.Break {
				vf.Assert(sc.end == 2 || sc.end == 3, "a break nobody asked for")
				vf.Reach("hooks after break")
			} else {
				vf.Assert(sc.end == 0, "an end is reported as a success: "+tr)
			}
		} else {
			vf.Reach("no hooks after failure")
		}
		if len(w.failed) == 0 && sc.end == 1 {
			vf.Assert(pan == nil && res.Error != nil && errors.Is(res.Error, errBody) && !res.Break, "a business error is not reported")
		}
	})
	vf.Register("C12.leaks", func() {
		// a first run with any options and any end, then a plain one: the second is as if the first had not been
		w := newW()
		w.store()
		w.silent = true
		eng := w.engine(w.bus(true))
		w2 := &W{kinds: map[string]bool{}}
		var ro []ddd.Option
		if vf.Bool("dry") {
			ro = append(ro, ddd.WithDryRun)
		}
		if vf.Bool("notx") {
			ro = append(ro, ddd.WithoutTransaction)
		}
		if vf.Bool("recursive") {
			ro = append(ro, ddd.WithRecursiveDelete)
		}
		if vf.Bool("elsewhere") {
			ro = append(ro, ddd.WithExecutor(&Ex{w2}), ddd.WithLock(&Lk{w2}), ddd.WithEventBus(w2.bus(vf.Bool("bus2"))), ddd.WithIDGenerator(&IDs{w2}))
		}
		if vf.Bool("persist") {
			ro = append(ro, ddd.WithEventPersist(persist))
		}
		sc := &script{w: w, tag: "p", steps: 2, events: true, only: []int{stAdd, stSave, stRemove}, end: vf.Choice("end", 5)}
		order := vf.Choice("order", 2)
		plainOn := func(w *W, eng *ddd.Engine) string {
			from := len(w.ops)
			save := w.tx
			w.tx = 0
			sc2 := &script{w: w, tag: "q", steps: 2, events: true, fixed: []int{stAdd, stGet}}
			res := eng.Run(ctx, &initCmd{w: w, keys: []string{"z"}, f: func(ctx context.Context, repo *ddd.Repository) error {
				if err := sc2.main(ctx, repo); err != nil {
					return err
				}
				sc2.r.Kids[0].Subs = append(sc2.r.Kids[0].Subs, &Sub{Name: "qs"})
				sc2.r.Kids = sc2.r.Kids[1:]
				return nil
			}})
			vf.Assert(res.Error == nil && !res.Break, "a plain run fails after another run")
			var b strings.Builder
			for _, o := range w.ops[from:] {
				b.WriteString(o.Kind)
				if o.Action != nil {
					b.WriteString(fmt.Sprint("-", o.Action.Op, "x", len(o.Action.Models)))
					for _, m := range o.Action.Models {
						if p := poOf(m); p != nil && o.Kind == "exec" {
							b.WriteString("-" + p.Of)
						}
					}
				}
				if len(o.Events) > 0 {
					b.WriteString(fmt.Sprint("-", len(o.Events)))
				}
				b.WriteString(" ")
			}
			w.tx = save
			if order == 1 {
				w.txSeq = 1
			}
			return b.String()
		}
		fresh := &W{kinds: map[string]bool{}, silent: true}
		fresh.store()
		right := plainOn(fresh, fresh.engine(fresh.bus(true)))
		vf.Assert(strings.Contains(right, "exec-1x1-qn1") && strings.Contains(right, "commit"), "a plain run does: "+right)
		cur = w
		plain := func() {
			got := plainOn(w, eng)
			vf.Assert(got == right, "a plain run after or inside another one does: "+got+" instead of: "+right)
			vf.Reach("plain run")
		}
		if order == 0 {
			_ = guarded(func() { eng.Run(ctx, sc.main, ro...) })
			w.tx = 0
			plain()
		} else {
			_ = guarded(func() {
				eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
					err := sc.body(ctx, repo)
					plain()
					return err
				}, ro...)
			})
			if sc.end != 4 {
				vf.Assert(w.count("body") > 0, "the nested run did not happen")
			}
		}
	})
	_ = time.Now
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (w *W) lastIndexOf(kind, key string) int {
	for i := len(w.ops) - 1; i >= 0; i-- {
		if w.ops[i].Kind == kind && w.ops[i].Key == key {
			return i
		}
	}
	return -1
}

type lockCmd struct {
	committer
	keys []string
}

func (c *lockCmd) Init(ctx context.Context) ([]string, error) { return c.keys, nil }
