package eng

import (
	"context"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// sizes are how many of something there may be: a few, and more than any page or batch one might think of.
func sizes() int {
	s := []int{1, 3, 12, 33, 70, 140}
	if vf.Thorough() {
		s = append(s, 2, 21, 101, 257, 520, 1030)
	}
	return s[vf.Choice("how_many", len(s))]
}

// crowd is an aggregate with many entities, of which one part is left, one changed, one taken out, one moved and one new;
// the parts are chosen.
func crowd(n int) *shape {
	s := &shape{}
	r0, r1 := s.root("r0", true), s.root("r1", true)
	r0.now, r1.now = []pos{{}}, []pos{{}}
	gone := vf.Bool("remove_r1")
	if gone {
		r1.now = nil
	}
	part := vf.Choice("part", 6)
	val := vf.Int("val", -1000, 1000)
	last := vf.Int("val_last", -1000, 1000)
	own := part >= 4 && vf.Bool("own_ids")
	for i := 0; i < n; i++ {
		do := part
		if part == 5 {
			do = i % 5
		}
		name := fmt.Sprint("k", i)
		var x *ent
		if do == 4 {
			x = s.kid(name, nil)
			x.now = []pos{{r0, "Kids"}}
			if own {
				x.e.SetID("own-" + name)
			}
		} else {
			x = s.kid(name, at(r0, "Kids"))
			switch do {
			case 0:
				x.now = []pos{{r0, "Kids"}}
			case 1:
				x.now = []pos{{r0, "Kids"}}
				x.dirty = true
			case 2:
			case 3:
				if gone {
					x.now = []pos{{r0, "Alt"}}
				} else {
					x.now = []pos{{r1, "Kids"}}
				}
			}
		}
		x.set(val)
		if i == n-1 {
			x.set(last)
		}
	}
	// below the root that may go
	for i := 0; i < n; i++ {
		k := s.kid(fmt.Sprint("b", i), at(r1, "Alt"))
		k.now = []pos{{r1, "Alt"}}
		if i < 3 {
			c := s.sub(fmt.Sprint("s", i), at(k, "Subs"))
			c.now = []pos{{k, "Subs"}}
		}
	}
	return s
}

func init() {
	many := func(name string, hooks, twice bool, rec func() bool) {
		vf.Register(name, func() {
			w := newW()
			w.silent = true
			s := crowd(sizes())
			recursive := rec()
			var opts []ddd.Option
			if recursive {
				opts = append(opts, ddd.WithRecursiveDelete)
			}
			eng := w.engine(&Bus{w: w}, opts...)
			prev, now, owned := map[string]int{}, map[string]int{}, map[string]string{}
			for _, x := range s.ents {
				owned[x.name] = x.e.GetID()
			}
			start := 0
			exp := s.expect(recursive)
			judge := func() {
				g := collect(w, start)
				judgeSets(s, exp, g)
				judgeOrder(g)
				judgeModels(s, g, prev, now)
				ids := map[string]bool{}
				for _, x := range s.ents {
					id := x.e.GetID()
					vf.Assert(id != "" && !ids[id], "two entities have one id, or one has none")
					ids[id] = true
					switch {
					case x.loaded:
						vf.Assert(id == "id-"+x.name, "the id of an existing entity is replaced")
					case owned[x.name] != "":
						vf.Assert(id == owned[x.name], "an id that was set is replaced")
					default:
						vf.Assert(id[:3] == "gen", "a new entity got no id from the generator")
					}
				}
				if hooks {
					ran := map[string]int{}
					for _, o := range w.ops {
						if o.Kind == "hook" {
							ran[o.Key]++
						}
					}
					want := map[string]bool{}
					for k := range exp.ins {
						want["bc "+k], want["ac "+k] = true, true
					}
					for k := range exp.upd {
						want["bu "+k], want["au "+k] = true, true
					}
					for k := range exp.del {
						want["bd "+k], want["ad "+k] = true, true
					}
					for k := range want {
						vf.Assert(ran[k] == 1, "hook '"+k+"' does not run once")
					}
					vf.Assert(len(ran) == len(want), "a hook runs without a change")
				}
			}
			res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
				if err := s.load(ctx, repo); err != nil {
					return err
				}
				for _, x := range s.ents {
					prev[x.name] = x.val()
				}
				w.silent = !hooks
				start = len(w.ops)
				s.apply(ctx, repo)
				add := vf.Int("add", 1, 1000)
				for _, x := range s.ents {
					if x.dirty {
						x.set(add)
					}
					now[x.name] = x.val()
				}
				if !twice {
					return nil
				}
				if err := repo.Save(ctx); err != nil {
					return err
				}
				judge()
				start = len(w.ops)
				return nil
			})
			if res.Error != nil {
				vf.Fail("the command fails: " + res.Error.Error())
			}
			if twice {
				vf.Assert(len(collect(w, start).actions) == 0, "a second save writes again")
				vf.Reach("saved twice")
				return
			}
			judge()
			vf.Reach("saved")
		})
	}
	// C11: much to write, all of it not written
	vf.Register("C11.sizes", func() {
		w := newW()
		w.silent = true
		s := crowd(sizes())
		own := &Own{Name: "o"}
		own.list = []ddd.IEntity{&Sub{Name: "os"}}
		var opts []ddd.Option
		if vf.Bool("recursive") {
			opts = append(opts, ddd.WithRecursiveDelete)
		}
		if vf.Bool("persist") {
			opts = append(opts, ddd.WithEventPersist(persist))
		}
		eng := w.engine(w.bus(vf.Bool("txbus")), append(opts, ddd.WithDryRun)...)
		events, save := vf.Choice("events", 4), vf.Bool("save")
		res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			if err := s.load(ctx, repo); err != nil {
				return err
			}
			s.apply(ctx, repo)
			repo.Add(&Root{Name: "new", Any: []ddd.IEntity{own}})
			for i, e := range []raiser{own, own.list[0].(*Sub), s.ents[0].e.(*Root)} {
				if i < events {
					e.AddEvent(&Evt{Typ: "t", N: i}, ddd.WithSendType([]ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction}[i%2]))
				}
			}
			if save {
				return repo.Save(ctx)
			}
			return nil
		})
		if res.Error != nil {
			vf.Fail("a dry run fails: " + res.Error.Error())
		}
		for _, o := range w.ops {
			vf.Assert(o.Kind != "exec", "a dry run writes")
			vf.Assert(o.Kind != "dispatch" && o.Kind != "txbegin" && o.Kind != "txcommit", "a dry run sends events")
		}
		vf.Reach("dry")
	})

	no := func() bool { return false }
	yes := func() bool { return true }
	many("C03.sizes", false, false, no)
	many("C05.sizes", false, false, yes)
	many("C06.sizes", false, true, func() bool { return vf.Bool("recursive") })
	many("C07.sizes", false, false, no)
	many("C08.sizes", true, false, yes)

	// C02: many lock keys
	vf.Register("C02.sizes", func() {
		w := newW()
		w.silent = true
		n := sizes()
		var keys []string
		for i := 0; i < n; i++ {
			keys = append(keys, fmt.Sprint("key", (i*7)%n, "/", i))
		}
		w.failAt = []int{0, 1, 2, n/2 + 1, n, n + 1, n + 2, n + 3}[vf.Choice("failAt", 8)]
		held := map[string]int{}
		res := w.engine(&Bus{w: w}).NewStage().Lock(keys...).Main(func(ctx context.Context, repo *ddd.Repository) error {
			w.add(Op{Kind: "body"})
			return nil
		}).Save(context.Background())
		last := ""
		refused := false
		for _, o := range w.ops {
			switch o.Kind {
			case "lock":
				vf.Assert(o.Key > last, "locks are not taken in one order")
				last = o.Key
				refused = refused || !o.OK
				if o.OK {
					held[o.Key]++
				}
			case "unlock":
				held[o.Key]--
			case "body", "begin", "commit", "exec":
				vf.Assert(len(held) == n, "the command runs without all its locks")
				for k := range held {
					vf.Assert(held[k] == 1, "the command runs without a lock: "+k)
				}
			}
		}
		for k, h := range held {
			vf.Assert(h == 0, "the lock of "+k+" is not released once")
		}
		if refused {
			vf.Assert(res.Error != nil && w.index("body") < 0, "a refused lock is ignored")
			vf.Reach("refused")
		} else if w.index("begin") >= 0 && w.ops[w.index("begin")].OK {
			vf.Assert(w.index("body") >= 0, "the command does not run")
			vf.Reach("ran")
		}
	})

	// C02: two commands exclude each other when they share a key, whatever else they lock
	vf.Register("C02.names", func() {
		alpha := []string{"a", "b", "ab", "", "a_b", "A", "ddd_engine_a", "a,b", " a"}
		pick := func() []string {
			k := []string{alpha[vf.Choice("key", len(alpha))]}
			if vf.Bool("two") {
				k = append(k, alpha[vf.Choice("key2", len(alpha))])
				if k[0] == k[1] {
					vf.End()
				}
			}
			return k
		}
		locks := func(keys []string, how int) map[string]bool {
			w := newW()
			w.silent = true
			eng := w.engine(&Bus{w: w})
			main := func(ctx context.Context, repo *ddd.Repository) error { return nil }
			var res *ddd.Result
			in := append([]string(nil), keys...)
			if how == 0 {
				res = eng.NewStage().Lock(in...).Main(main).Save(context.Background())
			} else {
				res = eng.Run(context.Background(), &initCmd{w: w, keys: in, f: main})
			}
			vf.Assert(res.Error == nil, "the command fails")
			for i := range keys {
				vf.Assert(in[i] == keys[i], "the command's own list of keys is changed")
			}
			m := map[string]bool{}
			for _, o := range w.ops {
				if o.Kind == "lock" {
					m[o.Key] = true
				}
			}
			vf.Assert(len(m) == len(keys), "different keys are not different locks")
			return m
		}
		k1, k2 := pick(), pick()
		l1, l2 := locks(k1, vf.Choice("how", 2)), locks(k2, vf.Choice("how2", 2))
		shared, both := 0, 0
		for _, a := range k1 {
			for _, b := range k2 {
				if a == b {
					shared++
				}
			}
		}
		for a := range l1 {
			if l2[a] {
				both++
			}
		}
		vf.Assert(shared == both, "commands that share a key do not share its lock, or others do")
		vf.Reach("compared")
	})

	// C09, C10: many events
	vf.Register("C09.sizes", func() {
		w := newW()
		w.silent = true
		n := sizes()
		spread := vf.Choice("spread", 3) // all on one entity, one on each, two on each
		falling := vf.Bool("falling")
		txbus := vf.Bool("txbus")
		keep := vf.Bool("persist")
		var opts []ddd.Option
		if keep {
			opts = append(opts, ddd.WithEventPersist(persist))
		}
		tx := 0
		if txbus {
			tx = vf.Choice("transactional", 3) // none, all, every other
		}
		eng := w.engine(w.bus(txbus), opts...)
		var all []*ddd.DomainEvent
		at0 := vf.Int("at", 0, 999)
		res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			root := &Root{Name: "r"}
			repo.Add(root)
			for i := 0; i < n; i++ {
				var e raiser = root
				if spread > 0 {
					if i%spread == 0 || len(root.Kids) == 0 {
						root.Kids = append(root.Kids, &Kid{Name: fmt.Sprint("k", i)})
					}
					e = root.Kids[len(root.Kids)-1]
				}
				t := ddd.SendTypeNormal
				if tx == 1 || tx == 2 && i%2 == 0 {
					t = ddd.SendTypeTransaction
				}
				e.AddEvent(&Evt{Typ: "t", N: i}, ddd.WithSendType(t))
				ev := e.GetEvents()[len(e.GetEvents())-1]
				ev.ID = fmt.Sprintf("ev%06d", i)
				sec := int64(1000 + i)
				if falling {
					sec = int64(5000 - i)
				}
				ev.CreatedAt = time.Unix(sec, int64(at0))
				all = append(all, ev)
			}
			return nil
		})
		vf.Assert(res.Error == nil, "the command fails")
		sent, begun, kept := map[*ddd.DomainEvent]int{}, map[*ddd.DomainEvent]int{}, map[*ddd.DomainEvent]int{}
		var order []*ddd.DomainEvent
		var orderTx []*ddd.DomainEvent
		for _, o := range w.ops {
			switch o.Kind {
			case "dispatch":
				for _, e := range o.Events {
					sent[e]++
				}
				order = append(order, o.Events...)
			case "txbegin":
				for _, e := range o.Events {
					begun[e]++
				}
				orderTx = append(orderTx, o.Events...)
			case "exec":
				for _, m := range o.Action.Models {
					if p, ok := m.(*EventPO); ok {
						kept[p.Evt]++
					}
				}
			}
		}
		for i, e := range all {
			vf.Assert(sent[e]+begun[e] == 1, fmt.Sprintf("event %d of %d is sent %d times", i, n, sent[e]+begun[e]))
			isTx := tx == 1 || tx == 2 && i%2 == 0
			vf.Assert(begun[e] == 1 == isTx, fmt.Sprintf("event %d of %d is sent the other way", i, n))
			if keep {
				vf.Assert(kept[e] == 1, fmt.Sprintf("event %d of %d is persisted %d times", i, n, kept[e]))
			}
		}
		vf.Assert(len(order)+len(orderTx) == n, "events are sent that nobody raised")
		vf.Assert(inOrder(order) && inOrder(orderTx), "events are sent out of order")
		vf.Reach("sent")
	})

	// C13: many children
	vf.Register("C13.sizes", func() {
		w := newW()
		w.silent = true
		n := sizes()
		subs := vf.Choice("subs", 3)
		w.rows = map[string][]ddd.IModel{"root": {&RootPO{PO{ID: "id-r", Of: "r", Val: 3}}}}
		val := vf.Int("val", -9, 9)
		twin := -1 // a child with the id of its parent
		if vf.Bool("twin") {
			twin = n / 2
		}
		kid := func(i int) string {
			if i == twin {
				return "id-r"
			}
			return fmt.Sprint("id-k", i)
		}
		for i := 0; i < n; i++ {
			w.rows["kid"] = append(w.rows["kid"], &KidPO{PO{ID: kid(i), Of: fmt.Sprint("k", i), Parent: "id-r", Val: val}})
			for j := 0; j < subs; j++ {
				w.rows["sub"] = append(w.rows["sub"], &SubPO{PO{ID: fmt.Sprint("id-s", i, "-", j), Of: fmt.Sprint("s", i, "-", j), Parent: kid(i), Val: j}})
			}
		}
		var r *Root
		res := w.engine(&Bus{w: w}).Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			r = &Root{}
			r.SetID("id-r")
			return repo.Get(ctx, r, &r.Kids)
		})
		vf.Assert(res.Error == nil && len(res.Actions) == 0, "a load alone fails or writes")
		vf.Assert(len(r.Kids) == n, fmt.Sprintf("%d of %d children are loaded", len(r.Kids), n))
		for i, k := range r.Kids {
			vf.Assert(k.GetID() == kid(i) && k.Name == fmt.Sprint("k", i) && k.Val == val, "a child is not filled from its row")
		}
		vf.Reach("loaded")
	})
}
