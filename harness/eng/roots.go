package eng

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// given is a command whose roots are handed to its Act.
type given struct {
	ddd.Command
	roots []ddd.IEntity
	act   func(con ddd.RootContainer, roots []ddd.IEntity) error
}

func (c *given) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.roots, nil
}

func (c *given) Act(ctx context.Context, con ddd.RootContainer, roots ...ddd.IEntity) error {
	return c.act(con, roots)
}

// Shy says which children it has, or leaves that to its fields.
type Shy struct {
	ddd.BaseEntity
	Kids []*Kid
	says map[string][]ddd.IEntity
}

func (s *Shy) GetChildren() map[string][]ddd.IEntity { return s.says }

func init() {
	ctx := context.Background()

	// the roots handed to the business code can be gone through while they are removed, changed and added to
	vf.Register("C12.roots", func() {
		w := newW()
		w.silent = true
		w.store()
		eng := w.engine(w.bus(false))
		n := 3
		if vf.Thorough() {
			n = 4
		}
		own := make([]ddd.IEntity, 0, n+2) // with room for more
		for i := 0; i < n; i++ {
			r := &Root{Name: fmt.Sprint("r", i)}
			r.SetID(fmt.Sprint("id", i))
			own = append(own, r)
		}
		all := append([]ddd.IEntity(nil), own...)
		what := make([]int, n) // 0 keep, 1 dirty, 2 remove, 3 dirty and remove
		for i := range what {
			what[i] = vf.Choice(fmt.Sprint("what", i), 4)
		}
		form := vf.Choice("form", 4)
		fresh := &Root{Name: "fresh"}
		addAt := vf.Choice("add_at", n+2) - 1
		var seen []ddd.IEntity
		loop := func(roots []ddd.IEntity, add, remove func(ddd.IEntity)) {
			for i, r := range roots {
				seen = append(seen, r)
				if i == addAt {
					add(fresh)
				}
				k := -1
				for j, x := range all {
					if x == r {
						k = j
					}
				}
				if k < 0 {
					continue // seen tells
				}
				if what[k]%2 == 1 {
					r.Dirty()
				}
				if what[k] >= 2 {
					remove(r)
				}
			}
			if addAt == n {
				add(fresh)
			}
		}
		var res *ddd.Result
		switch form {
		case 0, 1: // a command, going through what it is given or through what it holds
			res = eng.Run(ctx, &given{roots: own, act: func(con ddd.RootContainer, roots []ddd.IEntity) error {
				if form == 1 {
					roots = own
				}
				loop(roots, func(e ddd.IEntity) { con.Add(e) }, func(e ddd.IEntity) { con.Remove(e) })
				return nil
			}})
		case 2, 3: // a function that loads them all at once, and removes them at once or one by one
			res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
				if err := repo.CustomGet(ctx, func(ctx context.Context, roots ...ddd.IEntity) {}, own...); err != nil {
					return err
				}
				var gone []ddd.IEntity
				loop(own, func(e ddd.IEntity) { repo.Add(e) }, func(e ddd.IEntity) {
					if form == 2 {
						repo.Remove(e)
					} else {
						gone = append(gone, e)
					}
				})
				if len(gone) > 0 {
					repo.Remove(gone...)
				}
				return nil
			})
		}
		vf.Assert(res.Error == nil, "the command fails: "+fmt.Sprint(res.Error))
		vf.Assert(len(seen) == n, "going through the roots meets another number of them")
		vf.Assert(len(own) == n, "the roots of the command change in number")
		for i := range all {
			vf.Assert(seen[i] == all[i], "going through the roots while they change meets others than those loaded")
			vf.Assert(own[i] == all[i], "the list of roots that the command holds is changed")
		}
		g := collect(w, 0)
		for i, x := range what {
			name := fmt.Sprint("r", i)
			del, upd := 0, 0
			if x >= 2 {
				del = 1
			} else if x == 1 {
				upd = 1
			}
			vf.Assert(g.del[name] == del, "a root is deleted that was not removed, or one that was is not")
			vf.Assert(g.upd[name] == upd, "a root is updated that was not changed, or one that was is not")
			vf.Assert(g.ins[name] == 0, "a loaded root is inserted")
		}
		ins := 0
		if addAt >= 0 {
			ins = 1
		}
		vf.Assert(g.ins["fresh"] == ins, "an added root is not inserted once")
		vf.Reach("done")
	})

	// what GetChildren answers is what the children are; only a nil answer leaves it to the fields
	vf.Register("C03.own", func() {
		w := newW()
		w.silent = true
		recursive := vf.Bool("recursive")
		var opts []ddd.Option
		if recursive {
			opts = append(opts, ddd.WithRecursiveDelete)
		}
		eng := w.engine(w.bus(false), opts...)
		says := vf.Choice("says", 5)
		type child struct {
			e                 *Kid
			before, now, seen bool
			dirty             bool
		}
		a := &child{e: &Kid{Name: "a"}, seen: says == 0}              // in the field
		b := &child{e: &Kid{Name: "b"}, seen: says == 3 || says == 4} // in the answer
		isNew := vf.Bool("new")
		for _, c := range []*child{a, b} {
			c.before = !isNew && vf.Bool(c.e.Name+"_before")
			c.now = vf.Bool(c.e.Name + "_now")
			c.dirty = vf.Bool(c.e.Name + "_dirty")
			if c.before {
				c.e.SetID("id-" + c.e.Name)
			}
		}
		s := &Shy{}
		arrange := func(now bool) {
			s.Kids = nil
			if a.before && !now || a.now && now {
				s.Kids = append(s.Kids, a.e)
			}
			var list []ddd.IEntity
			if b.before && !now || b.now && now {
				list = append(list, b.e)
			}
			switch says {
			case 0:
				s.says = nil
			case 1:
				s.says = map[string][]ddd.IEntity{}
			case 2:
				s.says = map[string][]ddd.IEntity{"Kids": nil}
			case 3:
				s.says = map[string][]ddd.IEntity{"list": list}
			case 4: // under the name of the field
				s.says = map[string][]ddd.IEntity{"Kids": list, "more": {}}
			}
		}
		mark := func() {
			for _, c := range []*child{a, b} {
				if c.dirty {
					c.e.Dirty()
				}
			}
		}
		gone := !isNew && vf.Bool("gone")
		var res *ddd.Result
		if isNew {
			res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
				arrange(true)
				mark()
				repo.Add(s)
				return nil
			})
		} else {
			s.SetID("id-s")
			arrange(false)
			res = eng.Run(ctx, &given{roots: []ddd.IEntity{s}, act: func(con ddd.RootContainer, roots []ddd.IEntity) error {
				arrange(true)
				mark()
				if gone {
					con.Remove(s)
				}
				return nil
			}})
		}
		vf.Assert(res.Error == nil, "the command fails: "+fmt.Sprint(res.Error))
		g := collect(w, 0)
		for _, c := range []*child{a, b} {
			ins, upd, del := 0, 0, 0
			switch {
			case !c.seen:
			case gone:
				if !recursive {
					continue // C05 says what becomes of them
				}
				if c.before {
					del = 1
				}
			case c.now && !c.before:
				ins = 1
			case c.now && c.before && c.dirty:
				upd = 1
			case c.before && !c.now:
				del = 1
			}
			if gone && c.now != c.before {
				continue // moved out of a root that goes: C05
			}
			vf.Assert(g.ins[c.e.Name] == ins, "a child that the entity does not list is inserted, or one that it lists is not")
			vf.Assert(g.upd[c.e.Name] == upd, "a child that the entity does not list is updated, or one that it lists is not")
			vf.Assert(g.del[c.e.Name] == del, "a child that the entity does not list is deleted, or one that it listed is not")
		}
		vf.Reach("done")
	})

	// two events that say the same are two events
	vf.Register("C09.twins", func() {
		w := newW()
		w.silent = true
		w.store()
		txbus := vf.Bool("txbus")
		bus := w.bus(txbus)
		var opts []ddd.Option
		noTx := vf.Bool("notx")
		if noTx {
			opts = append(opts, ddd.WithoutTransaction)
		}
		keep := vf.Bool("persist")
		if keep {
			opts = append(opts, ddd.WithEventPersist(persist))
		}
		eng := w.engine(bus, opts...)
		kind := ddd.SendTypeNormal
		if txbus && vf.Bool("transactional") {
			kind = ddd.SendTypeTransaction
		}
		n := 2 + vf.Choice("more", 2)
		var at []int
		var raised []*ddd.DomainEvent
		for i := 0; i < n; i++ {
			at = append(at, vf.Choice(fmt.Sprint("at", i), 4))
		}
		shared := &Evt{Typ: "t", N: 1}
		same := vf.Bool("same_object")
		res := eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			root := &Root{}
			root.SetID("id-r")
			if err := repo.Get(ctx, root, &root.Kids); err != nil {
				return err
			}
			fresh := &Root{Name: "n"}
			repo.Add(fresh)
			from := []raiser{root, root.Kids[0], root.Kids[1], fresh}
			root.Kids = root.Kids[:1] // the other one goes
			for i := 0; i < n; i++ {
				e := shared
				if !same {
					e = &Evt{Typ: "t", N: 1}
				}
				from[at[i]].AddEvent(e, ddd.WithSendType(kind))
				l := from[at[i]].GetEvents()
				raised = append(raised, l[len(l)-1])
			}
			return nil
		})
		vf.Assert(res.Error == nil, "the command fails: "+fmt.Sprint(res.Error))
		var sent, kept []*ddd.DomainEvent
		for _, o := range w.ops {
			switch o.Kind {
			case "dispatch", "txbegin":
				sent = append(sent, o.Events...)
			case "exec":
				for _, m := range o.Action.Models {
					if p, ok := m.(*EventPO); ok {
						kept = append(kept, p.Evt)
					}
				}
			}
		}
		vf.Assert(len(sent) == n, "of events with the same content not every one is sent once")
		for _, e := range raised {
			vf.Assert(times(sent, e) == 1, "of events with the same content one is not sent once")
			if keep {
				vf.Assert(times(kept, e) == 1, "of events with the same content one is not kept once")
			}
		}
		vf.Reach("done")
	})

	// a handler may, while it runs, have events handled, run commands and register handlers
	vf.Register("C16.inner", func() {
		w := newW()
		w.silent = true
		bus := &TxBus{Bus: Bus{w: w}}
		eng := w.engine(bus)
		send := func(typ string, n int) error {
			p, _ := json.Marshal(&Evt{Typ: typ, N: n})
			return bus.cb(ctx, &ddd.DomainEvent{ID: fmt.Sprint(typ, n), Type: ddd.EventType(typ), Payload: p})
		}
		fails := vf.Bool("inner_fails")
		bad := errors.New("inner")
		inner, late, checked := 0, 0, 0
		ddd.RegisterEventHandler("I", func(ctx context.Context, e *Evt) error {
			inner++
			vf.Assert(e.N == 5, "an event handled inside a handler is not its own")
			if fails {
				return bad
			}
			return nil
		})
		ddd.RegisterEventTXChecker("A", func(e *Evt) ddd.TXStatus { checked++; return ddd.TXCommit })
		does := vf.Choice("does", 5)
		outer := 0
		first := func(ctx context.Context, e *Evt) error {
			outer++
			vf.Assert(e.N == 3, "the event is not decoded")
			switch does {
			case 1:
				return send("I", 5)
			case 2:
				ddd.RegisterEventHandler("L", func(ctx context.Context, e *Evt) error { late++; return nil })
			case 3:
				vf.Assert(bus.check(&ddd.DomainEvent{ID: "c", Type: "A", Payload: []byte(`{}`)}) == ddd.TXCommit, "a checker asked inside a handler answers otherwise")
			case 4:
				return eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
					repo.Add(&Root{Name: "made"})
					return send("I", 5)
				}).Error
			}
			return nil
		}
		if vf.Bool("by_command") {
			eng.RegisterEventHandler("O", func(e *Evt) ddd.MainFunc {
				return func(ctx context.Context, repo *ddd.Repository) error { return first(ctx, e) }
			})
		} else {
			ddd.RegisterEventHandler("O", first)
		}
		second := 0
		ddd.RegisterEventHandler("O", func(ctx context.Context, e *Evt) error { second++; return nil })
		err := send("O", 3)
		nested := does == 1 || does == 4
		vf.Assert(outer == 1, "the handler is not called once")
		if nested {
			vf.Assert(inner == 1, "an event handled inside a handler is not handled once")
		}
		if nested && fails {
			vf.Assert(errors.Is(err, bad), "the error of an event handled inside a handler is lost")
		} else {
			vf.Assert(err == nil, "the handler fails")
			vf.Assert(second == 1, "the next handler is not called")
		}
		if does == 2 {
			vf.Assert(send("L", 1) == nil && late == 1, "a handler registered inside a handler is not called")
		}
		if does == 3 {
			vf.Assert(checked == 1, "a checker asked inside a handler is not asked once")
		}
		vf.Reach("done")
	})
}
