package eng

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

type raiser interface {
	ddd.IEntity
	AddEvent(ddd.IEvent, ...ddd.EventOpt)
}

// raised are the events of one path.
type raised struct {
	all  []*ddd.DomainEvent
	max  int
	kind func() ddd.SendType
	flip bool // ids fall while the events are raised
	far  bool // the first event is the latest
}

func (r *raised) maybe(name string, e raiser) {
	if len(r.all) >= r.max || !vf.Bool("event_"+name) {
		return
	}
	t := ddd.SendTypeNormal
	if r.kind != nil {
		t = r.kind()
	}
	n := len(r.all)
	id := n
	if r.flip {
		id = 9 - n
	}
	e.AddEvent(&Evt{Typ: "t", N: n, From: fmt.Sprint("s", 9-id)}, ddd.WithSendType(t))
	ev := e.GetEvents()[len(e.GetEvents())-1]
	ev.ID = fmt.Sprint("ev", id)
	sec := int64(1000)
	if r.far && n == 0 {
		sec++
	}
	ev.CreatedAt = time.Unix(sec, int64(vf.Int("ns_"+name, 0, 999_999_999)))
	r.all = append(r.all, ev)
}

func inOrder(evts []*ddd.DomainEvent) bool {
	ok := true
	for i := 1; i < len(evts); i++ {
		a, b := evts[i-1], evts[i]
		ok = vf.And(ok, vf.Or(a.CreatedAt.Before(b.CreatedAt), vf.And(a.CreatedAt.Equal(b.CreatedAt), a.ID < b.ID)))
	}
	return ok
}

func times(evts []*ddd.DomainEvent, e *ddd.DomainEvent) int {
	n := 0
	for _, x := range evts {
		if x == e {
			n++
		}
	}
	return n
}

func init() {
	ctx := context.Background()

	c09 := func(name string, max func() int, withFail, simple bool) {
		vf.Register(name, func() {
			w := newW()
			w.store()
			w.silent = true
			w.kinds["hook"] = true
			r := &raised{max: max(), flip: vf.Bool("flip")}
			if !withFail && !simple {
				r.far = vf.Bool("far")
			}
			if withFail {
				w.failAt = vf.Int("failAt", 0, 18)
				w.errs = true
			}
			keep := simple || vf.Bool("persist")
			persistErr := keep && withFail && vf.Bool("persist_err")
			txbus := !withFail && !simple && vf.Bool("txbus")
			bus := w.bus(txbus)
			if txbus {
				r.kind = func() ddd.SendType {
					if vf.Bool("transactional") {
						return ddd.SendTypeTransaction
					}
					return ddd.SendTypeNormal
				}
			}
			var opts []ddd.Option
			if keep {
				opts = append(opts, ddd.WithEventPersist(func(e *ddd.DomainEvent) (ddd.IModel, error) {
					if persistErr {
						return nil, errInjected
					}
					return persist(e)
				}))
			}
			if !simple && vf.Bool("recursive") {
				opts = append(opts, ddd.WithRecursiveDelete)
			}
			noTx := withFail && vf.Bool("notx")
			if noTx {
				opts = append(opts, ddd.WithoutTransaction)
			}
			eng := w.engine(bus, opts...)
			end := 0
			if withFail {
				end = vf.Choice("end", 3)
			}
			drop := 0
			if !simple {
				drop = vf.Choice("drop", 3)
			} // the kid b goes: not, before the save, after it
			res := eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
				root := &Root{}
				root.SetID("id-r")
				if err := repo.Get(ctx, root, &root.Kids); err != nil {
					return err
				}
				a, b := root.Kids[0], root.Kids[1]
				sub := &Sub{Name: "sub"}
				b.Subs = append(b.Subs, sub)
				n := &Root{Name: "n", Kids: []*Kid{{Name: "nk"}}}
				repo.Add(n)
				r.maybe("b", b)
				if drop == 1 {
					root.Kids = root.Kids[:1]
				}
				if !simple && vf.Bool("save") {
					if err := repo.Save(ctx); err != nil {
						return err
					}
				}
				if drop == 2 {
					root.Kids = root.Kids[:1]
				}
				r.maybe("a", a)
				if drop == 0 {
					r.maybe("sub", sub)
				}
				r.maybe("nk", n.Kids[0])
				gone := &Root{Name: "gone", Kids: []*Kid{{Name: "gk"}}}
				gone.SetID("id-gone")
				gone.Kids[0].SetID("id-gk")
				r.maybe("gone", gone)
				if !simple {
					r.maybe("gk", gone.Kids[0])
				}
				repo.Remove(gone)
				r.maybe("root", root)
				if !simple {
					r.maybe("n", n)
				}
				switch end {
				case 1:
					return errBody
				case 2:
					return ddd.ErrBreak
				}
				return nil
			}, []ddd.Option{}...)
			tr := w.trace()
			var sent, begun, kept []*ddd.DomainEvent
			nPersist, persistAt, dispatchAt := 0, -1, -1
			lateFail := false
			for i, o := range w.ops {
				switch o.Kind {
				case "dispatch":
					sent = append(sent, o.Events...)
					dispatchAt = i
					lateFail = lateFail || !o.OK
				case "txbegin":
					begun = append(begun, o.Events...)
					dispatchAt = i
				case "exec":
					if _, ok := o.Action.Models[0].(*EventPO); ok {
						nPersist++
						persistAt = i
						vf.Assert((o.InTx || noTx) && o.Action.Op == ddd.OpInsert, "events are persisted outside the transaction: "+tr)
						for _, m := range o.Action.Models {
							kept = append(kept, m.(*EventPO).Evt)
						}
					} else {
						vf.Assert(dispatchAt < 0 && persistAt < 0, "entities are written after events: "+tr)
					}
				}
			}
			earlyFail := end > 0 || persistErr && len(r.all) > 0
			for _, f := range w.failed {
				if f != "commit" && f != "dispatch" && f != "rollback" && f != "txcommit" {
					earlyFail = true
				}
			}
			vf.Assert(inOrder(sent), "events are sent out of order")
			vf.Assert(inOrder(begun), "events are announced out of order")
			if earlyFail {
				vf.Assert(len(sent)+len(begun) == 0, "a failed command sends events: "+tr)
				vf.Assert(res.Error != nil || res.Break, "a failure is not reported: "+tr)
				vf.Reach("failed")
				return
			}
			for _, e := range r.all {
				vf.Assert(times(sent, e)+times(begun, e) == 1, fmt.Sprintf("event %s is sent %d times: %s", e.Payload, times(sent, e)+times(begun, e), tr))
			}
			vf.Assert(len(sent)+len(begun) == len(r.all), "events are sent that nobody raised: "+tr)
			if keep && len(r.all) > 0 {
				vf.Assert(nPersist == 1 && len(kept) == len(r.all), "the events are not persisted in one insert: "+tr)
				vf.Assert(persistAt < dispatchAt, "events are sent before they are persisted: "+tr)
				vf.Assert(inOrder(kept), "events are persisted out of order")
				for _, e := range r.all {
					vf.Assert(times(kept, e) == 1, "an event is not persisted")
				}
				vf.Reach("persisted")
			} else {
				vf.Assert(nPersist == 0, "events are persisted unasked")
			}
			if lateFail {
				vf.Assert(res.Error != nil, "a failed dispatch is not reported: "+tr)
				vf.Assert(w.count("commit") == 0, "a failed dispatch is committed: "+tr)
				vf.Reach("dispatch failed")
			} else if len(w.failed) == 0 {
				vf.Assert(res.Error == nil && !res.Break, "the command fails without reason: "+tr)
				if len(r.all) > 1 {
					vf.Reach("sent")
				}
			}
		})
	}
	c09("C09.order", func() int {
		if vf.Thorough() {
			return 3
		}
		return 2
	}, false, false)
	c09("C09.many", func() int {
		if vf.Thorough() {
			return 5
		}
		return 4
	}, false, true)
	c09("C09.failures", func() int {
		if vf.Thorough() {
			return 2
		}
		return 1
	}, true, false)

	// Events of entities that nothing is written for, beside little or much
	// that is written.
	vf.Register("C09.still", func() {
		w := newW()
		w.store()
		w.silent = true
		r := &raised{max: 2, flip: vf.Bool("flip")}
		if vf.Thorough() {
			r.max = 4
		}
		keep := vf.Bool("persist")
		var opts []ddd.Option
		if keep {
			opts = append(opts, ddd.WithEventPersist(persist))
		}
		call, give := context.WithCancel(ctx)
		defer give()
		gives := false
		switch vf.Choice("kind", 3) {
		case 1:
			opts = append(opts, ddd.WithRecursiveDelete)
		case 2: // the caller gives up in the meantime; nothing fails of it
			gives = true
		}
		much, save := vf.Bool("much"), vf.Choice("save", 3)
		eng := w.engine(w.bus(vf.Bool("txbus")), opts...)
		res := eng.Run(call, func(ctx context.Context, repo *ddd.Repository) error {
			calm := &Root{Name: "calm", Kids: []*Kid{{Name: "k", Subs: []*Sub{{Name: "s"}}}}, Gh: []*Ghost{{Name: "g0"}, {Name: "g1"}}}
			lone := &Ghost{Name: "lone"}
			for i, e := range []ddd.IEntity{calm, calm.Kids[0], calm.Kids[0].Subs[0], calm.Gh[0], calm.Gh[1], lone} {
				e.SetID(fmt.Sprint("id-", i))
			}
			if err := repo.CustomGet(ctx, func(ctx context.Context, root ...ddd.IEntity) {}, calm, lone); err != nil {
				return err
			}
			if much {
				old := &Root{Name: "old", Kids: []*Kid{{Name: "ok"}}, Any: []ddd.IEntity{&Own{Name: "oo"}}}
				for i, e := range []ddd.IEntity{old, old.Kids[0], old.Any[0]} {
					e.SetID(fmt.Sprint("old-", i))
				}
				if err := repo.CustomGet(ctx, func(ctx context.Context, root ...ddd.IEntity) {}, old); err != nil {
					return err
				}
				old.Val = 5
				old.Dirty()
				old.Kids, old.Any = nil, nil
				repo.Add(&Root{Name: "n", Kids: []*Kid{{Name: "nk", Subs: []*Sub{{Name: "ns"}}}}, Any: []ddd.IEntity{&Own{Name: "no"}}})
			}
			g, h := calm.Gh[0], calm.Gh[1]
			add := &Ghost{Name: "add"}
			if vf.Bool("ghosts") {
				calm.Gh = []*Ghost{h, add}
				repo.Remove(lone)
				h.Dirty()
			} else {
				add = nil
			}
			if save == 1 {
				if err := repo.Save(ctx); err != nil {
					return err
				}
			}
			r.maybe("root", calm)
			r.maybe("sub", calm.Kids[0].Subs[0])
			r.maybe("g", g)
			r.maybe("h", h)
			r.maybe("lone", lone)
			if add != nil {
				r.maybe("add", add)
			}
			if gives {
				give()
			}
			if save == 2 {
				return repo.Save(ctx)
			}
			return nil
		})
		tr := w.trace()
		var sent, kept []*ddd.DomainEvent
		last := ""
		for _, o := range w.ops {
			switch o.Kind {
			case "dispatch", "txbegin":
				sent = append(sent, o.Events...)
				last = o.Kind
			case "exec":
				vf.Assert(last == "", "something is written after the events are sent: "+tr)
				for _, m := range o.Action.Models {
					if p, ok := m.(*EventPO); ok {
						kept = append(kept, p.Evt)
					}
				}
			}
		}
		vf.Assert(res.Error == nil && !res.Break, "the command fails without reason: "+tr)
		vf.Assert(len(sent) == len(r.all), fmt.Sprintf("%d of %d events are sent: %s", len(sent), len(r.all), tr))
		vf.Assert(inOrder(sent), "events are sent out of order")
		if keep {
			vf.Assert(len(kept) == len(r.all), fmt.Sprintf("%d of %d events are persisted: %s", len(kept), len(r.all), tr))
			vf.Assert(inOrder(kept), "events are persisted out of order")
		} else {
			vf.Assert(len(kept) == 0, "events are persisted unasked")
		}
		for _, e := range r.all {
			vf.Assert(times(sent, e) == 1 && (!keep || times(kept, e) == 1), "an event is not sent once: "+tr)
		}
		if len(r.all) > 1 && !much {
			vf.Reach("still")
		}
		if len(r.all) > 1 && much {
			vf.Reach("much")
		}
	})

	vf.Register("C10.outcome", func() {
		w := newW()
		w.store()
		w.silent = true
		txbus := vf.Bool("txbus")
		noTx := vf.Bool("notx")
		n := 3
		var opts []ddd.Option
		if noTx {
			opts = append(opts, ddd.WithoutTransaction)
		}
		if vf.Thorough() {
			n = 4
			if vf.Bool("persist") {
				opts = append(opts, ddd.WithEventPersist(persist))
			}
		}
		w.failAt = vf.Int("failAt", 0, 12)
		w.errs = true
		w.failAt2 = vf.Int("failAt2", 0, 12)
		end := vf.Choice("end", 3)
		var all []*ddd.DomainEvent
		eng := w.engine(w.bus(txbus), opts...)
		typ := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeFIFO}
		res := eng.Run(w.caller(ctx), func(ctx context.Context, repo *ddd.Repository) error {
			x := &Root{Name: "x"}
			x.SetID("id-x")
			repo.Add(x)
			m := vf.Choice("events", n+1)
			for i := 0; i < m; i++ {
				x.AddEvent(&Evt{Typ: "t", N: i}, ddd.WithSendType(typ[vf.Choice("type", len(typ))]))
			}
			all = x.GetEvents()
			switch end {
			case 1:
				return errBody
			case 2:
				return ddd.ErrBreak
			}
			return nil
		})
		tr := w.trace()
		var sent, begun []*ddd.DomainEvent
		beginOK, commits, rollbacks := false, 0, 0
		stored, storedOK := -1, false
		rolled := -1
		for i, o := range w.ops {
			switch o.Kind {
			case "dispatch":
				sent = append(sent, o.Events...)
				vf.Assert(stored < 0 && rolled < 0 || noTx, "events are sent after the transaction has ended: "+tr)
			case "txbegin":
				vf.Assert(stored < 0 && rolled < 0, "events are announced after the transaction has ended: "+tr)
				begun = append(begun, o.Events...)
				beginOK = o.OK
			case "commit":
				stored, storedOK = i, o.OK
			case "rollback":
				rolled = i
			case "txcommit":
				commits++
				vf.Assert(stored >= 0 && storedOK, "events are committed without the storage transaction: "+tr)
				vf.Assert(o.Key == "own", "commit does not get the context that begin gave: "+tr)
			case "txrollback":
				rollbacks++
				vf.Assert(stored < 0, "events are rolled back although the storage commit was tried: "+tr)
				if beginOK {
					vf.Assert(o.Key == "own", "rollback does not get the context that begin gave: "+tr)
				}
			}
		}
		vf.Assert(commits <= 1 && rollbacks <= 1 && commits+rollbacks <= 1, "the event transaction is ended twice: "+tr)
		for _, e := range all {
			tx := e.SendType == ddd.SendTypeTransaction && txbus && !noTx
			ns, nb := times(sent, e), times(begun, e)
			vf.Assert(ns+nb <= 1, "an event is sent twice: "+tr)
			if tx {
				vf.Assert(ns == 0, "a transactional event is sent the normal way: "+tr)
			} else {
				vf.Assert(nb == 0, "a normal event is announced as transactional: "+tr)
			}
			if res.Error == nil && !res.Break {
				vf.Assert(ns+nb == 1, "an event of a successful command is not sent: "+tr)
			}
		}
		if beginOK {
			switch {
			case stored >= 0 && storedOK:
				vf.Assert(commits == 1, "announced events are not committed: "+tr)
				vf.Reach("committed")
			case stored >= 0:
				vf.Assert(commits+rollbacks == 0, "the storage commit failed, the events must be left to the check-back: "+tr)
				vf.Reach("left to check-back")
			default:
				vf.Assert(rollbacks == 1, "announced events of a failed command are not rolled back: "+tr)
				vf.Reach("rolled back")
			}
		} else {
			vf.Assert(commits == 0, "events are committed that were not announced: "+tr)
		}
		if len(sent) > 0 && len(begun) > 0 {
			vf.Reach("mixed")
		}
	})

	// C16
	type myStatus int
	vf.Register("C16.handlers", func() {
		w := newW()
		bus := &TxBus{Bus: Bus{w: w}}
		if vf.Bool("by_engine") {
			w.engine(bus)
		} else {
			ddd.RegisterEventBus(bus)
		}
		n := 2
		if vf.Thorough() {
			n = 3
		}
		n = vf.Choice("handlers", n+1)
		var calls []string
		type reg struct {
			typ  string
			raw  bool
			fail bool
		}
		var regs []reg
		payload := [...]string{`{"Typ":"A","N":7}`, `{"Typ":"A","N":"x"}`, `nonsense`, ``, `[7]`}[vf.Choice("payload", 5)]
		good := json.Valid([]byte(payload)) && payload == `{"Typ":"A","N":7}`
		evt := &ddd.DomainEvent{ID: "e1", Type: ddd.EventType([]string{"A", "B", "C"}[vf.Choice("type", 3)]), Payload: []byte(payload)}
		errs := []error{errors.New("h0"), errors.New("h1"), errors.New("h2")}
		for i := 0; i < n; i++ {
			g := reg{typ: []string{"A", "B"}[vf.Choice("htype", 2)], raw: vf.Bool("raw"), fail: vf.Bool("fails")}
			regs = append(regs, g)
			if g.raw {
				ddd.RegisterEventHandler(ddd.EventType(g.typ), func(ctx context.Context, e *ddd.DomainEvent) error {
					vf.Assert(e == evt, "a raw handler gets another event")
					calls = append(calls, fmt.Sprint(i))
					if g.fail {
						return errs[i]
					}
					return nil
				})
			} else {
				ddd.RegisterEventHandler(ddd.EventType(g.typ), func(c context.Context, e *Evt) error {
					vf.Assert(e.N == 7 && e.Typ == "A", "the event is not decoded")
					vf.Assert(c == ctx, "a handler gets another context")
					e.N, e.Typ = 99, "changed" // its own copy
					calls = append(calls, fmt.Sprint(i))
					if g.fail {
						return errs[i]
					}
					return nil
				})
			}
		}
		err := bus.cb(ctx, evt)
		var exp []string
		var experr error
		bad := false
		for i, g := range regs {
			if ddd.EventType(g.typ) != evt.Type {
				continue
			}
			if !g.raw && !good {
				bad = true
				break
			}
			exp = append(exp, fmt.Sprint(i))
			if g.fail {
				experr = errs[i]
				break
			}
		}
		vf.Assert(fmt.Sprint(calls) == fmt.Sprint(exp), fmt.Sprint("handlers called: ", calls, " instead of ", exp))
		if bad {
			vf.Assert(err != nil, "an undecodable event is not reported")
			vf.Reach("undecodable")
		} else {
			vf.Assert(err == experr, "the error of the handler is not given back")
			if experr != nil {
				vf.Reach("handler error")
			} else if len(exp) > 1 {
				vf.Reach("all handlers")
			}
		}
	})
	vf.Register("C16.checkers", func() {
		w := newW()
		bus := &TxBus{Bus: Bus{w: w}}
		if vf.Bool("by_engine") {
			w.engine(bus)
		} else {
			ddd.RegisterEventBus(bus)
		}
		payload := [...]string{`{"Typ":"A","N":7}`, `nonsense`, ``, `{"Typ":"A","N":7`, `[7]`}[vf.Choice("payload", 5)]
		evt := &ddd.DomainEvent{ID: "e1", Type: "A", Payload: []byte(payload)}
		answer := vf.Int("answer", 0, 3)
		kind := vf.Choice("checker", 6)
		raw := false
		switch kind {
		case 0:
		case 1:
			ddd.RegisterEventTXChecker("A", func(e *Evt) ddd.TXStatus {
				vf.Assert(e.N == 7, "the event is not decoded")
				return ddd.TXStatus(answer)
			})
		case 2:
			raw = true
			ddd.RegisterEventTXChecker("A", func(e *ddd.DomainEvent) ddd.TXStatus {
				vf.Assert(e == evt, "a raw checker gets another event")
				return ddd.TXStatus(answer)
			})
		case 3:
			ddd.RegisterEventTXChecker("A", func(e *Evt) int { return answer })
		case 4:
			ddd.RegisterEventTXChecker("A", func(e *Evt) myStatus { return myStatus(answer) })
		case 5:
			ddd.RegisterEventTXChecker("B", func(e *Evt) ddd.TXStatus { return ddd.TXCommit })
		}
		got := bus.check(evt)
		switch {
		case kind == 0 || kind == 5:
			vf.Assert(got == ddd.TXRollBack, "without a checker the answer is not rollback")
		case !raw && payload != `{"Typ":"A","N":7}`:
			vf.Assert(got == ddd.TXRollBack, "for an undecodable event the answer is not rollback")
		default:
			vf.Assert(int(got) == answer, "the answer of the checker is changed")
			vf.Reach("answered")
		}
	})
	vf.Register("C16.commands", func() {
		w := newW()
		w.store()
		w.silent = true
		bus := &TxBus{Bus: Bus{w: w}}
		eng := w.engine(bus)
		fail := vf.Choice("end", 3)
		ran := 0
		payload := [...]string{`{"Typ":"A","N":7}`, `nonsense`, ``, `{"Typ":"A","N":7`, `[7]`}[vf.Choice("payload", 5)]
		evt := &ddd.DomainEvent{ID: "e1", Type: "A", Payload: []byte(payload)}
		body := func(ctx context.Context, repo *ddd.Repository) error {
			ran++
			repo.Add(&Root{Name: "made"})
			switch fail {
			case 1:
				return business()
			case 2:
				return ddd.ErrBreak
			}
			return nil
		}
		built := 0
		raw := false
		switch vf.Choice("form", 5) {
		case 0:
			eng.RegisterEventHandler("A", func(e *Evt) ddd.ICommandMain {
				built++
				vf.Assert(e.N == 7, "the event is not decoded")
				return &initCmd{w: w, f: body}
			})
		case 1:
			eng.RegisterEventHandler("A", func(e *Evt) ddd.MainFunc { built++; return body })
		case 2:
			eng.RegisterEventHandler("A", func(e *Evt) ddd.ICommand {
				built++
				return &committer{f: func(ctx context.Context, con ddd.RootContainer) error {
					ran++
					con.Add(&Root{Name: "made"})
					switch fail {
					case 1:
						return business()
					case 2:
						return ddd.ErrBreak
					}
					return nil
				}}
			})
		case 3:
			raw = true
			eng.RegisterEventHandler("A", func(e *ddd.DomainEvent) *initCmd {
				built++
				vf.Assert(e == evt, "a raw construct gets another event")
				return &initCmd{w: w, f: body}
			})
		case 4:
			eng.RegisterEventHandler("B", func(e *Evt) ddd.MainFunc { built++; return body })
			err := bus.cb(ctx, evt)
			vf.Assert(err == nil && built == 0 && ran == 0, "an event without handler must succeed and run nothing")
			return
		}
		err := bus.cb(ctx, evt)
		if !raw && payload != `{"Typ":"A","N":7}` {
			vf.Assert(err != nil && built == 0 && ran == 0, "an undecodable event builds a command")
			vf.Reach("undecodable")
			return
		}
		vf.Assert(built == 1 && ran == 1, "the command is not run once")
		switch fail {
		case 1:
			vf.Assert(errors.Is(err, errBody), "the error of the command is not given back")
			vf.Assert(w.count("commit") == 0, "a failed command is committed")
			vf.Reach("command error")
		case 2:
			vf.Assert(err == nil && w.count("commit") == 0, "a break is reported as an error")
		default:
			vf.Assert(err == nil && w.count("commit") == 1 && w.writes() == 1, "the command is not carried out")
			vf.Reach("carried out")
		}
	})
}
