package eng

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// body is an event that its owner keeps changing after it was raised.
type bodyEvt struct {
	Typ, From string
	N         int
	List      []string
	In        *innerEvt
}

type innerEvt struct{ Tags map[string]int }

func (e *bodyEvt) GetType() ddd.EventType { return ddd.EventType(e.Typ) }
func (e *bodyEvt) GetSender() string      { return e.From }

type otherEvt struct{ M string }

func (e otherEvt) GetType() ddd.EventType { return "other" }
func (e otherEvt) GetSender() string      { return "os" }

type ownCtx interface {
	context.Context
	More()
}

type stub struct{ cb ddd.TimerHandler }

func (s *stub) RegisterTimerHandler(cb ddd.TimerHandler)           { s.cb = cb }
func (s *stub) RunCron(key, cron string, data []byte) error        { return nil }
func (s *stub) RunOnce(key string, t time.Time, data []byte) error { return nil }
func (s *stub) Cancel(key string) error                            { return nil }

func init() {
	ctx := context.Background()

	// an event carries to the bus, and from there to a handler, what it was when it was raised
	vf.Register("C09.raised", func() {
		w := newW()
		w.store()
		w.silent = true
		bus := &TxBus{Bus: Bus{w: w}}
		var b ddd.IEventBus = bus
		plain := vf.Bool("plain_bus")
		if plain {
			b = &bus.Bus
		}
		eng := w.engine(b)
		type want struct {
			typ, from string
			kind      ddd.SendType
			n         int
			list      int
			tag       int
			other     bool
			from0     time.Time
			to        time.Time
			got       bool
		}
		var exp []*want
		max := 2
		if vf.Thorough() {
			max = 3
		}
		res := eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			root := &Root{Name: "root", Kids: []*Kid{{Name: "kid"}}}
			root.Kids[0].SetID("kid-id")
			repo.Add(root)
			shared := &bodyEvt{In: &innerEvt{Tags: map[string]int{}}}
			for i := 0; i < max; i++ {
				how := vf.Choice("event", 4)
				if how == 0 {
					break
				}
				var e raiser = root
				if vf.Bool("at_kid") {
					e = root.Kids[0]
				}
				x := &want{from0: time.Now(), n: 10 + i, kind: ddd.SendTypeNormal}
				var opts []ddd.EventOpt
				if k := vf.Choice("kind", 4); k > 0 {
					x.kind = []ddd.SendType{"", ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeTransaction}[k]
					opts = append(opts, ddd.WithSendType(x.kind))
				}
				switch how {
				case 1: // one object raised again and again, changed in between
					shared.Typ, shared.From, shared.N = fmt.Sprint("t", i), fmt.Sprint("s", i), x.n
					shared.List = append(shared.List, "l")
					shared.In.Tags["k"] = i + 1
					x.typ, x.from, x.list, x.tag = shared.Typ, shared.From, len(shared.List), i+1
					e.AddEvent(shared, opts...)
				case 2:
					x.typ, x.from = "fresh", ""
					e.AddEvent(&bodyEvt{Typ: "fresh", N: x.n}, opts...)
				case 3:
					x.typ, x.from, x.other = "other", "os", true
					e.AddEvent(otherEvt{M: fmt.Sprint("m", i)}, opts...)
				}
				x.to = time.Now()
				exp = append(exp, x)
				if vf.Bool("later") {
					time.Sleep(time.Duration(1+vf.Choice("pause", 2)*2999) * time.Millisecond)
				}
			}
			shared.Typ, shared.From, shared.N, shared.List = "wrong", "wrong", -1, nil
			shared.In.Tags["k"] = -1
			return nil
		})
		vf.Assert(res.Error == nil, "the command fails: "+fmt.Sprint(res.Error))
		ids := map[string]bool{}
		n := 0
		for _, o := range w.ops {
			if o.Kind != "dispatch" && o.Kind != "txbegin" {
				continue
			}
			for _, d := range o.Events {
				n++
				vf.Assert(d.ID != "" && !ids[d.ID], "two events have the same id")
				ids[d.ID] = true
				var x *want
				var m bodyEvt
				if d.Type != "other" {
					vf.Assert(json.Unmarshal(d.Payload, &m) == nil, "the content of an event is not readable")
				}
				for _, y := range exp {
					if y.got || y.other != (d.Type == "other") {
						continue
					}
					if y.other {
						if string(d.Payload) == fmt.Sprintf(`{"M":"m%d"}`, y.n-10) {
							x = y
						}
					} else if m.N == y.n {
						x = y
					}
				}
				vf.Assert(x != nil, "an event is sent with a content that was not raised: "+string(d.Payload))
				x.got = true
				vf.Assert(string(d.Type) == x.typ && d.GetType() == d.Type, "an event is sent with another type")
				vf.Assert(d.Sender == x.from && d.GetSender() == d.Sender, "an event is sent with another sender")
				vf.Assert(d.SendType == x.kind, "an event is sent in another way than asked: "+string(d.SendType))
				vf.Assert((o.Kind == "txbegin") == (!plain && x.kind == ddd.SendTypeTransaction), "an event is sent by the wrong way")
				vf.Assert(!d.CreatedAt.Before(x.from0) && !d.CreatedAt.After(x.to), "the creation time of an event is not the time it was raised")
				if !x.other {
					vf.Assert(m.Typ == x.typ && m.From == x.from && len(m.List) == x.list, "an event is sent with another content: "+string(d.Payload))
					vf.Assert((m.In == nil) == (x.tag == 0) && (m.In == nil || m.In.Tags["k"] == x.tag), "an event is sent with another content: "+string(d.Payload))
				}
				// and from the bus to a handler
				calls := 0
				if x.other {
					ddd.RegisterEventHandler("other", func(ctx context.Context, e *otherEvt) error {
						calls++
						vf.Assert(e.M == fmt.Sprint("m", x.n-10), "a handler gets another content")
						return nil
					})
				} else {
					ddd.RegisterEventHandler(ddd.EventType(x.typ), func(ctx context.Context, e *bodyEvt) error {
						calls++
						vf.Assert(e.N == x.n && e.Typ == x.typ && e.From == x.from && len(e.List) == x.list, "a handler gets another content")
						return nil
					})
				}
				if n == 1 {
					vf.Assert(bus.cb(ctx, d) == nil && calls == 1, "an event that was sent is not handled")
				}
			}
		}
		vf.Assert(n == len(exp), fmt.Sprintf("%d of %d events are sent", n, len(exp)))
		if n > 1 {
			vf.Reach("several")
		}
	})

	// an engine that has no event bus does not take events for sent
	vf.Register("C09.nobus", func() {
		w := newW()
		w.store()
		tx := vf.Bool("transaction")
		dry := vf.Bool("dry_run")
		at := vf.Choice("raised", 4) // no, at a root, at a child, at a removed root
		eng := ddd.NewEngine(&Lk{w}, &Ex{w}, ddd.WithIDGenerator(&IDs{w}), ddd.TransactionOption(tx), ddd.DryRunOption(dry))
		kind := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeTransaction}[vf.Choice("kind", 3)]
		res := eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			r := &Root{Name: "r", Kids: []*Kid{{Name: "k"}}}
			var e raiser
			switch at {
			case 1:
				e = r
			case 2:
				e = r.Kids[0]
			case 3:
				e = r
			}
			if at > 0 {
				e.AddEvent(otherEvt{M: "m"}, ddd.WithSendType(kind))
			}
			if at == 3 {
				r.SetID("id-r")
				repo.Remove(r)
			} else {
				repo.Add(r)
			}
			return nil
		})
		if at > 0 && !dry {
			vf.Assert(errors.Is(res.Error, ddd.ErrNoEventBusFound), "without an event bus an event is taken for sent: "+fmt.Sprint(res.Error))
			vf.Assert(w.count("commit") == 0 && (!tx || w.count("rollback") == 1), "a command whose event was not sent is committed")
			vf.Reach("refused")
		} else {
			vf.Assert(res.Error == nil && !res.Break, "a command without an event needs an event bus")
			vf.Assert(!tx || w.count("commit") == 1, "a successful command is not committed")
			vf.Reach("saved")
		}
	})

	// what registration accepts can be called, and what can be called is accepted
	vf.Register("C16.signatures", func() {
		w := newW()
		bus := &TxBus{Bus: Bus{w: w}}
		eng := w.engine(bus)
		evt := &ddd.DomainEvent{ID: "e1", Type: "A", Payload: []byte(`{"Typ":"A","N":7}`)}
		calls := 0
		got := func(n int) {
			calls++
			vf.Assert(n == 7, "the event is not decoded")
		}
		type myErr = error
		switch vf.Choice("what", 3) {
		case 0:
			hs := []any{
				func(ctx context.Context, e *Evt) error { got(e.N); return nil },
				func(ctx context.Context, e *bodyEvt) error { got(e.N); return nil },
				func(ctx context.Context, e *struct{ N int }) error { got(e.N); return nil },
				func(ctx context.Context, e *map[string]any) error { got(int((*e)["N"].(float64))); return nil },
				ddd.DomainEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error { got(7); return nil }),
				func(ctx any, e *Evt) error { got(e.N); return nil },
				func(ctx ownCtx, e *Evt) error { got(e.N); return nil },
				func(ctx context.Context, e Evt) error { got(e.N); return nil },
				func(ctx context.Context) error { got(7); return nil },
				func(e *Evt) error { got(e.N); return nil },
				func(ctx context.Context, e *Evt) { got(e.N) },
				func(ctx context.Context, e *Evt) (int, error) { got(e.N); return 0, nil },
				func(ctx context.Context, e *Evt) bool { got(e.N); return true },
				func(ctx context.Context, e *Evt, more ...string) error { got(e.N); return nil },
				func(ctx context.Context, e ...*Evt) error { got(7); return nil },
				func(ctx context.Context, e *Evt) *heldErr { got(e.N); return nil },
				"no function",
				7,
			}
			i := vf.Choice("handler", len(hs))
			p := guarded(func() { ddd.RegisterEventHandler("A", hs[i]) })
			vf.Assert(i >= 5 || p == nil, fmt.Sprint("a handler is refused: ", i))
			if p == nil {
				var err error
				p := guarded(func() { err = bus.cb(ctx, evt) })
				vf.Assert(p == nil, fmt.Sprintf("handler %d was accepted and panics", i))
				vf.Assert(calls == 1 && err == nil, fmt.Sprintf("handler %d was accepted and is not called", i))
				vf.Reach("accepted")
			} else {
				vf.Assert(bus.cb(ctx, evt) == nil && calls == 0, "a refused handler is kept")
				vf.Reach("refused")
			}
		case 1:
			hs := []any{
				func(e *Evt) ddd.TXStatus { got(e.N); return ddd.TXCommit },
				ddd.DomainEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus { got(7); return ddd.TXCommit }),
				func(e *bodyEvt) ddd.TXStatus { got(e.N); return ddd.TXCommit },
				func(e *Evt) int { got(e.N); return 1 },
				func(e *Evt) uint8 { got(e.N); return 1 },
				func(e *Evt) float64 { got(e.N); return 1 },
				func(e *Evt) string { got(e.N); return "1" },
				func(e *Evt) *ddd.TXStatus { got(e.N); return nil },
				func(e *Evt) error { got(e.N); return nil },
				func(e *Evt) any { got(e.N); return ddd.TXCommit },
				func(e *Evt) (ddd.TXStatus, error) { got(e.N); return ddd.TXCommit, nil },
				func(e *Evt) { got(e.N) },
				func(e Evt) ddd.TXStatus { got(e.N); return ddd.TXCommit },
				func() ddd.TXStatus { got(7); return ddd.TXCommit },
				func(ctx context.Context, e *Evt) ddd.TXStatus { got(e.N); return ddd.TXCommit },
				func(e ...*Evt) ddd.TXStatus { got(7); return ddd.TXCommit },
				"no function",
			}
			i := vf.Choice("checker", len(hs))
			p := guarded(func() { ddd.RegisterEventTXChecker("A", hs[i]) })
			vf.Assert(i >= 3 || p == nil, fmt.Sprint("a checker is refused: ", i))
			var s ddd.TXStatus
			q := guarded(func() { s = bus.check(evt) })
			vf.Assert(q == nil, fmt.Sprintf("checker %d was accepted and panics", i))
			if p == nil {
				vf.Assert(calls == 1 && s == ddd.TXCommit, fmt.Sprintf("checker %d was accepted and is not asked", i))
				vf.Reach("accepted")
				// one checker for a type
				n := calls
				p := guarded(func() {
					ddd.RegisterEventTXChecker("A", func(e *Evt) ddd.TXStatus { return ddd.TXUnknown })
				})
				s = bus.check(evt)
				vf.Assert(p != nil && s == ddd.TXCommit && calls == n+1, "a second checker of a type takes the place of the first")
			} else {
				vf.Assert(calls == 0 && s == ddd.TXRollBack, "a refused checker is kept")
				vf.Reach("refused")
			}
		case 2:
			main := func(ctx context.Context, repo *ddd.Repository) error { return nil }
			hs := []any{
				func(e *Evt) ddd.MainFunc { got(e.N); return main },
				func(e *bodyEvt) func(ctx context.Context, repo *ddd.Repository) error { got(e.N); return main },
				func(e *ddd.DomainEvent) any { got(7); return ddd.MainFunc(main) },
				func(e *Evt) (ddd.MainFunc, error) { got(e.N); return main, nil },
				func(e Evt) ddd.MainFunc { got(e.N); return main },
				func() ddd.MainFunc { got(7); return main },
				func(ctx context.Context, e *Evt) ddd.MainFunc { got(e.N); return main },
				func(e *Evt) {},
				"no function",
			}
			i := vf.Choice("construct", len(hs))
			p := guarded(func() { eng.RegisterEventHandler("A", hs[i]) })
			vf.Assert(i >= 3 || p == nil, fmt.Sprint("a construct is refused: ", i))
			if p == nil {
				var err error
				p := guarded(func() { err = bus.cb(ctx, evt) })
				vf.Assert(p == nil, fmt.Sprintf("construct %d was accepted and panics", i))
				vf.Assert(calls == 1 && err == nil && w.count("commit") == 1, fmt.Sprintf("construct %d was accepted and is not run", i))
				vf.Reach("accepted")
			} else {
				vf.Assert(bus.cb(ctx, evt) == nil && calls == 0, "a refused construct is kept")
				vf.Reach("refused")
			}
		}
	})

	// what the timer calls with reaches the handlers registered for the key
	vf.Register("C26.handler", func() {
		w := newW()
		tm := &stub{}
		ddd.NewEngine(&Lk{w}, &Ex{w}, ddd.WithTimer(tm))
		vf.Assert(tm.cb != nil, "the engine does not register with its timer")
		var want []byte
		switch vf.Choice("data", 4) {
		case 1:
			want = []byte{}
		case 2:
			want = []byte(`{"a":1}`)
		case 3:
			want = []byte{0, 255, '"', '\n', 0x80}
		}
		key := []string{"k", "another key", "k\"<&>ä"}[vf.Choice("key", 3)]
		cron := []string{"", "0 * * * * *"}[vf.Choice("cron", 2)]
		n := vf.Choice("handlers", 3)
		calls, bad := 0, vf.Choice("failing", 3)
		errs := []error{nil, errors.New("h1"), errors.New("h2")}
		for i := 1; i <= n; i++ {
			i := i
			ddd.RegisterEventHandler(ddd.EventType(key), func(c context.Context, e *ddd.TimerEvent) error {
				calls++
				vf.Assert(c == ctx, "a handler gets another context")
				vf.Assert(e.Key == key && e.Cron == cron, "a handler gets another key or expression")
				vf.Assert(string(e.Payload) == string(want), "a handler gets other data")
				if bad == i {
					return errs[i]
				}
				return nil
			})
		}
		ddd.RegisterEventHandler("other", func(c context.Context, e *ddd.TimerEvent) error { calls += 100; return nil })
		err := tm.cb(ctx, key, cron, want)
		switch {
		case bad == 0 || bad > n:
			vf.Assert(err == nil && calls == n, "not every handler of a key is called")
			vf.Reach("handled")
		default:
			vf.Assert(err == errs[bad] && calls == bad, "the error of a handler is not given back")
			vf.Reach("failed")
		}
	})
}
