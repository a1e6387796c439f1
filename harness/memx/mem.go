// Package memx checks the memory event bus.
package memx

import (
	"context"
	"errors"
	"fmt"
	"sync"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"

	"verifharness/vf"
)

var errHandler = errors.New("handler failed")

type world struct {
	mu       sync.Mutex
	bus      *mem.MemoryEventBus
	cap      int
	sent     []string // in the order in which the dispatches were accepted, as far as it is known
	got      []string
	inside   int
	gate     chan int // the handler waits here, if not nil; the value is its outcome
	outcomes int
	bad      int // how the handler fails on this path: with an error (1), by a panic (2)
	badCtx   bool
	ctx      context.Context
	errs     []string
}

type ctxKey struct{}

func (w *world) handle(ctx context.Context, e *ddd.DomainEvent) error {
	w.mu.Lock()
	w.inside++
	if w.inside > 1 {
		w.errs = append(w.errs, "two events are handled at the same time")
	}
	if ctx.Value(ctxKey{}) != "run" {
		w.badCtx = true
	}
	w.got = append(w.got, e.ID)
	w.mu.Unlock()
	o := 0
	if w.gate != nil {
		o = <-w.gate
	} else if w.outcomes > 1 {
		o = vf.Choice("outcome", w.outcomes)
	}
	w.mu.Lock()
	w.inside--
	w.mu.Unlock()
	if o == 0 {
		return nil
	}
	if w.bad == 0 {
		w.bad = 1 + vf.Choice("raises", 2)
	}
	if w.bad == 2 {
		panic(errHandler)
	}
	return errHandler
}

func newWorld(cap int) *world {
	w := &world{bus: mem.NewEventBus(cap), cap: cap}
	w.bus.RegisterEventHandler(w.handle)
	return w
}

func ev(id string) *ddd.DomainEvent { return &ddd.DomainEvent{ID: id, Payload: []byte(id)} }

func init() {
	// any sequence of dispatching (by several callers, one or more events at a time), starting, handler progress
	// and the end of the bus
	vf.Register("C27.life", func() {
		steps, callers := 6, 2
		if vf.Thorough() {
			steps, callers = 6, 3
		}
		base := vf.Goroutines()
		w := newWorld(vf.Choice("capacity", 3))
		w.gate = make(chan int)
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "run"))
		defer cancel()
		sent := make([][]string, callers) // what each caller has handed over or is about to
		waiting := make([]bool, callers)
		accepted := map[string]bool{}
		started, stopped, n := false, false, 0
		for s := 0; s < steps; s++ {
			switch vf.Choice("step", 4) {
			case 0: // dispatch
				c := vf.Choice("caller", callers)
				if waiting[c] || n > steps {
					vf.End()
				}
				k := 1 + vf.Choice("events", 2)
				if n+k > 3+boolInt(vf.Thorough()) {
					vf.End()
				}
				var evs []*ddd.DomainEvent
				for i := 0; i < k; i++ {
					id := fmt.Sprintf("e%d", n)
					n++
					sent[c] = append(sent[c], id)
					evs = append(evs, ev(id))
				}
				waiting[c] = true
				go func() {
					err := w.bus.Dispatch(context.Background(), evs...)
					w.mu.Lock()
					defer w.mu.Unlock()
					if err != nil {
						w.errs = append(w.errs, "dispatch fails: "+err.Error())
					}
					waiting[c] = false
					for _, e := range evs {
						accepted[e.ID] = true
					}
				}()
			case 1: // start, maybe again
				w.bus.Start(ctx)
				if stopped && !started {
					vf.End()
				}
				started = true
			case 2: // the handler goes on
				if w.inside == 0 {
					vf.End()
				}
				w.gate <- vf.Choice("outcome", 2)
			case 3:
				if stopped || !started {
					vf.End()
				}
				cancel()
				stopped = true
			}
			vf.Settle()
			w.check(sent, accepted, started, stopped)
		}
		if !stopped && started {
			// everything is handed over at last
			for i := 0; w.inside > 0 && i < 10; i++ {
				w.gate <- vf.Choice("outcome", 2)
				vf.Settle()
				w.check(sent, accepted, started, stopped)
			}
			for c := range sent {
				vf.Assert(!waiting[c], "a dispatch waits although the bus has nothing to do: "+w.String())
			}
			vf.Assert(len(w.got) == n, fmt.Sprintf("%d of %d events are handled: %s", len(w.got), n, w))
			vf.Reach("all handled")
			cancel()
			stopped = true
		}
		if stopped {
			vf.Busy(100000)
			vf.Settle()
			for i := 0; w.inside > 0 && i < 10; i++ {
				w.gate <- 0
				vf.Settle()
			}
			w.check(sent, accepted, started, stopped)
			left := len(w.got)
			blocked := 0
			for c := range waiting {
				if waiting[c] {
					blocked++
				}
			}
			vf.Assert(vf.Goroutines() == base+blocked, "the bus goes on after its context is cancelled: "+w.String())
			// nothing is consumed any more
			if blocked == 0 && len(accepted)-left < w.cap {
				_ = w.bus.Dispatch(context.Background(), ev("late"))
				vf.Settle()
				vf.Assert(len(w.got) == left, "the bus handles events after its context is cancelled: "+w.String())
				vf.Reach("late")
			}
			vf.Reach("stopped")
		}
		if !started {
			vf.Assert(len(w.got) == 0, "events are handled before the start")
		}
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *world) String() string { return fmt.Sprintf("capacity %d, handled %v", w.cap, w.got) }

func (w *world) check(sent [][]string, accepted map[string]bool, started, stopped bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.errs {
		vf.Fail(e + ": " + w.String())
	}
	vf.Assert(!w.badCtx, "the handler is not given the context of the bus")
	pos := map[string]int{}
	for i, id := range w.got {
		_, twice := pos[id]
		vf.Assert(!twice, "event "+id+" is handled twice: "+w.String())
		pos[id] = i
	}
	// the events of one caller in its order, without gaps
	for _, ids := range sent {
		last, gap := -1, ""
		for _, id := range ids {
			p, ok := pos[id]
			if !ok {
				gap = id
				continue
			}
			vf.Assert(gap == "", "event "+id+" is handled before "+gap+": "+w.String())
			vf.Assert(p > last, "events are handled out of order: "+w.String())
			last = p
		}
	}
	// what the bus holds, and the one being handled, do not exceed its capacity
	n := 0
	for id := range accepted {
		if _, ok := pos[id]; !ok {
			n++
		}
	}
	vf.Assert(n <= w.cap, fmt.Sprintf("%d accepted events are neither handled nor held: %s", n, w))
	if started && !stopped {
		vf.Assert(w.inside == 1 || n == 0, "events wait although the handler is free: "+w.String())
	}
}

func init() {
	// many events, many callers, any capacity
	vf.Register("C27.sizes", func() {
		sizes := []int{1, 12, 33, 130, 300}
		n := sizes[vf.Choice("how_many", len(sizes))]
		callers := []int{1, 2, 40}[vf.Choice("callers", 3)]
		w := newWorld([]int{0, 1, 16, 100, 1000}[vf.Choice("capacity", 5)])
		together := vf.Bool("together")
		fails := vf.Choice("fails", 5) // never, always, every other; by a panic: always, every other
		var got []string
		w.bus.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error {
			got = append(got, e.ID)
			if fails == 1 || fails == 2 && len(got)%2 == 0 {
				return errors.New("handler failed")
			}
			if fails == 3 || fails == 4 && len(got)%2 == 0 {
				panic("handler failed")
			}
			return nil
		})
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		late := vf.Bool("start_late")
		if !late {
			w.bus.Start(ctx)
		}
		done := 0
		for c := 0; c < callers; c++ {
			go func() {
				var evs []*ddd.DomainEvent
				for i := c; i < n; i += callers {
					evs = append(evs, ev(fmt.Sprintf("e%06d", i)))
				}
				if together {
					if err := w.bus.Dispatch(context.Background(), evs...); err != nil {
						vf.Fail("dispatch fails: " + err.Error())
					}
				} else {
					for _, e := range evs {
						if err := w.bus.Dispatch(context.Background(), e); err != nil {
							vf.Fail("dispatch fails: " + err.Error())
						}
					}
				}
				done++
			}()
		}
		vf.Settle()
		if late {
			w.bus.Start(ctx)
			vf.Settle()
		}
		vf.Assert(done == callers, "a dispatch waits although the bus has nothing to do")
		vf.Assert(len(got) == n, fmt.Sprintf("%d of %d events are handled", len(got), n))
		seen := map[string]bool{}
		last := map[int]string{}
		for _, id := range got {
			vf.Assert(!seen[id], "an event is handled twice")
			seen[id] = true
			var i int
			fmt.Sscanf(id, "e%d", &i)
			vf.Assert(id > last[i%callers], "the events of one caller are handled out of order")
			last[i%callers] = id
		}
		vf.Reach("all handled")
	})
}
