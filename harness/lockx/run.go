package lockx

import (
	"context"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/symdb"
	"verifharness/vf"
)

func init() {
	// the life of a guarded run: its length, its end, a failing renewal, a cancelled caller
	vf.Register("C25.life", func() {
		w := newWorld()
		renew := []time.Duration{time.Second, 1500 * time.Millisecond}[vf.Choice("interval", 2)]
		ttl := renew + time.Duration(vf.Choice("slack", 2))*time.Second
		a := w.lock("a", ttl, renew, false)
		b := w.lock("b", ttl, renew, false)
		mon := w.watch("k", ttl)
		// warm up the connections
		if l, err := a.Lock(ctx, "k"); err != nil || a.UnLock(ctx, l) != nil {
			vf.Fail("a free lock is refused")
		}
		_, _ = b.Lock(ctx, "warm")
		base := vf.Goroutines()

		steps := 4
		if vf.Thorough() {
			steps = 6
		}
		length := vf.Choice("length", steps+1) // in half intervals, and a bit
		dur := time.Duration(length)*renew/2 + 100*time.Millisecond
		end := vf.Choice("end", 3)         // return, panic, runtime panic
		obeys := vf.Bool("obeys")          // ends when its context is cancelled
		failing := vf.Choice("failing", 3) // this renewal fails, 0 none
		stolen := failing > 0 && vf.Bool("stolen")
		caller, cancel := context.WithCancel(ctx)
		defer cancel()
		cancelAt := vf.Choice("cancelled_at", 3) // half intervals and a quarter, 0 never
		start := time.Now()
		n := 0
		hit := false
		w.st.Before = func(o *symdb.Op) error {
			if o.Inst == "a" && o.Kind == "update" {
				n++
				if n == failing {
					hit = true
					if stolen {
						// the row is taken by somebody else: the update finds nothing
						w.tab.Set("resource", "k", "locker_id", "thief")
						mon.last = w.row("k")
						mon.owner["thief"] = "thief"
						return nil
					}
					return symdb.ErrInjected
				}
			}
			return nil
		}
		if cancelAt > 0 {
			time.AfterFunc(time.Duration(cancelAt)*renew/2+renew/8, cancel)
		}
		ran := 0
		var failedAt time.Duration
		cause := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					cause = fmt.Sprint(r)
				}
			}()
			err := a.Run(caller, "k", func(c context.Context) {
				ran++
				vf.Assert(mon.owner[show(w.row("k"))] == "a", "the function runs without the lock")
				_, err := b.Lock(ctx, "k")
				vf.Assert(err == ddd.ErrEntityLocked, "another caller gets the lock during the run")
				// look every quarter of an interval
				for t := time.Duration(0); t < dur; t += renew / 4 {
					time.Sleep(renew / 4)
					vf.Settle()
					at := time.Now().Sub(start)
					ended := c.Err() != nil
					if hit && failedAt == 0 {
						failedAt = at
					}
					vf.Assert(ended == (hit || caller.Err() != nil), fmt.Sprintf("after %v: renewal failed %v, caller cancelled %v, context cancelled %v", at, hit, caller.Err() != nil, ended))
					if !hit && caller.Err() == nil {
						last := w.row("k")["updated_at"].(time.Time)
						vf.Assert(time.Now().Sub(last) < renew, fmt.Sprintf("after %v the lease is %v old", at, time.Now().Sub(last)))
					}
					if ended && obeys {
						return
					}
				}
				switch end {
				case 1:
					panic("business")
				case 2:
					var m map[string]int
					m["x"] = 1
				}
			})
			vf.Assert(err == nil, fmt.Sprintf("the run returns %v", err))
		}()
		vf.Assert(ran == 1, fmt.Sprintf("the function runs %d times", ran))
		switch {
		case end == 1 && !obeys:
			vf.Assert(cause == "business", "the panic is lost: "+cause)
			vf.Reach("panic")
		case end == 2 && !obeys:
			vf.Assert(strings.Contains(cause, "nil map"), "the panic is lost: "+cause)
		case end == 0:
			vf.Assert(cause == "", "a panic out of nothing: "+cause)
		}
		vf.Assert(mon.bad == "", mon.bad)
		if stolen && hit {
			vf.Assert(show(w.row("k")) == "thief", "the lock of another caller is disturbed")
			vf.Reach("stolen")
		} else {
			vf.Assert(w.row("k") == nil, fmt.Sprintf("the lock is not released (caller cancelled: %v)", caller.Err() != nil))
			vf.Reach("released")
		}
		time.Sleep(3 * renew)
		vf.Settle()
		vf.Assert(vf.Goroutines() <= base, fmt.Sprintf("%d goroutines are left of the run", vf.Goroutines()-base))
		if !stolen || !hit {
			vf.Assert(w.row("k") == nil, "the lock comes back after the run")
		}
	})

	// a run that lasts for many times the life of the lease
	vf.Register("C25.long", func() {
		w := newWorld()
		renew := []time.Duration{time.Second, 1500 * time.Millisecond, 20 * time.Second}[vf.Choice("interval", 3)]
		ttl := renew + time.Duration(vf.Choice("slack", 2))*time.Second
		a := w.lock("a", ttl, renew, false)
		b := w.lock("b", ttl, renew, false)
		max := 130
		if vf.Thorough() {
			max = 700
		}
		length := []int{12, 40, max}[vf.Choice("length", 3)]
		cancelled := vf.Bool("cancelled")
		caller, cancel := context.WithCancel(ctx)
		defer cancel()
		ran := 0
		err := a.Run(caller, "k", func(c context.Context) {
			ran++
			for i := 0; i < length; i++ {
				if cancelled && i == length-1 {
					cancel()
				}
				time.Sleep(renew)
				vf.Settle()
				vf.Assert((c.Err() != nil) == (cancelled && i == length-1), fmt.Sprintf("after %d intervals the context of the run is in another state", i+1))
				if c.Err() != nil {
					return
				}
				last := w.row("k")
				vf.Assert(last != nil && time.Now().Sub(last["updated_at"].(time.Time)) <= renew, fmt.Sprintf("the lease is not renewed after %d intervals", i+1))
				_, err := b.Lock(ctx, "k")
				vf.Assert(err == ddd.ErrEntityLocked, fmt.Sprintf("another caller gets the lock after %d intervals", i+1))
			}
		})
		vf.Assert(err == nil && ran == 1, "the run fails")
		vf.Assert(w.row("k") == nil, "the lock is not released")
		l, err := b.Lock(ctx, "k")
		vf.Assert(err == nil && b.UnLock(ctx, l) == nil, "the lock cannot be taken after the run")
		vf.Reach("long")
	})

	// no lock, no run
	vf.Register("C25.refused", func() {
		w := newWorld()
		ttl := 3 * time.Second
		a := w.lock("a", ttl, time.Second, vf.Bool("retry"))
		b := w.lock("b", ttl, time.Second, false)
		how := vf.Choice("reason", 3)
		switch how {
		case 0:
			if _, err := b.Lock(ctx, "k"); err != nil {
				vf.Fail("a free lock is refused")
			}
		case 1:
			n, at := 0, vf.Int("failAt", 1, 3)
			w.st.Before = func(o *symdb.Op) error {
				if o.Inst == "a" && o.Kind != "rollback" {
					if n++; n == at {
						return symdb.ErrInjected
					}
				}
				return nil
			}
		case 2:
			c, cancel := context.WithCancel(ctx)
			cancel()
			err := a.Run(c, "k", func(context.Context) { vf.Fail("the function runs for a cancelled caller") })
			vf.Assert(err != nil, "a cancelled run succeeds")
			vf.Assert(w.row("k") == nil, "a lock stays")
			return
		}
		before := show(w.row("k"))
		base := vf.Goroutines()
		err := a.Run(ctx, "k", func(context.Context) { vf.Fail("the function runs without the lock") })
		vf.Assert(err != nil, "a run without the lock succeeds")
		vf.Assert((err == ddd.ErrEntityLocked) == (how == 0), fmt.Sprintf("the reason is not reported: %v", err))
		if how == 0 {
			vf.Assert(show(w.row("k")) == before, "the holder is disturbed")
		}
		time.Sleep(2 * time.Second)
		vf.Settle()
		_ = base
		vf.Reach("refused")
	})

	// two callers run under the same key, at any statement order, and never overlap
	vf.Register("C25.exclusive", func() {
		w := newWorld()
		ttl := 2 * time.Second
		mon := w.watch("k", ttl)
		in, runs := 0, 0
		w.st.Sched = symdb.NewSched(2)
		for i := 0; i < 2; i++ {
			l := w.lock(fmt.Sprint("c", i), ttl, time.Second, false)
			d := time.Duration(vf.Choice("length", 3)) * 1100 * time.Millisecond
			wait := time.Duration(vf.Choice("start", 3)) * time.Second
			go func() {
				time.Sleep(wait)
				err := l.Run(ctx, "k", func(c context.Context) {
					in++
					runs++
					vf.Assert(in == 1, "two functions run under one lock")
					time.Sleep(d)
					vf.Assert(c.Err() == nil, "a run loses its lock although it renews it")
					in--
				})
				if err != nil {
					vf.Assert(err == ddd.ErrEntityLocked, "refused with: "+err.Error())
				}
			}()
		}
		for i := 0; i < 7; i++ {
			vf.Assert(w.st.Sched.Run(), "the callers wait for each other")
			vf.Assert(mon.bad == "", mon.bad)
			time.Sleep(time.Second)
		}
		vf.Assert(w.st.Sched.Run(), "the callers wait for each other")
		vf.Assert(mon.bad == "", mon.bad)
		vf.Assert(runs >= 1, "nobody runs")
		vf.Assert(w.row("k") == nil, "the lock stays after the runs")
		vf.Reach(fmt.Sprint("runs ", runs))
	})
}
