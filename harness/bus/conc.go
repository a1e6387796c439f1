package bus

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"

	"verifharness/symdb"
	"verifharness/vf"
)

type attempt struct {
	inst, n int
	ok      bool
}

// attempts records what all the instances hand to their handlers.
type attempts struct {
	mu   sync.Mutex
	got  []attempt
	busy map[int]int
}

func (a *attempts) handler(inst int, outcomes int) ddd.DomainEventHandler {
	return func(ctx context.Context, e *ddd.DomainEvent) error {
		var p payload
		if err := json.Unmarshal(e.Payload, &p); err != nil {
			vf.Fail("the payload of a delivered event is broken")
		}
		ok := vf.Choice("outcome", outcomes) == 0
		a.mu.Lock()
		a.got = append(a.got, attempt{inst, p.N, ok})
		a.mu.Unlock()
		if !ok {
			return errHandler
		}
		return nil
	}
}

func (a *attempts) count(n int) (all, ok, afterOK int) {
	for _, x := range a.got {
		if x.n != n {
			continue
		}
		if ok > 0 {
			afterOK++
		}
		all++
		if x.ok {
			ok++
		}
	}
	return
}

func (a *attempts) String() string {
	s := ""
	for _, x := range a.got {
		s += fmt.Sprintf("[instance %d event %d ok %v]", x.inst, x.n, x.ok)
	}
	return s
}

func init() {
	// two or three instances of one service poll the same records at the same time
	conc := func(name string, instances, thoroughInst, events, preempt int, fifo, again bool) {
		vf.Register(name, func() {
			w := newWorld()
			n, k, pre := events, instances, preempt
			if vf.Thorough() {
				// one more preemption, or one more instance with one preemption less
				if k = thoroughInst; k == instances {
					pre++
				} else {
					pre--
				}
			}
			var buses []*eb.EventBus
			at := &attempts{}
			var strategy eb.IRetryStrategy = &eb.IntervalRetry{Limit: 5, Interval: 90 * time.Second}
			noRetry, atOnce := false, false
			if !fifo {
				if again { // due again at once, also for those that wait for it
					atOnce = true
					strategy = &eb.IntervalRetry{Limit: 5}
				} else if vf.Bool("noRetry") { // a failure is final
					noRetry = true
					strategy = &eb.CustomRetry{}
				}
			}
			for i := 0; i < k; i++ {
				b := w.bus("svc", w.st.Open(fmt.Sprintf("i%d", i), nil), func(o *eb.Options) {
					o.RunInterval = interval
					o.RetryStrategy = strategy
				})
				b.RegisterEventHandler(at.handler(i, 2))
				buses = append(buses, b)
			}
			poll := time.Now().Add(interval)
			typ := ddd.SendTypeNormal
			if fifo {
				typ = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[vf.Choice("type", 2)]
			}
			for i := 0; i < n; i++ {
				id := int64(10 + i)
				w.storedEvent(id, event(int(id), "s", poll, typ))
				w.put(&rec{event: id, service: "other", status: 10, next: poll, created: poll})
				w.put(&rec{event: id, service: "svc", next: poll, created: poll})
			}
			for _, b := range buses {
				b.Start(background)
			}
			w.st.Sched = symdb.NewSched(pre)
			time.Sleep(interval + time.Second/2)
			vf.Assert(w.st.Sched.Run(), "all instances wait for each other: "+w.trace())
			tr := at.String() + " " + w.trace()
			check := func(i int, stage string) {
				id := int64(10 + i)
				all, ok, after := at.count(int(id))
				r := w.rec("svc", id)
				vf.Assert(r != nil, "a delivery record is lost "+stage+": "+tr)
				vf.Assert(after == 0, fmt.Sprintf("event %d is handed to a handler again after it was processed %s: %s", id, stage, tr))
				vf.Assert((ok > 0) == (toInt(r["status"]) == 10), fmt.Sprintf("event %d was processed %d times, but is recorded as %d %s: %s", id, ok, toInt(r["status"]), stage, tr))
				if noRetry {
					vf.Assert((toInt(r["status"]) == int64(eb.ServiceEventStatusFailed)) == (all > 0 && ok == 0), fmt.Sprintf("event %d failed %d times and was processed %d times, it is recorded as %d %s: %s", id, all-ok, ok, toInt(r["status"]), stage, tr))
					return
				}
				vf.Assert(toInt(r["retry_count"]) == int64(all-ok), fmt.Sprintf("event %d failed %d times, but %d retries are recorded %s: %s", id, all-ok, toInt(r["retry_count"]), stage, tr))
				if all > ok && ok == 0 && !atOnce {
					vf.Assert(!asTime(r["next_time"]).Before(poll.Add(90*time.Second)), "the time of the retry is not kept: "+tr)
				}
			}
			for i := 0; i < n; i++ {
				check(i, "in the first poll")
				all, _, _ := at.count(10 + i)
				if atOnce {
					vf.Assert(all >= 1 && all <= k, fmt.Sprintf("event %d is delivered %d times in one poll of %d instances: %s", 10+i, all, k, tr))
					if all > 1 {
						vf.Reach("again")
					}
				} else if !fifo {
					vf.Assert(all == 1, fmt.Sprintf("event %d is delivered %d times in one poll of %d instances: %s", 10+i, all, k, tr))
				} else {
					vf.Assert(all <= 1, fmt.Sprintf("event %d is delivered %d times in one poll of %d instances: %s", 10+i, all, k, tr))
				}
			}
			if len(at.got) > 0 && at.got[0].inst != at.got[len(at.got)-1].inst {
				vf.Reach("both")
			}
			vf.Reach("polled")
		})
	}
	conc("C23.poll", 2, 3, 1, 3, false, false)
	conc("C23.poll2", 2, 2, 2, 2, false, false)
	conc("C23.fifo", 2, 2, 2, 2, true, false)
	conc("C23.again", 2, 2, 1, 2, false, true)

	// one instance loses its database in the middle of a poll, the other one goes on
	vf.Register("C23.lost", func() {
		w := newWorld()
		at := &attempts{}
		n := 2
		if vf.Thorough() {
			n = 3
		}
		for i := 0; i < 2; i++ {
			b := w.bus("svc", w.st.Open(fmt.Sprintf("i%d", i), nil), func(o *eb.Options) {
				o.RunInterval = interval
				o.RetryStrategy = &eb.IntervalRetry{Limit: 5, Interval: 90 * time.Second}
			})
			b.RegisterEventHandler(at.handler(i, 2))
			b.Start(background)
			// the second one polls a little later
			time.Sleep(time.Second)
		}
		first := time.Now().Add(interval - 2*time.Second)
		for i := 0; i < n; i++ {
			id := int64(10 + i)
			w.storedEvent(id, event(int(id), "s", first, ddd.SendTypeNormal))
			w.put(&rec{event: id, service: "svc", next: first, created: first})
		}
		dead, num := vf.Int("deadAt", 0, 6+4*n), 0
		w.st.Before = func(o *symdb.Op) error {
			if o.Inst != "i0" || o.Kind == "rollback" {
				return nil
			}
			if num++; dead > 0 && num >= dead {
				return symdb.ErrInjected
			}
			return nil
		}
		time.Sleep(interval)
		vf.Settle()
		tr := at.String() + " " + w.trace()
		for i := 0; i < n; i++ {
			id := int64(10 + i)
			all, ok, after := at.count(int(id))
			r := w.rec("svc", id)
			vf.Assert(all > 0, fmt.Sprintf("event %d is not delivered after the first instance is lost: %s", id, tr))
			vf.Assert(r != nil && (toInt(r["status"]) != 10 || ok > 0), fmt.Sprintf("event %d is recorded as processed, but never was: %s", id, tr))
			if dead == 0 {
				vf.Assert(all == 1 && after == 0, fmt.Sprintf("event %d is delivered %d times: %s", id, all, tr))
			}
			if all > 1 {
				vf.Reach("again")
			}
		}
	})

	// two instances resolve the open transactions at the same time
	vf.Register("C23.checks", func() {
		w := newWorld()
		w.service("other")
		n, pre := 2, 2
		if vf.Thorough() {
			n, pre = 3, 3
		}
		var mu sync.Mutex
		answers := map[int]ddd.TXStatus{}
		for i := 0; i < 2; i++ {
			b := w.bus("svc", w.st.Open(fmt.Sprintf("i%d", i), nil), func(o *eb.Options) { o.RunInterval = interval })
			b.RegisterEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus {
				var p payload
				if err := json.Unmarshal(e.Payload, &p); err != nil {
					vf.Fail("the payload of a checked event is broken")
				}
				mu.Lock()
				defer mu.Unlock()
				// the answer does not depend on who asks
				if _, ok := answers[p.N]; !ok {
					answers[p.N] = []ddd.TXStatus{ddd.TXCommit, ddd.TXRollBack, ddd.TXUnknown}[vf.Choice("answer", 3)]
				}
				return answers[p.N]
			})
			b.Start(background)
		}
		var evs []*ddd.DomainEvent
		for i := 0; i < n; i++ {
			e := event(i, "s", time.Unix(946684800, 0).UTC(), ddd.SendTypeTransaction)
			evs = append(evs, e)
			w.putTx(int64(501+i), "svc", time.Now(), e)
		}
		w.st.Sched = symdb.NewSched(pre)
		for polls := 0; polls < 2; polls++ {
			time.Sleep(interval + time.Second/2)
			vf.Assert(w.st.Sched.Run(), "the instances wait for each other: "+w.trace())
			tr := w.trace()
			for i, e := range evs {
				num, half := w.stored(e.ID)
				a, asked := answers[i]
				vf.Assert(num <= 1, fmt.Sprintf("a transaction is dispatched %d times by two instances: %s", num, tr))
				vf.Assert(half == 0, "a transaction is half dispatched: "+tr)
				if !asked {
					vf.Fail("a due transaction is not resolved: " + tr)
				}
				vf.Assert((num == 1) == (a == ddd.TXCommit), fmt.Sprintf("a transaction answered %v is dispatched %d times: %s", a, num, tr))
				vf.Assert(w.hasTx(int64(501+i)) == (a == ddd.TXUnknown), fmt.Sprintf("a transaction answered %v is not finished: %s", a, tr))
			}
			vf.Reach("resolved")
		}
	})
}
