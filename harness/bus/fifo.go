package bus

import (
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"

	"verifharness/vf"
)

type fifoEvent struct {
	id     int64
	sender string
	typ    ddd.SendType
	status int // -1: no delivery record
	at     int // creation time, seconds before the poll
	old    bool
}

func init() {
	vf.Register("C19.order", func() { fifo(1, 3) })
	// several workers: only the order of what is delivered is judged
	vf.Register("C19.workers", func() { fifo(2, 3) })
	vf.Register("C19.polls", fifoPolls)
}

// fifo runs one poll over any history of a sender and compares with the rule.
func fifo(conc, n int) {
	w := newWorld()
	retry := newRetry()
	retry.fixed = true
	b := w.bus("svc", w.db, func(o *eb.Options) {
		o.RunInterval = interval
		o.RetryStrategy = retry
		o.ConsumeConcurrent = conc
	})
	w.service("other")
	poll := time.Now().Add(interval)
	if vf.Thorough() && conc == 1 {
		n++
	}
	rev := conc == 1 && vf.Bool("event_ids_reversed")
	all := []int{-1, 0, 10, 21, 31}
	var evs []*fifoEvent
	for i := 0; i < n; i++ {
		e := &fifoEvent{id: int64(10 + i), sender: "s", typ: ddd.SendTypeFIFO}
		if i == n-1 {
			// the event of interest
			e.typ = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[vf.Choice("type", 2)]
			e.at = 60
		} else {
			if i == 0 {
				e.sender = []string{"s", "x"}[vf.Choice("sender", 2)]
				e.old = vf.Bool("old")
			} else if i == 1 {
				e.sender = []string{"s", "x"}[vf.Choice("sender", 2)]
			}
			e.typ = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeNormal}[vf.Choice("type", 2)]
			e.status = all[vf.Choice("status", len(all))]
			if e.old {
				e.at = 24*3600 + 100
			} else {
				e.at = vf.Int("at", 58, 62)
			}
		}
		de := event(int(e.id), e.sender, poll, e.typ)
		if rev {
			de.ID = fmt.Sprintf("e%d", 99-e.id)
		}
		w.storedEvent(e.id, de)
		w.setEventTime(e.id, secs(poll, -int64(e.at)))
		if e.status >= 0 {
			w.put(&rec{event: e.id, service: "svc", status: e.status, retry: 1, next: poll, created: poll})
		}
		// what another service did with it does not matter
		w.put(&rec{event: e.id, service: "other", status: 10, next: poll, created: poll})
		evs = append(evs, e)
	}
	status := map[int64]int{}
	start := int64(10)
	if evs[0].old {
		start = 11
	}
	for _, e := range evs {
		status[e.id] = e.status
	}
	ready := func(e *fifoEvent) bool {
		if e.typ == ddd.SendTypeNormal {
			return true
		}
		var p *fifoEvent
		for _, q := range evs {
			if q.id >= e.id || q.sender != e.sender || vf.ConcreteBool(q.at < e.at) {
				continue
			}
			if p == nil || vf.ConcreteBool(q.at <= p.at) {
				p = q
			}
		}
		if p == nil || p.id < start || status[p.id] < 0 {
			return true
		}
		if e.typ == ddd.SendTypeFIFO {
			return status[p.id] == 10 || status[p.id] == 31
		}
		return status[p.id] != 0
	}
	h := &handler{}
	var early []int
	h.outcome = func(n int) int {
		e := evs[n-10]
		for _, q := range evs {
			if r := w.rec("svc", q.id); r != nil {
				status[q.id] = int(toInt(r["status"]))
			}
		}
		if !ready(e) {
			early = append(early, n)
		}
		return vf.Choice("outcome", 2)
	}
	b.RegisterEventHandler(h.handle)
	b.Start(background)
	time.Sleep(interval + time.Second/2)
	vf.Settle()
	tr := w.trace()
	desc := ""
	for _, e := range evs {
		desc += fmt.Sprintf("[%d %s %s %d old %v] ", e.id, e.sender, e.typ, e.status, e.old)
	}
	vf.Assert(len(early) == 0, fmt.Sprintf("event %v is delivered before the preceding event of its sender is done: %s: %s", early, desc, tr))
	for _, e := range evs {
		all, ok := h.count(int(e.id))
		r := w.rec("svc", e.id)
		if e.status != 0 || e.id < start {
			vf.Assert(all == 0, "an event is delivered that is not pending: "+desc)
			vf.Assert((r == nil) == (e.status < 0), "a delivery record appears or is lost: "+desc)
			continue
		}
		vf.Assert(all <= 1, "an event is delivered twice: "+desc)
		st := int(toInt(r["status"]))
		if all == 0 {
			vf.Assert(st == 0 && toInt(r["retry_count"]) == 1 && asTime(r["next_time"]).Equal(poll), fmt.Sprintf("a blocked event %d is changed: status %d: %s", e.id, st, desc))
			vf.Reach("blocked")
		} else {
			vf.Assert((st == 10) == (ok == 1), "the outcome of an ordered event is recorded wrongly: "+desc)
			vf.Reach("delivered")
		}
		if conc == 1 {
			// with one worker, in the order of the events
			status[e.id] = 0
			for _, q := range evs {
				if r := w.rec("svc", q.id); q.id < e.id && r != nil {
					status[q.id] = int(toInt(r["status"]))
				}
			}
			vf.Assert((all == 1) == ready(e), fmt.Sprintf("event %d is delivered %d times: %s: %s", e.id, all, desc, tr))
		}
	}
	vf.Assert(w.ses.Len() >= n, "records are lost")
}

// fifoPolls sends a chain of ordered events through the bus, over several polls.
func fifoPolls() {
	w := newWorld()
	b := w.bus("svc", w.db, func(o *eb.Options) {
		o.RunInterval = interval
		o.RetryStrategy = &eb.LimitRetry{Limit: 0} // one retry
		o.ConsumeConcurrent = 1 + vf.Choice("concurrent", 2)
	})
	typ := []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[vf.Choice("type", 2)]
	n, polls := 3, 3
	if vf.Thorough() {
		n, polls = 4, 4
	}
	var es []*ddd.DomainEvent
	tie := vf.Bool("same_time")
	ids := vf.Choice("id_order", 2)
	w.st.Backwards = ids == 1
	at := time.Now()
	for i := 0; i < n; i++ {
		e := event(i, "s", at, typ)
		if !tie {
			e.CreatedAt = at.Add(time.Duration(i) * time.Second)
		}
		if ids == 1 {
			e.ID = fmt.Sprintf("e%d", 9-i)
		}
		es = append(es, e)
	}
	if err := b.Dispatch(background, es...); err != nil {
		vf.Fail("dispatch: " + err.Error())
	}
	state := make([]int, n) // 0 open, 1 done, 2 given up
	tries := make([]int, n)
	h := &handler{}
	h.outcome = func(i int) int {
		for j := 0; j < i; j++ {
			if typ == ddd.SendTypeFIFO {
				vf.Assert(state[j] == 1, fmt.Sprintf("event %d overtakes event %d: %v: %s", i, j, h.got, w.trace()))
			} else {
				vf.Assert(state[j] != 0, fmt.Sprintf("event %d overtakes event %d: %v: %s", i, j, h.got, w.trace()))
			}
		}
		vf.Assert(state[i] == 0, "a finished event is delivered again")
		tries[i]++
		o := vf.Choice("outcome", 2)
		if o == 0 {
			state[i] = 1
			vf.Reach("done")
		} else if tries[i] == 2 {
			state[i] = 2
			vf.Reach("given up")
		}
		return o
	}
	b.RegisterEventHandler(h.handle)
	b.Start(background)
	time.Sleep(time.Duration(polls)*interval + time.Second)
	vf.Settle()
	// progress: the first open event that is not blocked was tried in every poll
	for i := 0; i < n; i++ {
		if state[i] == 1 || state[i] == 2 && typ == ddd.SendTypeLaxFIFO {
			continue
		}
		if state[i] == 0 {
			vf.Assert(tries[i] > 0 || polls < 2*i+1, fmt.Sprintf("event %d is not delivered although its turn came: %v", i, h.got))
		}
		break
	}
}
