package bus

import (
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"

	"verifharness/vf"
)

func sizes(more ...int) int {
	s := []int{1, 12, 33, 70}
	if vf.Thorough() {
		s = append(s, more...)
	}
	return s[vf.Choice("how_many", len(s))]
}

var t0 = time.Unix(946684000, 0).UTC()

func init() {
	// any number of events and services in one dispatch
	vf.Register("C17.sizes", func() {
		w := newWorld()
		ne, ns := 1, 1
		switch vf.Choice("many", 3) {
		case 0:
			ne = sizes(101, 130)
		case 1:
			ns = sizes(101, 130)
		case 2:
			ne, ns = 12, 12
		}
		for i := 1; i < ns; i++ {
			w.service(fmt.Sprint("other", i))
		}
		b := w.bus("svc", w.db, nil)
		var evs []*ddd.DomainEvent
		for i := 0; i < ne; i++ {
			evs = append(evs, event(i, "s", t0, ddd.SendTypeNormal))
		}
		err := b.Dispatch(background, evs...)
		vf.Assert(err == nil, fmt.Sprintf("the dispatch fails: %v", err))
		vf.Assert(w.events.Len() == ne, fmt.Sprintf("%d of %d events are stored", w.events.Len(), ne))
		of := map[int64]string{}
		for i, r := range w.events.Rows() {
			vf.Assert(r["event_id"] == evs[i].ID, "events are stored out of order")
			of[toInt(r["id"])] = evs[i].ID
		}
		vf.Assert(len(of) == ne, "two events share an id")
		seen := map[string]bool{}
		for _, r := range w.ses.Rows() {
			e, ok := of[toInt(r["event_id"])]
			vf.Assert(ok, "a delivery record refers to no event")
			seen[e+"/"+r["service"].(string)] = true
		}
		vf.Assert(len(seen) == ne*ns && w.ses.Len() == ne*ns, fmt.Sprintf("%d delivery records for %d events and %d services", len(seen), ne, ns))
		vf.Reach("dispatched")
	})

	// many due records: each poll takes the oldest up to the limit, all are delivered in the end, each once
	vf.Register("C18.sizes", func() {
		w := newWorld()
		n := sizes(101, 130)
		w.st.Backwards = vf.Bool("backwards")
		limit := []int{1000, 7, 0, 30}[vf.Choice("limit", 4)]
		conc := []int{1, 0, 3}[vf.Choice("concurrent", 3)]
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.RunInterval = interval
			if limit > 0 {
				o.LimitPerRun = limit
			}
			if conc > 0 {
				o.ConsumeConcurrent = conc
			}
		})
		if limit == 0 {
			limit = 100 // the default
		}
		poll := time.Now().Add(interval)
		for i := 0; i < n; i++ {
			w.storedEvent(int64(10+i), event(10+i, "s", t0.Add(24*time.Hour-time.Hour), ddd.SendTypeNormal))
			w.setEventTime(int64(10+i), secs(poll, -3600))
			w.put(&rec{event: int64(10 + i), service: "svc", next: poll, created: poll})
		}
		h := &handler{outcome: func(int) int { return 0 }}
		b.RegisterEventHandler(h.handle)
		b.Start(background)
		for p := 1; ; p++ {
			at := interval
			if p == 1 {
				at += time.Second / 2
			}
			time.Sleep(at)
			vf.Settle()
			want := n
			if p*limit < n {
				want = p * limit
			}
			vf.Assert(len(h.got) == want, fmt.Sprintf("after poll %d with limit %d, %d of %d events are delivered", p, limit, len(h.got), n))
			if want == n {
				break
			}
		}
		seen := map[int]bool{}
		for i, d := range h.got {
			seen[d.n] = true
			vf.Assert(conc > 1 || conc == 0 || d.n == 10+i, "older events are not taken first")
		}
		vf.Assert(len(seen) == n, "an event is delivered twice")
		for _, r := range w.ses.Rows() {
			vf.Assert(toInt(r["status"]) == 10, "a delivered event is not recorded as such")
		}
		vf.Reach("delivered")
	})

	// many open transactions, each with many events
	vf.Register("C21.sizes", func() {
		w := newWorld()
		n, ne := 1, 1
		if vf.Bool("many_transactions") {
			n = sizes(101, 130)
		} else {
			ne = sizes(101, 130)
		}
		b := w.bus("svc", w.db, func(o *eb.Options) { o.RunInterval = interval })
		due := time.Now().Add(interval / 2)
		for i := 0; i < n; i++ {
			var evs []*ddd.DomainEvent
			for j := 0; j < ne; j++ {
				evs = append(evs, event(1000*i+j, "s", t0, ddd.SendTypeTransaction))
			}
			w.putTx(int64(10+i), "svc", due, evs...)
		}
		how := vf.Choice("outcome", 3)
		asked := map[int]int{}
		b.RegisterEventTXChecker(func(evt *ddd.DomainEvent) ddd.TXStatus {
			var k int
			fmt.Sscanf(evt.ID, "e%d", &k)
			asked[k/1000]++
			vf.Assert(k%1000 == 0 || asked[k/1000] > 0, "asked for another event")
			switch {
			case how == 0 || how == 2 && (k/1000)%2 == 0:
				return ddd.TXCommit
			}
			return ddd.TXRollBack
		})
		b.Start(background)
		time.Sleep(interval + time.Second/2)
		vf.Settle()
		vf.Assert(w.txs.Len() == 0, fmt.Sprintf("%d of %d decided transactions stay open", w.txs.Len(), n))
		seen := map[string]int{}
		for _, r := range w.events.Rows() {
			seen[r["event_id"].(string)]++
		}
		want := 0
		for i := 0; i < n; i++ {
			vf.Assert(asked[i] > 0, "an undecided transaction is not checked")
			if how == 1 || how == 2 && i%2 == 1 {
				continue
			}
			for j := 0; j < ne; j++ {
				vf.Assert(seen[fmt.Sprintf("e%d", 1000*i+j)] == 1, "an event of a committed transaction is not dispatched once")
				want++
			}
		}
		vf.Assert(w.events.Len() == want && w.ses.Len() == want, "events of rolled back transactions are dispatched")
		vf.Reach("resolved")
	})
}
