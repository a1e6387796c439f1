package bus

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"
	"gorm.io/gorm"

	"verifharness/symdb"
	"verifharness/vf"
)

const interval = time.Minute

var errHandler = errors.New("handler failed")

// retryStub is a retry strategy that answers arbitrarily and remembers.
type retryStub struct {
	asked  map[int64][]eb.RetryInfo
	answer map[int64]*eb.RetryInfo
	fixed  bool
}

func (r *retryStub) RetryCount() int { return 3 }
func (r *retryStub) Next(info *eb.RetryInfo) *eb.RetryInfo {
	r.asked[info.ID] = append(r.asked[info.ID], *info)
	var a *eb.RetryInfo
	if r.fixed || vf.Bool("retry_again") {
		a = &eb.RetryInfo{ID: info.ID, RetryCount: info.RetryCount + 1, RetryTime: time.Now().Add(90 * time.Second)}
	}
	r.answer[info.ID] = a
	return a
}

func newRetry() *retryStub {
	return &retryStub{asked: map[int64][]eb.RetryInfo{}, answer: map[int64]*eb.RetryInfo{}}
}

type delivery struct {
	n       int
	outcome int // 0 ok, 1 error, 2 panic
}

// handler records what it is given.
type handler struct {
	got     []delivery
	outcome func(n int) int
}

func (h *handler) handle(ctx context.Context, e *ddd.DomainEvent) error {
	var p payload
	if err := json.Unmarshal(e.Payload, &p); err != nil {
		vf.Fail("the payload of a delivered event is broken: " + string(e.Payload))
	}
	d := delivery{n: p.N}
	d.outcome = h.outcome(p.N)
	h.got = append(h.got, d)
	switch d.outcome {
	case 1:
		return fmt.Errorf("event %d: %w", p.N, errHandler)
	case 2:
		panic(fmt.Sprintf("event %d: handler panics", p.N))
	}
	return nil
}

func (h *handler) count(n int) (all, ok int) {
	for _, d := range h.got {
		if d.n == n {
			all++
			if d.outcome == 0 {
				ok++
			}
		}
	}
	return
}

type rec struct {
	event   int64
	service string
	status  int
	retry   int
	next    time.Time
	created time.Time
	orphan  bool
}

func (w *world) put(r *rec) {
	w.ses.Put(map[string]any{"service": r.service, "event_id": r.event, "status": int64(r.status), "retry_count": int64(r.retry), "next_time": r.next, "event_created_at": r.created, "run_at": time.Unix(1, 0).UTC()})
}

func (w *world) rec(service string, event int64) map[string]any {
	for _, r := range w.ses.Rows() {
		if r["service"] == service && r["event_id"] == event {
			return r
		}
	}
	return nil
}

func unchanged(r map[string]any, b *rec) bool {
	return r != nil && vf.And(toInt(r["status"]) == int64(b.status), vf.And(toInt(r["retry_count"]) == int64(b.retry), asTime(r["next_time"]).Equal(b.next))) && r["failed_message"] == ""
}

var statuses = []int{0, 10, 21, 31}

type pollConfig struct {
	n, limits, conc, outcomes int
	window, retry, orphan     bool
}

// poll runs one poll over any records and compares with what should happen.
func poll(c pollConfig) {
	w := newWorld()
	retry := newRetry()
	retry.fixed = !c.retry
	limit := 100
	if c.limits > 1 {
		limit = 1 + vf.Choice("limit", c.limits)
	}
	w.st.Backwards = c.limits > 1 && limit%2 == 1
	conc := 1 + vf.Choice("concurrent", c.conc)
	b := w.bus("svc", w.db, func(o *eb.Options) {
		o.RunInterval = interval
		o.LimitPerRun = limit
		o.ConsumeConcurrent = conc
		o.RetryStrategy = retry
	})
	w.service("other")
	poll := time.Now().Add(interval)
	n := c.n
	first := 10 // ids of the events
	var recs []*rec
	start := int64(1 << 40)
	gone := -1
	if c.orphan {
		gone = vf.Choice("gone", n)
	}
	for i := 0; i < n; i++ {
		id := int64(first + i)
		age := 60
		old := c.window && i < 2 && vf.Bool("old")
		if old {
			age = 24*3600 + vf.Int("age_over", 1, 100)
		} else if c.window && i == 0 {
			age = vf.Int("age", 0, 24*3600)
		}
		created := secs(poll, -int64(age))
		if i != gone {
			w.storedEvent(id, event(int(id), "s", poll, ddd.SendTypeNormal))
			w.setEventTime(id, created)
			if !old && start > id {
				start = id
			}
		}
		r := &rec{event: id, service: "svc", created: created, orphan: i == gone, next: poll}
		if c.window {
			if i < n-1 {
				r.status = statuses[vf.Choice("status", len(statuses))]
			}
			r.next = secs(poll, int64(vf.Int("next", -30, 30)))
		}
		r.retry = vf.Int("retry", 0, 9)
		recs = append(recs, r)
		if i%2 == 1 {
			// another service's record of the same event comes first
			w.put(&rec{event: id, service: "more", status: 10, retry: 1, next: poll, created: created})
		}
		w.put(r)
	}
	// another service's records are none of our business
	o := &rec{event: int64(first), service: "other", status: 0, retry: 2, next: secs(poll, -5), created: poll}
	w.put(o)
	h := &handler{}
	h.outcome = func(n int) int { return vf.Choice("outcome", c.outcomes) }
	b.RegisterEventHandler(h.handle)
	b.Start(background)
	time.Sleep(interval + time.Second/2)
	vf.Settle()
	tr := w.trace()
	vf.Assert(unchanged(w.rec("other", o.event), o), "the record of another service is changed: "+tr)
	handed := 0
	for i, r := range recs {
		if i%2 == 1 {
			vf.Assert(unchanged(w.rec("more", r.event), &rec{status: 10, retry: 1, next: poll}), "the record of another service is changed: "+tr)
		}
		n := int(r.event)
		due := r.status == 0 && r.event >= start && vf.ConcreteBool(!r.next.After(poll))
		in := due && handed < limit
		if due {
			handed++
		}
		all, ok := h.count(n)
		now := w.rec("svc", r.event)
		what := fmt.Sprintf("event %d (status %d, orphan %v, batch limit %d): ", n, r.status, r.orphan, limit)
		if !in || r.orphan {
			vf.Assert(all == 0, what+"delivered although not due: "+tr)
			vf.Assert(unchanged(now, r), what+"its record is changed although it was not delivered: "+tr)
			continue
		}
		vf.Assert(all == 1, fmt.Sprintf("%sdelivered %d times in one poll: %s", what, all, tr))
		vf.Assert(now != nil, what+"its record is gone: "+tr)
		st := toInt(now["status"])
		msg, _ := now["failed_message"].(string)
		if ok == 1 {
			vf.Assert(st == 10, fmt.Sprintf("%shandled, but recorded as %d: %s", what, st, tr))
			vf.Assert(toInt(now["retry_count"]) == int64(r.retry), what+"a success counts as a retry")
			vf.Reach("success")
			continue
		}
		vf.Assert(len(retry.asked[r.event]) == 1, fmt.Sprintf("%sthe retry strategy was asked %d times: %s", what, len(retry.asked[r.event]), tr))
		vf.Assert(retry.asked[r.event][0].RetryCount == r.retry, what+"the retry strategy is given another retry count")
		vf.Assert(strings.Contains(msg, fmt.Sprintf("event %d:", n)), what+"the failure is not noted: "+msg)
		if a := retry.answer[r.event]; a != nil {
			vf.Assert(st == 0, fmt.Sprintf("%sfailed with a retry left, but recorded as %d: %s", what, st, tr))
			vf.Assert(toInt(now["retry_count"]) == int64(a.RetryCount), what+"the retry count is not the strategy's")
			vf.Assert(asTime(now["next_time"]).Equal(a.RetryTime), what+"the next time is not the strategy's")
			vf.Reach("retry")
		} else {
			vf.Assert(st == 21, fmt.Sprintf("%sfailed for good, but recorded as %d: %s", what, st, tr))
			vf.Reach("gave up")
		}
	}
	vf.Assert(len(w.ses.Rows()) == n+1+n/2, "records appear or disappear: "+tr)
}

func init() {
	// which records are taken: any statuses, due times, ages, batch limits
	vf.Register("C18.due", func() {
		n := 3
		if vf.Thorough() {
			n = 4
		}
		poll(pollConfig{n: n, limits: n, conc: 1, window: true, outcomes: 2})
	})
	// what becomes of them: any outcomes, any answer of the retry strategy, concurrent workers
	vf.Register("C18.outcome", func() {
		n, conc := 2, 2
		if vf.Thorough() {
			n, conc = 3, 3
		}
		poll(pollConfig{n: n, limits: 1, conc: conc, outcomes: 3, retry: true})
	})
	// a record whose event is gone
	vf.Register("C18.orphan", func() {
		n := 3
		if vf.Thorough() {
			n = 4
		}
		poll(pollConfig{n: n, limits: 1, conc: 1, outcomes: 2, orphan: true})
	})

	// whatever the handler says of its failure, the failure is recorded
	vf.Register("C18.message", func() {
		w := newWorld()
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.RunInterval = interval
			o.RetryLimit = 2
			o.RetryInterval = time.Hour
		})
		w.storedEvent(10, event(10, "s", time.Now(), ddd.SendTypeNormal))
		poll := time.Now().Add(interval)
		w.put(&rec{event: 10, service: "svc", next: poll, created: poll})
		var msg string
		n := 65530 + vf.Choice("length", 8)
		switch vf.Choice("message", 6) {
		case 0:
			msg = ""
		case 1:
			msg = strings.Repeat("x", n)
		case 2:
			msg = "x" + strings.Repeat("\u00e9", n/2)
		case 3:
			msg = strings.Repeat("\u4e8b", 20000) + strings.Repeat("x", n-60000)
		case 4:
			msg = "bad \xff bytes"
		case 5:
			msg = strings.Repeat("x", n-2) + "\u4e8b\u4ef6"
		}
		calls := 0
		panics := vf.Bool("panics")
		b.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error {
			calls++
			if panics {
				panic(msg)
			}
			return errors.New(msg)
		})
		b.Start(background)
		time.Sleep(interval + time.Second/2)
		vf.Settle()
		now := w.rec("svc", 10)
		vf.Assert(calls == 1, "the event is not delivered")
		vf.Assert(now != nil && toInt(now["status"]) == 0 && toInt(now["retry_count"]) == 1, fmt.Sprintf("a failed delivery is not recorded (%d bytes): %s", len(msg), w.trace()))
		vf.Assert(asTime(now["next_time"]).Equal(poll.Add(time.Hour)), "the retry is not scheduled")
		if f, _ := now["failed_message"].(string); msg != "" {
			m := msg
			if len(m) > 20 {
				m = m[:20]
			}
			m = strings.ToValidUTF8(m, "")
			if len(m) > 3 {
				m = m[:3]
			}
			vf.Assert(strings.Contains(f, m), "the failure is not noted")
		}
		vf.Reach("recorded")
	})

	// whatever error it is, it is a failure to be retried
	vf.Register("C18.errors", func() {
		w := newWorld()
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.RunInterval = interval
			o.RetryLimit = 2
			o.RetryInterval = time.Hour
		})
		w.storedEvent(10, event(10, "s", time.Now(), []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO}[vf.Choice("type", 2)]))
		poll := time.Now().Add(interval)
		w.put(&rec{event: 10, service: "svc", next: poll, created: poll})
		known := []error{context.Canceled, context.DeadlineExceeded, gorm.ErrRecordNotFound, ddd.ErrBreak, ddd.ErrEntityNotFound, ddd.ErrEntityLocked,
			eb.ErrPrecedingEventNotReady, eb.ErrNoTransaction, eb.ErrServiceNotCreate, eb.ErrInvalidDB, sql.ErrNoRows, io.EOF, driver.ErrBadConn, gorm.ErrDuplicatedKey, nil}
		cause := known[vf.Choice("error", len(known))]
		wrap := vf.Bool("wrapped")
		panics := vf.Bool("panics")
		calls := 0
		b.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error {
			calls++
			err := cause
			if wrap || cause == nil {
				err = fmt.Errorf("handling: %w", cause)
			}
			if panics {
				panic(err)
			}
			return err
		})
		b.Start(background)
		time.Sleep(interval + time.Second/2)
		vf.Settle()
		now := w.rec("svc", 10)
		vf.Assert(calls == 1, "the event is not delivered")
		vf.Assert(now != nil && toInt(now["status"]) == 0 && toInt(now["retry_count"]) == 1, fmt.Sprintf("a delivery that failed with '%v' is not to be retried: %v %s", cause, now, w.trace()))
		vf.Assert(asTime(now["next_time"]).Equal(poll.Add(time.Hour)), "the retry is not scheduled")
		vf.Assert(now["failed_message"] != "", "the failure is not noted")
		vf.Reach("retried")
	})

	// a failing statement anywhere: the others are delivered all the same, and nothing is lost
	vf.Register("C18.faults", func() {
		w := newWorld()
		retry := newRetry()
		retry.fixed = true
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.RunInterval = interval
			o.RetryStrategy = retry
		})
		poll := time.Now().Add(interval)
		n := 2
		if vf.Thorough() {
			n = 3
		}
		for i := 0; i < n; i++ {
			id := int64(10 + i)
			w.storedEvent(id, event(int(id), "s", poll, ddd.SendTypeNormal))
			w.put(&rec{event: id, service: "svc", next: poll, created: poll})
		}
		h := &handler{}
		h.outcome = func(n int) int { return vf.Choice("outcome", 3) }
		b.RegisterEventHandler(h.handle)
		// the failing operations: one, or two
		at, at2 := vf.Int("failAt", 0, 7+5*n), 0
		if vf.Thorough() {
			at2 = vf.Int("failAt2", 0, 7+5*n)
		}
		num, failed, scan := 0, 0, false
		on := true
		w.st.Before = func(o *symdb.Op) error {
			if !on || o.Kind == "rollback" {
				return nil
			}
			num++
			if num == at || num == at2 {
				failed++
				if o.Kind == "select" && !o.InTx {
					scan = true
				}
				return symdb.ErrInjected
			}
			return nil
		}
		b.Start(background)
		time.Sleep(interval + time.Second/2)
		vf.Settle()
		on = false
		tr := w.trace()
		first := h.got
		seen := map[int]bool{}
		for _, d := range first {
			vf.Assert(!seen[d.n], "an event is delivered twice in one poll: "+tr)
			seen[d.n] = true
		}
		if !scan {
			vf.Assert(len(first) >= n-failed, fmt.Sprintf("%d failing statements kept %d of %d events from being delivered: %s", failed, n-len(first), n, tr))
		}
		check := func(stage string) {
			for i := 0; i < n; i++ {
				id := int64(10 + i)
				r := w.rec("svc", id)
				vf.Assert(r != nil, "a record is lost "+stage+": "+tr)
				_, ok := h.count(int(id))
				st := toInt(r["status"])
				vf.Assert(st == 0 || st == 10, fmt.Sprintf("recorded as %d %s: %s", st, stage, tr))
				vf.Assert(st != 10 || ok > 0, "recorded as successful although the handler never succeeded "+stage+": "+tr)
			}
		}
		check("after a failing statement")
		pending := map[int64]bool{}
		for i := 0; i < n; i++ {
			id := int64(10 + i)
			r := w.rec("svc", id)
			if toInt(r["status"]) == 0 && !asTime(r["next_time"]).After(poll.Add(interval)) {
				pending[id] = true
			}
			_, ok := h.count(int(id))
			all := len(retry.asked[id])
			if toInt(r["status"]) == 0 && !pending[id] {
				vf.Assert(all > 0 && ok == 0, "an event is put off without a failure: "+tr)
			}
		}
		h.got = nil
		time.Sleep(interval)
		vf.Settle()
		tr = w.trace()
		for i := 0; i < n; i++ {
			id := int64(10 + i)
			all, _ := h.count(int(id))
			if pending[id] {
				vf.Assert(all == 1, fmt.Sprintf("a due event is delivered %d times in the next poll: %s", all, tr))
				vf.Reach("again")
			} else {
				vf.Assert(all == 0, "an event is delivered again: "+tr)
			}
		}
		h.got = append(h.got, first...)
		check("at the end")
	})
}
