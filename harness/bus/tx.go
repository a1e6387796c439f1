package bus

import (
	"encoding/json"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"

	"verifharness/symdb"
	"verifharness/vf"
)

// putTx stores an open transaction with the given events.
func (w *world) putTx(id int64, service string, due time.Time, evs ...*ddd.DomainEvent) {
	b, err := json.Marshal(evs)
	if err != nil {
		vf.Fail("json: " + err.Error())
	}
	w.txs.Put(map[string]any{"id": id, "service": service, "events": string(b), "due_time": due, "created_at": due.Add(-time.Minute)})
}

func (w *world) hasTx(id int64) bool {
	for _, r := range w.txs.Rows() {
		if toInt(r["id"]) == id {
			return true
		}
	}
	return false
}

// stored counts how often the event is stored, and how many of its copies lack a
// delivery record for one of the services.
func (w *world) stored(id string) (n, half int) {
	servs := w.servs.Rows()
	for _, r := range w.events.Rows() {
		if r["event_id"] != id {
			continue
		}
		n++
		for _, s := range servs {
			if w.rec(s["name"].(string), toInt(r["id"])) == nil {
				half++
				break
			}
		}
	}
	return
}

func (w *world) sameContent(e *ddd.DomainEvent) bool {
	for _, r := range w.events.Rows() {
		if r["event_id"] != e.ID {
			continue
		}
		var g ddd.DomainEvent
		if json.Unmarshal([]byte(r["event"].(string)), &g) != nil {
			return false
		}
		if g.Type != e.Type || g.Sender != e.Sender || g.SendType != e.SendType || string(g.Payload) != string(e.Payload) || !g.CreatedAt.Equal(e.CreatedAt) || r["sender"] != e.Sender {
			return false
		}
	}
	return true
}

func init() {
	// begin, then the decision, with a failing statement anywhere
	vf.Register("C21.decide", func() {
		w := newWorld()
		w.service("other")
		timeout := []time.Duration{time.Minute, time.Hour}[vf.Choice("timeout", 2)]
		b := w.bus("svc", w.db, func(o *eb.Options) { o.TXCheckTimeout = timeout })
		n := 1 + vf.Choice("events", 2)
		var evs []*ddd.DomainEvent
		for i := 0; i < n; i++ {
			evs = append(evs, event(i, []string{"", "s"}[i%2], time.Unix(946684800, 0).UTC(), ddd.SendTypeTransaction))
		}
		if vf.Bool("another_open") {
			w.putTx(77, "svc", time.Now().Add(time.Hour), event(8, "s", time.Now(), ddd.SendTypeTransaction))
		}
		before := w.txs.Len()
		in := w.inject("failAt", 12)
		began := time.Now()
		ctx, err := b.DispatchBegin(background, evs...)
		tr := w.trace()
		vf.Assert((err != nil) == (in.failed != ""), "the outcome of begin is not reported: "+tr)
		vf.Assert(w.events.Len() == 0 && w.ses.Len() == 0, "announced events are already dispatched: "+tr)
		if err != nil {
			vf.Assert(w.txs.Len() == before, "a failed begin leaves a transaction behind: "+tr)
			vf.Assert(errors.Is(b.Commit(ctx), eb.ErrNoTransaction) && errors.Is(b.Rollback(ctx), eb.ErrNoTransaction), "a failed begin can be committed")
			return
		}
		vf.Assert(w.txs.Len() == before+1, "the transaction is not stored: "+tr)
		row := w.txs.Rows()[before]
		id := toInt(row["id"])
		vf.Assert(row["service"] == "svc" && asTime(row["due_time"]).Equal(began.Add(timeout)), "the transaction is not due after its timeout")
		var got []*ddd.DomainEvent
		vf.Assert(json.Unmarshal([]byte(row["events"].(string)), &got) == nil && len(got) == n, "the events of the transaction are not kept")
		for i := range got {
			vf.Assert(got[i].ID == evs[i].ID && got[i].Sender == evs[i].Sender && string(got[i].Payload) == string(evs[i].Payload), "the events of the transaction are not kept")
		}
		commit := vf.Bool("commit")
		finish := func() error {
			if commit {
				return b.Commit(ctx)
			}
			return b.Rollback(ctx)
		}
		err = finish()
		tr = w.trace()
		vf.Assert((err != nil) == (in.failed != ""), "the outcome of the decision is not reported: "+tr)
		dispatched := 0
		for _, e := range evs {
			k, half := w.stored(e.ID)
			vf.Assert(k <= 1 && half == 0, fmt.Sprintf("an event is stored %d times, %d of them without all its delivery records: %s", k, half, tr))
			dispatched += k
		}
		vf.Assert(dispatched == 0 || dispatched == n && commit, fmt.Sprintf("%d of %d events are dispatched: %s", dispatched, n, tr))
		if err == nil {
			vf.Assert(!w.hasTx(id), "a decided transaction stays open: "+tr)
			vf.Assert(!commit || dispatched == n, "a committed transaction dispatches nothing: "+tr)
		} else {
			vf.Assert(w.hasTx(id), "a transaction whose decision failed is gone: "+tr)
			w.st.Before = nil
			vf.Assert(finish() == nil, "the decision cannot be repeated: "+tr)
			tr = w.trace()
			vf.Assert(!w.hasTx(id), "a transaction stays open although it is decided: "+tr)
			vf.Reach("repeated")
		}
		for _, e := range evs {
			k, half := w.stored(e.ID)
			if !commit {
				vf.Assert(k == 0, "an event of a rolled-back transaction is dispatched: "+tr)
				vf.Reach("rolled back")
				continue
			}
			vf.Assert(k == 1 && half == 0, fmt.Sprintf("an event of a committed transaction is stored %d times: %s", k, tr))
			vf.Assert(w.sameContent(e), "the content of a committed event is not kept")
			vf.Reach("committed")
		}
		vf.Assert(w.txs.Len() == before, "another transaction is touched: "+tr)
	})

	// undecided transactions in a poll
	vf.Register("C21.poll", func() { txPoll(false) })
	vf.Register("C21.faults", func() { txPoll(true) })
	// a check-back that panics has not decided: its transaction stays for the
	// next poll, and the other transactions are resolved all the same
	vf.Register("C21.raised", func() {
		w := newWorld()
		b := w.bus("svc", w.db, func(o *eb.Options) { o.RunInterval = interval })
		due := time.Now().Add(-time.Hour)
		n := 2
		if vf.Thorough() {
			n = 3
		}
		sts := []ddd.TXStatus{ddd.TXUnknown, ddd.TXCommit, ddd.TXRollBack}
		var evs []*ddd.DomainEvent
		raises, answer, asked := make([]int, n), make([]ddd.TXStatus, n), make([]int, n)
		for i := 0; i < n; i++ {
			e := event(10+i, "s", time.Unix(946684800, 0).UTC(), ddd.SendTypeTransaction)
			evs = append(evs, e)
			w.putTx(int64(300+i), "svc", due, e)
			raises[i] = vf.Choice("raises", 3) // how many of its check-backs panic
			answer[i] = sts[vf.Choice("answer", 3)]
		}
		b.RegisterEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus {
			for i := range evs {
				if evs[i].ID == e.ID {
					asked[i]++
					if asked[i] <= raises[i] {
						if asked[i] == 2 {
							panic(errors.New("check-back"))
						}
						panic("check-back")
					}
					return answer[i]
				}
			}
			vf.Fail("the check-back is given an unknown event")
			return ddd.TXUnknown
		})
		b.Start(background)
		time.Sleep(time.Second / 2)
		for p := 1; p <= 3; p++ {
			time.Sleep(interval)
			vf.Settle()
			for i := range evs {
				what := fmt.Sprintf("poll %d, transaction %d of %d, %d panics, then %v: ", p, i, n, raises[i], answer[i])
				decided := p > raises[i] && answer[i] != ddd.TXUnknown
				vf.Assert(w.hasTx(int64(300+i)) == !decided, what+"open is wrong")
				k, half := w.stored(evs[i].ID)
				want := 0
				if decided && answer[i] == ddd.TXCommit {
					want = 1
				}
				vf.Assert(k == want && half == 0, what+"its event is stored wrongly")
				if decided {
					vf.Assert(asked[i] == raises[i]+1, what+"asked again")
				} else {
					vf.Assert(asked[i] == p, what+"not asked once in every poll")
				}
			}
			vf.Reach("polled")
		}
	})
	vf.Register("C21.nothing", func() {
		w := newWorld()
		b := w.bus("svc", w.db, nil)
		_, err := b.DispatchBegin(background)
		vf.Assert(err != nil && w.txs.Len() == 0, "an empty transaction is begun")
		vf.Assert(errors.Is(b.Commit(background), eb.ErrNoTransaction), "commit without a transaction succeeds")
		vf.Assert(errors.Is(b.Rollback(background), eb.ErrNoTransaction), "rollback without a transaction succeeds")
		// two buses of one process do not see each other's transactions
		b2 := w.bus("svc2", w.db, nil)
		ctx, err := b.DispatchBegin(background, event(1, "s", time.Now(), ddd.SendTypeTransaction))
		vf.Assert(err == nil, "begin fails")
		vf.Assert(errors.Is(b2.Commit(ctx), eb.ErrNoTransaction), "the transaction of one bus is committed on another")
		vf.Assert(errors.Is(b2.Rollback(ctx), eb.ErrNoTransaction), "the transaction of one bus is rolled back on another")
		vf.Assert(w.txs.Len() == 1 && w.events.Len() == 0, "the transaction of one bus is decided on another")
		vf.Reach("done")
	})
}

type openTx struct {
	id         int64
	service    string
	due        int // seconds after the poll
	evs        []*ddd.DomainEvent
	dispatched bool
	answers    []ddd.TXStatus
}

func txPoll(faults bool) {
	w := newWorld()
	w.service("other")
	b := w.bus("svc", w.db, func(o *eb.Options) { o.RunInterval = interval })
	polls := 2
	n := 2
	if vf.Thorough() {
		n = 3
	}
	first := time.Now().Add(interval)
	sts := []ddd.TXStatus{ddd.TXUnknown, ddd.TXCommit, ddd.TXRollBack}
	var txs []*openTx
	for i := 0; i < n; i++ {
		t := &openTx{id: int64(300 + i), service: "svc", due: -1}
		if !faults {
			if i > 0 {
				t.service = []string{"svc", "other"}[vf.Choice("service", 2)]
			}
			t.due = vf.Int("due", -400_000, 70)
		}
		k := 1
		if i == 0 {
			k = 2
		}
		for j := 0; j < k; j++ {
			t.evs = append(t.evs, event(10*(i+1)+j, "s", time.Unix(946684800, 0).UTC(), ddd.SendTypeTransaction))
		}
		t.dispatched = vf.Bool("dispatched")
		if t.dispatched {
			// an instance stopped between dispatching and finishing
			for _, e := range t.evs {
				id := int64(900 + 10*i + len(e.ID))
				id += int64(e.ID[len(e.ID)-1])
				w.storedEvent(id, e)
				w.events.Set("id", id, "trans_id", t.id)
				for _, s := range []string{"svc", "other"} {
					w.put(&rec{event: id, service: s, next: first, created: first})
				}
			}
		}
		w.putTx(t.id, t.service, secs(first, int64(t.due)), t.evs...)
		txs = append(txs, t)
	}
	b.RegisterEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus {
		for _, t := range txs {
			for _, x := range t.evs {
				if x.ID == e.ID {
					a := sts[vf.Choice("answer", 3)]
					if faults && len(t.answers) > 0 {
						a = t.answers[0] // the outcome of the storage does not change
					}
					t.answers = append(t.answers, a)
					return a
				}
			}
		}
		vf.Fail("the check-back is given an unknown event")
		return ddd.TXUnknown
	})
	num, on, failed := 0, faults, false
	at := 0
	if faults {
		at = vf.Int("failAt", 1, 8+9*n)
	}
	w.st.Before = func(o *symdb.Op) error {
		if !on || o.Kind == "rollback" {
			return nil
		}
		num++
		if num == at {
			failed = true
			return symdb.ErrInjected
		}
		return nil
	}
	b.Start(background)
	for p := 0; p < polls; p++ {
		open := make([]bool, n)
		asked := make([]int, n)
		for i, t := range txs {
			open[i] = w.hasTx(t.id)
			asked[i] = len(t.answers)
		}
		if p == 0 {
			time.Sleep(interval + time.Second/2)
		} else {
			on = false
			time.Sleep(interval)
		}
		vf.Settle()
		tr := w.trace()
		for i, t := range txs {
			due := t.service == "svc" && open[i] && vf.ConcreteBool(t.due < p*60)
			what := fmt.Sprintf("transaction %d (%s, dispatched %v): ", i, t.service, t.dispatched)
			if !due {
				vf.Assert(len(t.answers) == asked[i], what+"asked although it is not due: "+tr)
				vf.Assert(w.hasTx(t.id) == open[i], what+"changed although it is not due: "+tr)
				continue
			}
			if faults && failed && p == 0 {
				if len(t.answers) == asked[i] {
					vf.Assert(w.hasTx(t.id), what+"gone without being asked about: "+tr)
					continue
				}
			} else {
				vf.Assert(len(t.answers) == asked[i]+1, fmt.Sprintf("%sthe check-back is asked %d times: %s", what, len(t.answers)-asked[i], tr))
			}
			a := t.answers[len(t.answers)-1]
			still := w.hasTx(t.id)
			want := 0
			if t.dispatched || a == ddd.TXCommit {
				want = 1
			}
			sum := 0
			for _, e := range t.evs {
				k, half := w.stored(e.ID)
				sum += k
				vf.Assert(k <= want && half == 0, fmt.Sprintf("%sanswer %v, event %s is stored %d times, %d incomplete: %s", what, a, e.ID, k, half, tr))
				if k > 0 {
					vf.Assert(w.sameContent(e), "the content of an event is not kept")
				}
			}
			vf.Assert(sum == 0 || sum == len(t.evs), what+"is half dispatched: "+tr)
			if faults && failed && p == 0 {
				// resolved or left for the next poll
				vf.Assert(still || sum == want*len(t.evs), what+"is gone but not resolved: "+tr)
				continue
			}
			vf.Assert(sum == want*len(t.evs), what+"its events are not dispatched: "+tr)
			vf.Assert(still == (a == ddd.TXUnknown), fmt.Sprintf("%sanswered %v, stays open: %v: %s", what, a, still, tr))
			vf.Reach(fmt.Sprint("answer ", a))
		}
	}
}
