package bus

import (
	"encoding/json"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/symdb"
	"verifharness/vf"
)

func init() {
	vf.Register("C17.dispatch", func() {
		w := newWorld()
		others := vf.Choice("services", 3)
		names := [][]string{{"other0", "other1"}, {"svc-of-the-orders", "svc-of-the-other"}}[vf.Choice("names", 2)]
		w.service(names[:others]...)
		b := w.bus("svc", w.db, nil)
		if w.servs.Len() != others+1 {
			vf.Fail("the service is not registered")
		}
		max := 2
		if vf.Thorough() {
			max = 3
		}
		n := 1 + vf.Choice("events", max)
		now := time.Now()
		var evs []*ddd.DomainEvent
		for i := 0; i < n; i++ {
			sender := []string{"", "s"}[vf.Choice("sender", 2)]
			typ := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO}[vf.Choice("type", 2)]
			evs = append(evs, event(i, sender, now.Add(0).UTC(), typ))
			evs[i].CreatedAt = time.Unix(946684000+int64(vf.Choice("at", 2)), 999_000_000).UTC()
		}
		before := w.ses.Len()
		in := w.inject("failAt", 8)
		err := b.Dispatch(background, evs...)
		w.st.Before = nil
		tr := w.trace()
		if in.failed != "" {
			vf.Assert(err != nil, "a failing statement is not reported: "+tr)
			vf.Assert(errors.Is(err, symdb.ErrInjected), "the cause of a failed dispatch is lost: "+tr)
		} else {
			vf.Assert(err == nil, fmt.Sprintf("the dispatch fails without reason: %v: %s", err, tr))
		}
		if err != nil {
			vf.Assert(w.events.Len() == 0, fmt.Sprintf("a failed dispatch leaves %d events behind: %s", w.events.Len(), tr))
			vf.Assert(w.ses.Len() == before, fmt.Sprintf("a failed dispatch leaves %d delivery records behind: %s", w.ses.Len(), tr))
			vf.Reach("failed")
			return
		}
		rows := w.events.Rows()
		vf.Assert(len(rows) == n, "not every event is stored once: "+tr)
		ids := map[int64]int{}
		last := int64(0)
		for i, r := range rows {
			id := toInt(r["id"])
			vf.Assert(id > last, "events are stored out of order")
			last = id
			ids[id] = i
			vf.Assert(r["event_id"] == evs[i].ID && r["sender"] == evs[i].Sender, "another event is stored than was dispatched: "+tr)
			vf.Assert(asTime(r["event_created_at"]).Equal(evs[i].CreatedAt), "the creation time of an event is not kept: "+tr)
			var got ddd.DomainEvent
			s, _ := r["event"].(string)
			vf.Assert(json.Unmarshal([]byte(s), &got) == nil, "the stored event cannot be decoded: "+s)
			vf.Assert(got.ID == evs[i].ID && got.Type == evs[i].Type && got.Sender == evs[i].Sender && got.SendType == evs[i].SendType && string(got.Payload) == string(evs[i].Payload), "the content of an event is not kept")
			vf.Assert(got.CreatedAt.Equal(evs[i].CreatedAt), "the creation time in the event is not kept")
		}
		count := map[string]int{}
		for _, r := range w.ses.Rows() {
			i, ok := ids[toInt(r["event_id"])]
			vf.Assert(ok, "a delivery record refers to no event: "+tr)
			svc, _ := r["service"].(string)
			count[fmt.Sprint(svc, "/", i)]++
			vf.Assert(toInt(r["status"]) == 0 && toInt(r["retry_count"]) == 0, "a delivery record does not start pending: "+tr)
			vf.Assert(!asTime(r["next_time"]).After(time.Now()), "a delivery record is not due at once: "+tr)
			vf.Assert(asTime(r["event_created_at"]).Equal(evs[i].CreatedAt), "a delivery record does not carry the creation time of its event: "+tr)
		}
		vf.Assert(w.ses.Len() == n*(others+1), fmt.Sprintf("%d delivery records for %d events and %d services: %s", w.ses.Len(), n, others+1, tr))
		for _, r := range w.servs.Rows() {
			for i := range evs {
				vf.Assert(count[fmt.Sprint(r["name"], "/", i)] == 1, fmt.Sprintf("no delivery record for service %v: %s", r["name"], tr))
			}
		}
		vf.Reach("dispatched")
	})
}
