package bus

import (
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"

	"verifharness/symdb"
	"verifharness/vf"
)

type cleanRec struct {
	event         int64
	mine, other   int // status of the records, -1 none
	more          int // records of further services
	age           int // seconds before the cleaning
	eligible      bool
	eventMustStay bool
}

func (w *world) hasEvent(id int64) bool {
	for _, r := range w.events.Rows() {
		if toInt(r["id"]) == id {
			return true
		}
	}
	return false
}

// cleaning runs one cleaning over the records and compares.
func cleaning(w *world, b *eb.EventBus, at time.Time, retention int, recs []*cleanRec) {
	for _, r := range recs {
		created := secs(at, -int64(r.age))
		w.storedEvent(r.event, event(int(r.event), "s", time.Unix(946684800, 0).UTC(), ddd.SendTypeNormal))
		w.setEventTime(r.event, created)
		if r.mine >= 0 {
			w.put(&rec{event: r.event, service: "svc", status: r.mine, next: at, created: created})
		}
		if r.other >= 0 {
			w.put(&rec{event: r.event, service: "other", status: r.other, next: at, created: created})
		}
		for i := 0; i < r.more; i++ {
			w.put(&rec{event: r.event, service: fmt.Sprint("more", i), status: 10, next: at, created: created})
		}
	}
	b.Start(background)
	time.Sleep(at.Sub(time.Now()) + time.Second/2)
	vf.Settle()
	tr := w.trace()
	for _, r := range recs {
		what := fmt.Sprintf("event %d (status %d, of the other service %d): ", r.event, r.mine, r.other)
		eligible := r.mine == 10 && vf.ConcreteBool(r.age > retention)
		mine, other := w.rec("svc", r.event), w.rec("other", r.event)
		vf.Assert((other != nil) == (r.other >= 0), what+"the record of another service is removed: "+tr)
		for i := 0; i < r.more; i++ {
			vf.Assert(w.rec(fmt.Sprint("more", i), r.event) != nil, what+"the record of a further service is removed: "+tr)
		}
		if r.mine < 0 {
			vf.Assert(mine == nil && w.hasEvent(r.event), what+"an event without a record of the service is touched: "+tr)
			continue
		}
		if !eligible {
			vf.Assert(mine != nil, what+"a record that is needed is removed: "+tr)
			vf.Assert(toInt(mine["status"]) == int64(r.mine), what+"the status is changed by cleaning: "+tr)
			vf.Assert(w.hasEvent(r.event), what+"the event is removed while a record refers to it: "+tr)
			vf.Reach("kept")
			continue
		}
		vf.Assert(mine == nil, what+"a finished record past its retention time is not removed: "+tr)
		vf.Assert(w.hasEvent(r.event) == (r.other >= 0 || r.more > 0), fmt.Sprintf("%sthe event stays %v: %s", what, w.hasEvent(r.event), tr))
		vf.Reach("removed")
	}
}

func init() {
	vf.Register("C22.which", func() {
		w := newWorld()
		ret := []time.Duration{0, time.Hour, 48 * time.Hour}[vf.Choice("retention", 3)]
		if ret == 0 && !vf.Bool("set") {
			ret = 48 * time.Hour // the default
		}
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.CleanCron = "0 1 * * * *"
			o.RunInterval = 10 * time.Hour
			o.RetentionTime = ret
		})
		w.service("other")
		at := time.Unix(946684800+60, 0)
		n := 2
		if vf.Thorough() {
			n = 3
		}
		all := []int{10, 0, 21, 31, -1}
		var recs []*cleanRec
		for i := 0; i < n; i++ {
			r := &cleanRec{event: int64(20 + i)}
			r.mine = all[vf.Choice("status", 5)]
			r.other = all[vf.Choice("other", 5)]
			r.age = vf.Int("age", 1, 100*3600)
			if i == 0 {
				r.more = []int{0, 3}[vf.Choice("more", 2)]
			}
			recs = append(recs, r)
		}
		cleaning(w, b, at, int(ret/time.Second), recs)
	})

	// any number of them
	vf.Register("C22.number", func() {
		w := newWorld()
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.CleanCron = "0 1 * * * *"
			o.RunInterval = 10 * time.Hour
			o.RetentionTime = time.Hour
		})
		w.service("other")
		max := 32
		if vf.Thorough() {
			max = 64
		}
		n := vf.Choice("number", max)
		keep := vf.Choice("keep", 4) // some are held by the other service
		var recs []*cleanRec
		for i := 0; i < n; i++ {
			r := &cleanRec{event: int64(20 + i), mine: 10, other: -1, age: 7200}
			if keep > 0 && i%(2*keep) == keep-1 {
				r.other = 0
			}
			if keep == 3 && i%7 == 3 {
				r.mine = 0
			}
			if keep == 2 {
				r.more = i % 5
			}
			recs = append(recs, r)
		}
		cleaning(w, b, time.Unix(946684800+60, 0), 3600, recs)
	})

	// a failing statement: nothing is removed that should stay, and the next cleaning finishes
	vf.Register("C22.faults", func() {
		w := newWorld()
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.CleanCron = "0 * * * * *"
			o.RunInterval = 10 * time.Hour
			o.RetentionTime = time.Hour
		})
		w.service("other")
		at := time.Unix(946684800+60, 0)
		n := 12
		var recs []*cleanRec
		for i := 0; i < n; i++ {
			r := &cleanRec{event: int64(20 + i), mine: 10, other: -1, age: 7200}
			if i == 3 || i == 11 {
				r.other = 10
			}
			if i == 5 {
				r.mine = 0
			}
			recs = append(recs, r)
			created := secs(at, -int64(r.age))
			w.storedEvent(r.event, event(int(r.event), "s", created, ddd.SendTypeNormal))
			w.put(&rec{event: r.event, service: "svc", status: r.mine, next: at, created: created})
			if r.other >= 0 {
				w.put(&rec{event: r.event, service: "other", status: r.other, next: at, created: created})
			}
		}
		in := w.inject("failAt", 20)
		b.Start(background)
		time.Sleep(90 * time.Second)
		vf.Settle()
		tr := w.trace()
		for _, r := range recs {
			mine := w.rec("svc", r.event)
			vf.Assert((w.rec("other", r.event) != nil) == (r.other >= 0), "the record of another service is removed: "+tr)
			if r.mine == 0 {
				vf.Assert(mine != nil && w.hasEvent(r.event), "a pending record or its event is removed: "+tr)
			}
			if mine != nil || r.other >= 0 {
				vf.Assert(w.hasEvent(r.event), "an event is removed while a record refers to it: "+tr)
			}
		}
		w.st.Before = nil
		time.Sleep(time.Minute)
		vf.Settle()
		tr = w.trace()
		for _, r := range recs {
			mine := w.rec("svc", r.event)
			vf.Assert((mine != nil) == (r.mine == 0), "the next cleaning does not finish the work: "+tr)
			if in.failed == "" {
				vf.Assert(w.hasEvent(r.event) == (r.mine == 0 || r.other >= 0), "events are not cleaned: "+tr)
			}
		}
		vf.Reach("done")
	})

	// the default schedule: once a day, at two
	vf.Register("C22.default", func() {
		w := newWorld()
		b := eb.NewEventBus("svc", w.db, func(o *eb.Options) { o.RunInterval = 1000 * time.Hour })
		var at []time.Time
		w.st.Before = func(o *symdb.Op) error {
			if strings.Contains(o.SQL, "FOR UPDATE") && strings.Contains(o.SQL, tSE) {
				at = append(at, time.Now())
			}
			return nil
		}
		b.Start(background)
		days := 3
		time.Sleep(time.Duration(days) * 24 * time.Hour)
		vf.Settle()
		vf.Assert(len(at) == days, fmt.Sprintf("cleaning runs %d times in %d days: %v", len(at), days, at))
		for _, t := range at {
			vf.Assert(t.Hour() == 2 && t.Minute() == 0, fmt.Sprintf("cleaning runs at %v", t))
		}
		vf.Reach("days")
	})
}
