package bus

import (
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"

	"verifharness/vf"
)

// instant gives seconds and nanoseconds, for comparisons without decisions.
func notBefore(a, b time.Time) bool {
	as, bs, an, bn := a.Unix(), b.Unix(), a.Nanosecond(), b.Nanosecond()
	return vf.Or(as > bs, vf.And(as == bs, an >= bn))
}

var intervals = []time.Duration{0, time.Nanosecond, 999999999, time.Second, 90 * time.Second, 36 * time.Hour}

func init() {
	// the strategies by themselves, for any state
	vf.Register("C20.limit", func() {
		limit := vf.Int("limit", -3, 1<<31)
		count := vf.Int("count", 0, 1<<31)
		id := int64(vf.Int("id", 0, 1<<40))
		at := time.Unix(946684800+int64(vf.Int("failed_at", -1000, 1<<32)), int64(vf.Int("failed_at_ns", 0, 999999999))).UTC()
		now := time.Now()
		var s eb.IRetryStrategy
		var d time.Duration
		switch vf.Choice("strategy", 2) {
		case 0:
			s = &eb.LimitRetry{Limit: limit}
		case 1:
			d = intervals[vf.Choice("interval", len(intervals))]
			s = &eb.IntervalRetry{Limit: limit, Interval: d}
		}
		in := eb.RetryInfo{ID: id, RetryCount: count, RetryTime: at}
		x := in
		r := s.Next(&x)
		vf.Assert(vf.And(x.ID == in.ID, x.RetryCount == in.RetryCount) && x.RetryTime.Equal(in.RetryTime), "the strategy changes the state it is asked about")
		vf.Assert((r != nil) == vf.ConcreteBool(count <= limit), "the number of retries is not bounded by the limit")
		again := s.Next(&eb.RetryInfo{ID: id, RetryCount: count, RetryTime: at})
		vf.Assert((again == nil) == (r == nil), "the strategy changes its answer")
		if r == nil {
			vf.Reach("no more")
			return
		}
		vf.Assert(again.RetryCount == r.RetryCount, "the strategy changes its answer")
		vf.Assert(r.ID == id, "the retry belongs to another event")
		vf.Assert(r.RetryCount == count+1, "retry numbers do not increase by one")
		// the failure happened no later than now, and at the time given
		from := at
		if vf.ConcreteBool(notBefore(at, now)) {
			from = now
		}
		vf.Assert(vf.Or(notBefore(r.RetryTime, from.Add(d)), notBefore(r.RetryTime, now.Add(d))), "a retry is scheduled too early")
		if d > 0 {
			limitAt := at
			if vf.ConcreteBool(notBefore(now, at)) {
				limitAt = now
			}
			vf.Assert(notBefore(limitAt.Add(d), r.RetryTime), "a retry is scheduled later than the interval says")
		}
		vf.Reach("retry")
	})

	vf.Register("C20.custom", func() {
		max := 4
		if vf.Thorough() {
			max = 8
		}
		n := vf.Choice("intervals", max+1)
		var l []time.Duration
		for i := 0; i < n; i++ {
			l = append(l, intervals[(i*2+n)%len(intervals)])
		}
		count := vf.Int("count", 0, 1<<31)
		at := time.Unix(946684800+int64(vf.Int("failed_at", -1000, 1<<32)), 5).UTC()
		now := time.Now()
		s := &eb.CustomRetry{Intervals: l}
		r := s.Next(&eb.RetryInfo{ID: 7, RetryCount: count, RetryTime: at})
		vf.Assert((r != nil) == vf.ConcreteBool(count < n), "the number of retries is not the number of intervals")
		if r == nil {
			vf.Reach("no more")
			return
		}
		c := vf.Concrete(count)
		vf.Assert(r.RetryCount == c+1 && r.ID == 7, "retry numbers do not increase by one")
		from, to := at, now
		if vf.ConcreteBool(notBefore(at, now)) {
			from, to = now, at
		}
		vf.Assert(vf.And(notBefore(r.RetryTime, from.Add(l[c])), notBefore(to.Add(l[c]), r.RetryTime)), fmt.Sprintf("retry %d is not scheduled by its own interval", c+1))
		vf.Reach("retry")
	})

	// a chain of retries, starting at the first failure: its length and its spacing
	vf.Register("C20.chain", func() {
		var s eb.IRetryStrategy
		want := 0
		var d []time.Duration
		switch vf.Choice("strategy", 3) {
		case 0:
			l := vf.Choice("limit", 5) - 1
			s, want = &eb.LimitRetry{Limit: l}, l+1
			d = make([]time.Duration, want)
		case 1:
			l := vf.Choice("limit", 5) - 1
			x := intervals[vf.Choice("interval", len(intervals))]
			s, want = &eb.IntervalRetry{Limit: l, Interval: x}, l+1
			for i := 0; i < want; i++ {
				d = append(d, x)
			}
		case 2:
			want = vf.Choice("intervals", 4)
			for i := 0; i < want; i++ {
				d = append(d, intervals[vf.Choice("interval", len(intervals))])
			}
			s = &eb.CustomRetry{Intervals: append([]time.Duration{}, d...)}
		}
		info := eb.RetryInfo{ID: 3, RetryTime: time.Now()}
		for i := 0; ; i++ {
			failed := time.Now()
			info.RetryTime = failed
			r := s.Next(&info)
			if r == nil {
				vf.Assert(i == want, fmt.Sprintf("%d retries instead of %d", i, want))
				vf.Reach("end")
				return
			}
			vf.Assert(i < want, fmt.Sprintf("more than %d retries", want))
			vf.Assert(!r.RetryTime.Before(failed.Add(d[i])), "a retry is scheduled too early")
			vf.Assert(r.RetryCount == i+1, "retry numbers do not increase by one")
			time.Sleep(d[i] + time.Duration(vf.Choice("late", 2))*time.Second)
			info = *r
		}
	})

	// the whole way through the bus: a handler that always fails
	vf.Register("C20.bus", func() {
		w := newWorld()
		want := 0
		var d time.Duration
		var list []time.Duration
		every := []time.Duration{time.Second, 90 * time.Second}
		b := w.bus("svc", w.db, func(o *eb.Options) {
			o.RunInterval = interval
			switch vf.Choice("options", 6) {
			case 0:
				l := vf.Choice("limit", 3)
				o.RetryStrategy, want = &eb.LimitRetry{Limit: l}, l+1
			case 1:
				l := vf.Choice("limit", 3)
				d = every[vf.Choice("interval", 2)]
				o.RetryInterval, o.RetryLimit, want = d, l, l+1
			case 2:
				want = 1 + vf.Choice("intervals", 2)
				for i := 0; i < want; i++ {
					list = append(list, every[vf.Choice("interval", 2)])
				}
				o.CustomRetry = list
			case 3:
				// nothing configured: the default, five at three seconds
				d, want = 3*time.Second, 6
			case 4:
				// a strategy is stronger than the other two
				o.RetryStrategy, want = &eb.LimitRetry{Limit: 0}, 1
				o.RetryInterval, o.RetryLimit = time.Hour, 5
				o.CustomRetry = every
			case 5:
				// an interval is stronger than a list
				d = 90 * time.Second
				o.RetryInterval, o.RetryLimit, want = d, 1, 2
				o.CustomRetry = []time.Duration{time.Hour, time.Hour, time.Hour}
			}
		})
		panics := vf.Bool("panics")
		var calls []time.Time
		h := &handler{}
		h.outcome = func(n int) int {
			calls = append(calls, time.Now())
			if panics {
				return 2
			}
			return 1
		}
		b.RegisterEventHandler(h.handle)
		if err := b.Dispatch(background, event(1, "s", time.Now(), ddd.SendTypeNormal)); err != nil {
			vf.Fail("dispatch: " + err.Error())
		}
		b.Start(background)
		time.Sleep(time.Duration(2*want+3)*interval + time.Second)
		vf.Settle()
		r := w.ses.Rows()[0]
		vf.Assert(len(calls) == want+1, fmt.Sprintf("%d deliveries of a failing event instead of 1+%d: status %v: %v", len(calls), want, r["status"], calls))
		vf.Assert(toInt(r["status"]) == 21, fmt.Sprintf("a given-up delivery is recorded as %v", r["status"]))
		vf.Assert(toInt(r["retry_count"]) == int64(want), "the number of retries is recorded wrongly")
		for i := 1; i < len(calls); i++ {
			x := d
			if list != nil {
				x = list[i-1]
			}
			gap := calls[i].Sub(calls[i-1])
			vf.Assert(gap >= x, fmt.Sprintf("retry %d comes after %v instead of %v", i, gap, x))
			vf.Assert(gap < x+interval+time.Second, fmt.Sprintf("retry %d comes after %v, longer than the interval and one poll", i, gap))
		}
		vf.Reach("given up")
	})
}

// secs is the time some seconds after t, as it can be stored.
func secs(t time.Time, n int64) time.Time {
	return time.Unix(t.Unix()+n, int64(t.Nanosecond()/1000000*1000000)).UTC()
}
