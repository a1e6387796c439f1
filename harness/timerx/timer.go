// Package timerx checks the timer kept in a SQL table.
package timerx

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	dt "github.com/bytedance/dddfirework/d_timer/sql"
	"github.com/go-logr/logr"
	"gorm.io/gorm"

	"verifharness/symdb"
	"verifharness/vf"
)

const interval = time.Minute

var (
	ctx         = context.Background()
	errCallback = errors.New("callback failed")
)

type call struct {
	inst, key, cron, data string
	outcome               int
}

type world struct {
	st       *symdb.Store
	db       *gorm.DB
	tab      *symdb.Table
	mu       sync.Mutex
	calls    []call
	outcomes int
}

func newWorld() *world {
	w := &world{st: symdb.New(), outcomes: 1}
	w.db = w.st.Open("main", nil)
	w.tab = w.st.CreateTable(w.db, &dt.TimerJob{})
	return w
}

func (w *world) handler(inst string) ddd.TimerHandler {
	return func(ctx context.Context, key, cron string, data []byte) error {
		o := vf.Choice("outcome", w.outcomes)
		w.mu.Lock()
		w.calls = append(w.calls, call{inst, key, cron, string(data), o})
		w.mu.Unlock()
		switch o {
		case 1:
			return errCallback
		case 2:
			panic("callback panics")
		}
		return nil
	}
}

func (w *world) timer(service, inst string, db *gorm.DB) *dt.DBTimer {
	t := dt.NewDBTimer(service, db, func(o *dt.Options) {
		o.RunInterval = interval
		o.Logger = logr.Discard()
	})
	t.RegisterTimerHandler(w.handler(inst))
	return t
}

func (w *world) count(key string) (n int) {
	for _, c := range w.calls {
		if c.key == key {
			n++
		}
	}
	return
}

func (w *world) row(key string) map[string]any {
	for _, r := range w.tab.Rows() {
		if r["key"] == key {
			return r
		}
	}
	return nil
}

func (w *world) trace() string {
	var s []string
	for _, o := range w.st.Ops {
		k := o.Kind
		if o.Err != nil {
			k += "!"
		}
		s = append(s, k)
	}
	return fmt.Sprintf("%v %s", w.calls, strings.Join(s, " "))
}

func str(v any) string {
	s, _ := v.(string)
	return s
}

func asTime(v any) time.Time {
	t, ok := v.(time.Time)
	if !ok {
		vf.Fail("not a time")
	}
	return t
}

// An expr is a cron expression with its meaning, written down independently.
type expr struct {
	cron string
	next func(t time.Time) time.Time // zero: never
}

func step(t time.Time, d time.Duration) time.Time { return t.Truncate(d).Add(d) }

var exprs = []expr{
	{"0 * * * * *", func(t time.Time) time.Time { return step(t, time.Minute) }},
	{"0/1 * * * * ?", func(t time.Time) time.Time { return step(t, time.Second) }},
	{"15,45 * * * * *", func(t time.Time) time.Time {
		u := t.Truncate(time.Minute)
		for _, s := range []int{15, 45, 75} {
			if n := u.Add(time.Duration(s) * time.Second); n.After(t) {
				return n
			}
		}
		return time.Time{}
	}},
	{"0 30 1 * * *", func(t time.Time) time.Time {
		n := time.Date(t.Year(), t.Month(), t.Day(), 1, 30, 0, 0, time.UTC)
		if !n.After(t) {
			n = n.AddDate(0, 0, 1)
		}
		return n
	}},
	{"@every 90s", func(t time.Time) time.Time { return t.Truncate(time.Second).Add(90 * time.Second) }},
	{"@monthly", func(t time.Time) time.Time {
		return time.Date(t.Year(), t.Month()+1, 1, 0, 0, 0, 0, time.UTC)
	}},
}

// starts are times of day at which the harness begins.
var starts = []time.Duration{7 * time.Second, time.Hour + 29*time.Minute - 30*time.Second, 31*24*time.Hour - time.Minute}

const (
	active   = int64(1)
	finished = int64(2)
)

type job struct {
	id      int64
	service string
	key     string
	e       int // expression, -1 one shot, -2 a broken one
	next    time.Time
	status  int64
	data    string
}

func (j *job) cron() string {
	switch j.e {
	case -1:
		return ""
	case -2:
		return "bad"
	}
	return exprs[j.e].cron
}

func (w *world) put(j *job) {
	w.tab.Put(map[string]any{"id": j.id, "service": j.service, "key": j.key, "cron": j.cron(), "next_time": j.next, "status": j.status, "payload": j.data, "created_at": j.next})
}

func (w *world) same(j *job, r map[string]any) bool {
	return r != nil && vf.And(asTime(r["next_time"]).Equal(j.next), r["status"] == j.status) && r["service"] == j.service && str(r["cron"]) == j.cron() && str(r["payload"]) == j.data
}

func init() {
	// one poll over any jobs
	poll := func(name string, jobs, ne int, thoroughJobs int) {
		vf.Register(name, func() {
			w := newWorld()
			w.outcomes = 3
			time.Sleep(starts[vf.Choice("start", len(starts))])
			t := w.timer("svc", "a", w.db)
			at := time.Now().Add(interval)
			n := jobs
			if vf.Thorough() {
				n = thoroughJobs
			}
			var js []*job
			for i := 0; i < n; i++ {
				j := &job{id: int64(20 + i), service: "svc", key: fmt.Sprintf("k%d", i), status: active, data: []string{"", "some data"}[i%2]}
				j.e = vf.Choice("kind", ne+2) - 2
				if i == 0 {
					j.status = int64(1 + vf.Choice("status", 3))
					j.service = []string{"svc", "other"}[vf.Choice("service", 2)]
				}
				j.next = time.Unix(at.Unix()+int64(vf.Int("next", -30, 30)), 0).UTC()
				js = append(js, j)
				w.put(j)
			}
			t.Start(ctx)
			time.Sleep(interval + time.Second/2)
			vf.Settle()
			tr := w.trace()
			for _, j := range js {
				what := fmt.Sprintf("job %s %q (service %s, status %d): ", j.key, j.cron(), j.service, j.status)
				due := j.service == "svc" && j.status == active && vf.ConcreteBool(!j.next.After(at))
				r := w.row(j.key)
				if !due {
					vf.Assert(w.count(j.key) == 0, what+"fires although it is not due: "+tr)
					vf.Assert(w.same(j, r), what+"is changed although it is not due: "+tr)
					continue
				}
				vf.Assert(w.count(j.key) == 1, fmt.Sprintf("%sfires %d times in the poll in which it is due: %s", what, w.count(j.key), tr))
				for _, c := range w.calls {
					if c.key == j.key {
						vf.Assert(c.cron == j.cron() && c.data == j.data, what+"the callback is given something else: "+tr)
					}
				}
				vf.Assert(r != nil, what+"is gone after it fired: "+tr)
				vf.Assert(str(r["payload"]) == j.data && str(r["cron"]) == j.cron() && r["service"] == j.service, what+"its data are changed: "+tr)
				switch {
				case j.e == -2:
					vf.Assert(r["status"] != active, what+"a job whose expression is broken stays active: "+tr)
				case j.e == -1:
					vf.Assert(r["status"] == finished, fmt.Sprintf("%sis recorded as %v after it fired: %s", what, r["status"], tr))
					vf.Reach("finished")
				default:
					vf.Assert(r["status"] == active, fmt.Sprintf("%sis recorded as %v after it fired: %s", what, r["status"], tr))
					want := exprs[j.e].next(at)
					vf.Assert(asTime(r["next_time"]).Equal(want), fmt.Sprintf("%snext time %v, should be %v", what, r["next_time"], want))
					vf.Reach("again")
				}
			}
			vf.Assert(w.tab.Len() == n, "jobs appear or disappear: "+tr)
		})
	}
	poll("C26.due", 2, 2, 3)
	poll("C26.kinds", 1, len(exprs), 2)

	// a failing statement anywhere
	vf.Register("C26.faults", func() {
		w := newWorld()
		w.outcomes = 3
		t := w.timer("svc", "a", w.db)
		at := time.Now().Add(interval)
		n := 2
		if vf.Thorough() {
			n = 3
		}
		var js []*job
		for i := 0; i < n; i++ {
			j := &job{id: int64(20 + i), service: "svc", key: fmt.Sprintf("k%d", i), status: active, e: vf.Choice("kind", 2) - 1, next: at.Truncate(time.Second)}
			js = append(js, j)
			w.put(j)
		}
		fail, num, failed, scan, on := vf.Int("failAt", 0, 2+4*n), 0, 0, false, true
		w.st.Before = func(o *symdb.Op) error {
			if !on || o.Kind == "rollback" {
				return nil
			}
			if num++; num == fail {
				failed++
				scan = o.Kind == "select" && !o.InTx
				return symdb.ErrInjected
			}
			return nil
		}
		t.Start(ctx)
		time.Sleep(interval + time.Second/2)
		vf.Settle()
		on = false
		tr := w.trace()
		fired, missing := map[string]int{}, 0
		for _, j := range js {
			fired[j.key] = w.count(j.key)
			if fired[j.key] == 0 {
				missing++
			}
			vf.Assert(fired[j.key] <= 1, "a job fires twice in one poll: "+tr)
			r := w.row(j.key)
			vf.Assert(r != nil, "a job is lost: "+tr)
			if !w.same(j, r) {
				vf.Assert(fired[j.key] == 1, "a job is advanced without having fired: "+tr)
			}
		}
		vf.Assert(scan || missing <= failed, fmt.Sprintf("%d jobs do not fire after one failing statement: %s", missing, tr))
		pending := map[string]bool{}
		for _, j := range js {
			pending[j.key] = w.same(j, w.row(j.key))
		}
		w.calls = nil
		time.Sleep(interval)
		vf.Settle()
		for _, j := range js {
			if pending[j.key] || j.e >= 0 {
				vf.Assert(w.count(j.key) == 1, fmt.Sprintf("job %s fires %d times in the next poll: %s", j.key, w.count(j.key), w.trace()))
				if pending[j.key] {
					vf.Reach("again")
				}
			} else {
				vf.Assert(w.count(j.key) == 0, "a finished job fires again: "+w.trace())
			}
		}
	})

	// several instances poll the same jobs at the same time
	vf.Register("C26.instances", func() {
		w := newWorld()
		w.outcomes = 2
		k, n, pre := 2, 2, 2
		if vf.Thorough() {
			pre = 3
		}
		at := time.Now().Add(interval)
		var js []*job
		for i := 0; i < n; i++ {
			j := &job{id: int64(20 + i), service: "svc", key: fmt.Sprintf("k%d", i), status: active, e: []int{-1, 0}[i%2], next: at.Truncate(time.Second)}
			js = append(js, j)
			w.put(j)
		}
		for i := 0; i < k; i++ {
			inst := fmt.Sprintf("i%d", i)
			w.timer("svc", inst, w.st.Open(inst, nil)).Start(ctx)
		}
		w.st.Sched = symdb.NewSched(pre)
		for p := 1; p <= 2; p++ {
			w.calls = nil
			time.Sleep(interval + time.Second/4)
			now := time.Now()
			vf.Assert(w.st.Sched.Run(), "the instances wait for each other: "+w.trace())
			tr := w.trace()
			for _, j := range js {
				want := 1
				if p == 2 && j.e < 0 {
					want = 0
				}
				vf.Assert(w.count(j.key) == want, fmt.Sprintf("job %s fires %d times in poll %d of %d instances: %s", j.key, w.count(j.key), p, k, tr))
				r := w.row(j.key)
				if j.e < 0 {
					vf.Assert(r["status"] == finished, "a fired one-shot job is not finished: "+tr)
				} else {
					vf.Assert(r["status"] == active && asTime(r["next_time"]).After(now), "a fired cron job is not active with a time in the future: "+tr)
				}
			}
		}
		vf.Reach("polled")
	})

	// any sequence of registrations, cancellations and polls, by two services
	vf.Register("C26.register", func() {
		w := newWorld()
		w.outcomes = 1
		steps, all := 3, 1
		if vf.Thorough() {
			all = 2
		}
		time.Sleep(7 * time.Second)
		names := []string{"svc", "other"}
		var ts []*dt.DBTimer
		for _, s := range names {
			t := w.timer(s, s, w.db)
			t.Start(ctx)
			ts = append(ts, t)
		}
		// the polls are at whole minutes after 0:00:07; everything else happens a little later
		time.Sleep(time.Second + 300*time.Millisecond)
		model := map[string]*job{}
		model["q"] = &job{id: 90, service: "other", key: "q", e: 3, next: exprs[3].next(time.Now()), status: active, data: "other's"}
		w.put(model["q"])
		for s := 0; s < steps; s++ {
			w.calls = nil
			what := vf.Choice("step", 5)
			key, i := "_", 0
			if what < 4 {
				key = []string{"_", "q"}[vf.Choice("key", 2)]
				i = vf.Choice("service", 2)
			}
			t, name := ts[i], names[i]
			now := time.Now()
			data := fmt.Sprintf("data %d", s)
			old := model[key]
			switch what {
			case 0: // a cron job
				e := (s + vf.Choice("expression", all)) % 2
				err := t.RunCron(key, exprs[e].cron, []byte(data))
				switch {
				case old == nil:
					vf.Assert(err == nil, fmt.Sprintf("a new job is refused: %v", err))
					model[key] = &job{service: name, key: key, e: e, next: exprs[e].next(now), status: active, data: data}
					vf.Reach("cron")
				case old.service == name:
					vf.Assert(err == nil, fmt.Sprintf("registering an existing key again fails: %v", err))
				}
			case 1: // a broken one
				bad := []string{"bad", "0 0 0 30 2 *", "0 0", "61 * * * * *"}[vf.Choice("expression", 2*all)]
				err := t.RunCron(key, bad, []byte(data))
				vf.Assert(err != nil || old != nil, "an expression that never comes true is accepted: "+bad)
				vf.Reach("refused")
			case 2: // once
				off := time.Duration([]int{-1, 30, 90, -3600}[vf.Choice("when", 2+all)]) * time.Second
				err := t.RunOnce(key, now.Add(off), []byte(data))
				switch {
				case off < 0:
					vf.Assert(errors.Is(err, dt.ErrTimerOverdue), fmt.Sprintf("a time in the past is accepted: %v", err))
				case old == nil:
					vf.Assert(err == nil, fmt.Sprintf("a new job is refused: %v", err))
					// to the precision of the column
					model[key] = &job{service: name, key: key, e: -1, next: now.Add(off).Round(time.Second), status: active, data: data}
					vf.Reach("once")
				case old.service == name:
					vf.Assert(err == nil, fmt.Sprintf("registering an existing key again fails: %v", err))
				}
			case 3:
				err := t.Cancel(key)
				if old != nil && old.service == name {
					vf.Assert(err == nil, fmt.Sprintf("a job cannot be cancelled: %v", err))
					delete(model, key)
					vf.Reach("cancelled")
				} else if old == nil {
					vf.Assert(err == nil, fmt.Sprintf("cancelling what does not exist fails: %v", err))
				}
			case 4: // the next poll
				time.Sleep(interval)
				vf.Settle()
				at := time.Now().Add(-1300 * time.Millisecond)
				for _, k := range []string{"_", "q"} {
					want := 0
					if j := model[k]; j != nil && j.status == active && !j.next.After(at) {
						want = 1
						vf.Reach("fired")
						for _, c := range w.calls {
							if c.key == k {
								vf.Assert(c.inst == j.service && c.cron == j.cron() && c.data == j.data, "the callback is given something else: "+w.trace())
							}
						}
						if j.e < 0 {
							j.status = finished
						} else {
							j.next = exprs[j.e].next(at)
						}
					}
					vf.Assert(w.count(k) == want, fmt.Sprintf("job %s fires %d times, should %d: %s", k, w.count(k), want, w.trace()))
				}
			}
			for _, k := range []string{"_", "q"} {
				r := w.row(k)
				if model[k] == nil {
					vf.Assert(r == nil, "there is a job "+k+" that was refused or cancelled: "+w.trace())
					continue
				}
				vf.Assert(w.same(model[k], r), fmt.Sprintf("job %s is %v, should be %+v: %s", k, r, *model[k], w.trace()))
			}
		}
	})

	// instances of a service register the same key at the same time
	vf.Register("C26.together", func() {
		w := newWorld()
		k := 2
		if vf.Thorough() {
			k = 3
		}
		errs := make([]error, k)
		for i := 0; i < k; i++ {
			inst := fmt.Sprintf("i%d", i)
			t := w.timer("svc", inst, w.st.Open(inst, nil))
			go func() {
				if vf.Symbolic() {
					_ = i
				}
				errs[i] = t.RunCron("k", exprs[0].cron, []byte("data"))
			}()
		}
		w.st.Sched = symdb.NewSched(3)
		vf.Assert(w.st.Sched.Run(), "the registrations wait for each other: "+w.trace())
		for _, err := range errs {
			vf.Assert(err == nil, fmt.Sprintf("registering a key that another instance registers at the same moment fails: %v: %s", err, w.trace()))
		}
		r := w.row("k")
		vf.Assert(w.tab.Len() == 1 && r != nil && r["status"] == active && str(r["cron"]) == exprs[0].cron && str(r["payload"]) == "data", "the job is not stored once: "+w.trace())
		vf.Reach("registered")
	})

	// jobs that are due before there is a handler wait for it
	vf.Register("C26.early", func() {
		w := newWorld()
		t := dt.NewDBTimer("svc", w.db, func(o *dt.Options) {
			o.RunInterval = interval
			o.Logger = logr.Discard()
		})
		j := &job{id: 20, service: "svc", key: "k", status: active, e: vf.Choice("kind", 2) - 1, next: time.Now().Truncate(time.Second)}
		w.put(j)
		t.Start(ctx)
		polls := vf.Choice("polls", 3)
		time.Sleep(time.Duration(polls)*interval + time.Second)
		vf.Settle()
		vf.Assert(w.same(j, w.row("k")), "a job is taken although there is no handler: "+w.trace())
		t.RegisterTimerHandler(w.handler("a"))
		time.Sleep(interval)
		vf.Settle()
		vf.Assert(w.count("k") == 1, "a job that was due before the handler came does not fire: "+w.trace())
		vf.Reach("fired")
	})
}

func init() {
	// many due jobs in one poll
	vf.Register("C26.sizes", func() {
		w := newWorld()
		s := []int{1, 12, 33, 70, 130}
		if vf.Thorough() {
			s = append(s, 2, 21, 51, 101, 257)
		}
		n := s[vf.Choice("how_many", len(s))]
		t := w.timer("svc", "a", w.db)
		at := time.Now().Add(interval)
		kind := vf.Choice("kind", 3) // one shot, cron, both
		var js []*job
		for i := 0; i < n; i++ {
			j := &job{id: int64(20 + i), service: "svc", key: fmt.Sprintf("k%d", i), status: active, data: "some data", next: at.Truncate(time.Second), e: -1}
			if kind == 1 || kind == 2 && i%2 == 0 {
				j.e = 0
			}
			js = append(js, j)
			w.put(j)
		}
		t.Start(ctx)
		time.Sleep(interval + time.Second/2)
		vf.Settle()
		count := map[string]int{}
		for _, c := range w.calls {
			count[c.key]++
		}
		for _, j := range js {
			vf.Assert(count[j.key] == 1, fmt.Sprintf("one of %d due jobs fires %d times", n, count[j.key]))
		}
		for i, r := range w.tab.Rows() {
			if js[i].e == -1 {
				vf.Assert(r["status"] == finished, "a job that fired is not finished")
			} else {
				vf.Assert(r["status"] == active && asTime(r["next_time"]).After(at), "a job that fired is not set to its next time")
			}
		}
		vf.Reach("fired")
	})
}
