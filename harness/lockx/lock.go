// Package lockx checks the database lock against the symbolic store.
package lockx

import (
	"context"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
	"gorm.io/gorm"

	"verifharness/symdb"
	"verifharness/vf"
)

var ctx = context.Background()

type world struct {
	st  *symdb.Store
	tab *symdb.Table
	cfg *gorm.Config
}

func newWorld() *world {
	w := &world{st: symdb.New()}
	if vf.Bool("translate_errors") {
		w.cfg = &gorm.Config{TranslateError: true}
	}
	w.tab = w.st.CreateTable(w.open("main"), &db.ResourceLock{})
	return w
}

func (w *world) open(inst string) *gorm.DB {
	if w.cfg == nil {
		return w.st.Open(inst, nil)
	}
	c := *w.cfg
	return w.st.Open(inst, &c)
}

func (w *world) lock(inst string, ttl, renew time.Duration, retry bool) *db.DBLock {
	return db.NewDBLock(w.open(inst), ttl, func(o *db.Options) {
		o.Logger = logr.Discard()
		o.RenewInterval = renew
		o.Retry = retry
	})
}

func (w *world) row(key string) map[string]any {
	for _, r := range w.tab.Rows() {
		if r["resource"] == key {
			return r
		}
	}
	return nil
}

func owner(l interface{}) string { return l.(*db.ResourceLock).LockerID }

func show(r map[string]any) string {
	if r == nil {
		return "none"
	}
	return fmt.Sprint(r["locker_id"])
}

// monitor watches the table: a lease is never taken from a live owner, and only its owner renews or removes it.
type monitor struct {
	w     *world
	ttl   time.Duration
	last  map[string]any
	owner map[string]string // locker id -> instance
	bad   string
}

func (w *world) watch(key string, ttl time.Duration) *monitor {
	m := &monitor{w: w, ttl: ttl, owner: map[string]string{}}
	if r := w.row(key); r != nil {
		m.last = r
		m.owner[r["locker_id"].(string)] = "before"
	}
	w.st.After = func(inst, kind string) {
		now := w.row(key)
		old := m.last
		m.last = now
		switch {
		case old == nil && now == nil:
		case old == nil:
			id := now["locker_id"].(string)
			if _, ok := m.owner[id]; ok {
				m.bad = "an owner identity is used twice"
			}
			m.owner[id] = inst
		case now == nil:
			if m.owner[old["locker_id"].(string)] != inst {
				m.bad = "the lock of another caller is removed by " + inst
			}
		case old["locker_id"] != now["locker_id"]:
			age := time.Now().Sub(old["updated_at"].(time.Time))
			if age < m.ttl {
				m.bad = fmt.Sprintf("a lease of age %v (time-to-live %v) is taken over by %s", age, m.ttl, inst)
			}
			id := now["locker_id"].(string)
			if _, ok := m.owner[id]; ok {
				m.bad = "an owner identity is used twice"
			}
			m.owner[id] = inst
		case !old["updated_at"].(time.Time).Equal(now["updated_at"].(time.Time)):
			if m.owner[old["locker_id"].(string)] != inst {
				m.bad = "the lock of another caller is renewed by " + inst
			}
		}
	}
	return m
}

func init() {
	// one request against any state of the lock
	vf.Register("C24.state", func() {
		w := newWorld()
		ttl := []time.Duration{time.Second, 5 * time.Second, time.Hour}[vf.Choice("ttl", 3)]
		a := w.lock("a", ttl, time.Second, false)
		held := vf.Bool("held")
		age, sub := 0, 0
		time.Sleep([]time.Duration{0, 363, 700}[vf.Choice("now_part", 3)] * time.Millisecond)
		now := time.Now()
		if held {
			age = vf.Int("age", -10, 8000)
			// or about the time-to-live, less a part of a second
			if p := vf.Choice("age_part", 5); p > 0 {
				sub = []int{0, 1000000, 400000000, 600000000, 999000000}[p]
				age = int(ttl/time.Second) + vf.Choice("age_about", 3) - 1
			}
			at := time.Unix(now.Unix()-int64(age), int64(sub)).UTC()
			w.tab.Put(map[string]any{"resource": "k", "locker_id": "earlier", "updated_at": at, "created_at": at})
		}
		w.tab.Put(map[string]any{"resource": "other", "locker_id": "someone", "updated_at": now, "created_at": now})
		free := !held || vf.ConcreteBool(age*1000+now.Nanosecond()/1000000-sub/1000000 >= int(ttl/time.Millisecond))
		l, err := a.Lock(ctx, "k")
		if !free {
			vf.Assert(err == ddd.ErrEntityLocked, fmt.Sprintf("a live lock is not reported as locked: %v", err))
			vf.Assert(show(w.row("k")) == "earlier", "a refused request disturbs the holder")
			vf.Reach("refused")
			return
		}
		vf.Assert(err == nil && l != nil, fmt.Sprintf("a free lock is refused: %v", err))
		r := w.row("k")
		vf.Assert(r != nil && r["locker_id"] == owner(l) && owner(l) != "earlier" && owner(l) != "", "the new owner is not recorded")
		vf.Assert(!r["updated_at"].(time.Time).Before(now.Truncate(time.Millisecond)), "the lease is not fresh")
		// others are refused until it is released
		if vf.Bool("contend") {
			_, err = w.lock("b", ttl, time.Second, false).Lock(ctx, "k")
			vf.Assert(err == ddd.ErrEntityLocked, fmt.Sprintf("a second caller gets %v", err))
		}
		if held {
			stale := &db.ResourceLock{Resource: "k", LockerID: "earlier"}
			vf.Assert(a.UnLock(ctx, stale) != nil, "a release with a stale identity succeeds")
			vf.Assert(show(w.row("k")) == owner(l), "a release with a stale identity disturbs the owner")
		}
		vf.Assert(a.UnLock(ctx, l) == nil, "the owner cannot release")
		vf.Assert(w.row("k") == nil, "a released lock stays")
		vf.Assert(a.UnLock(ctx, l) != nil, "a second release succeeds")
		vf.Assert(show(w.row("other")) == "someone", "the lock of another key is touched")
		l2, err := w.lock("b", ttl, time.Second, false).Lock(ctx, "k")
		vf.Assert(err == nil && owner(l2) != owner(l), "a released lock cannot be obtained anew")
		vf.Reach("obtained")
	})

	// any sequence of requests, releases and waits of two callers
	vf.Register("C24.sequence", func() {
		w := newWorld()
		ttl := 2 * time.Second
		ls := []*db.DBLock{w.lock("a", ttl, time.Second, false), w.lock("b", ttl, time.Second, false)}
		type hold struct {
			l  interface{}
			at time.Time
		}
		var holder *hold // who owns the row
		holds := []*hold{nil, nil}
		n := 5
		if vf.Thorough() {
			n = 7
		}
		ids := map[string]bool{}
		for i := 0; i < n; i++ {
			c := vf.Choice("caller", 2)
			switch vf.Choice("op", 3) {
			case 0:
				l, err := ls[c].Lock(ctx, "k")
				free := holder == nil || time.Now().Sub(holder.at) >= ttl
				vf.Assert((err == nil) == free, fmt.Sprintf("free %v, but the request gets %v", free, err))
				if err != nil {
					vf.Assert(err == ddd.ErrEntityLocked, fmt.Sprintf("refused with %v", err))
					continue
				}
				vf.Assert(!ids[owner(l)], "an identity is given twice")
				ids[owner(l)] = true
				holder = &hold{l: l, at: time.Now()}
				holds[c] = holder
				vf.Reach("locked")
			case 1:
				h := holds[c]
				if h == nil {
					continue
				}
				err := ls[c].UnLock(ctx, h.l)
				vf.Assert((err == nil) == (h == holder), fmt.Sprintf("release by the owner: %v, result %v", h == holder, err))
				if h == holder {
					holder = nil
					vf.Reach("released")
				} else {
					vf.Reach("stale")
				}
			case 2:
				time.Sleep([]time.Duration{time.Second, 2 * time.Second}[c])
			}
			if holder == nil {
				vf.Assert(w.row("k") == nil, "a lock stays without an owner")
			} else {
				vf.Assert(show(w.row("k")) == owner(holder.l), "the owner is lost")
			}
		}
	})

	// waiting for the lock
	vf.Register("C24.retry", func() {
		w := newWorld()
		ttl := 10 * time.Second
		a := w.lock("a", ttl, time.Second, true)
		b := w.lock("b", ttl, time.Second, true)
		l, err := b.Lock(ctx, "k")
		vf.Assert(err == nil, "a free lock is refused")
		after := time.Duration(vf.Choice("released_after", 8)) * 99 * time.Millisecond
		go func() {
			time.Sleep(after)
			_ = b.UnLock(ctx, l)
		}()
		start := time.Now()
		l2, err := a.Lock(ctx, "k")
		took := time.Now().Sub(start)
		if err == nil {
			vf.Assert(took >= after && owner(l2) != owner(l), "the lock is obtained before it is released")
			vf.Assert(show(w.row("k")) == owner(l2), "the owner is not recorded")
			vf.Reach("waited")
		} else {
			vf.Assert(err == ddd.ErrEntityLocked, fmt.Sprintf("refused with %v", err))
			vf.Assert(took < after || after > 300*time.Millisecond, "a lock is refused although it is free")
			vf.Reach("gave up")
		}
		time.Sleep(2 * time.Second)
		vf.Settle()
	})

	// a failing statement
	vf.Register("C24.faults", func() {
		w := newWorld()
		ttl := 2 * time.Second
		a, b := w.lock("a", ttl, time.Second, false), w.lock("b", ttl, time.Second, false)
		if vf.Bool("expired") {
			at := time.Now().Add(-time.Hour)
			w.tab.Put(map[string]any{"resource": "k", "locker_id": "earlier", "updated_at": at, "created_at": at})
		}
		at, n, failed := vf.Int("failAt", 1, 8), 0, false
		w.st.Before = func(o *symdb.Op) error {
			if o.Inst != "a" || o.Kind == "rollback" {
				return nil
			}
			if n++; n == at {
				failed = true
				return symdb.ErrInjected
			}
			return nil
		}
		before := show(w.row("k"))
		l, err := a.Lock(ctx, "k")
		vf.Assert((err != nil) == failed, "a failing statement is not reported")
		if err != nil {
			vf.Assert(err != ddd.ErrEntityLocked && errors.Is(err, symdb.ErrInjected), fmt.Sprintf("a failing statement is reported as %v", err))
			vf.Assert(show(w.row("k")) == before, "a failed request changes the lock")
			vf.Reach("lock failed")
			return
		}
		err = a.UnLock(ctx, l)
		vf.Assert((err != nil) == failed, "a failing release is not reported")
		if err != nil {
			vf.Assert(show(w.row("k")) == owner(l), "a failed release changes the lock")
			_, err = b.Lock(ctx, "k")
			vf.Assert(err == ddd.ErrEntityLocked, "the lock is lost")
			vf.Assert(a.UnLock(ctx, l) == nil, "the release cannot be repeated")
			vf.Reach("unlock failed")
		}
		vf.Assert(w.row("k") == nil, "a released lock stays")
	})

	// several callers at once
	vf.Register("C24.race", func() {
		w := newWorld()
		ttl := 5 * time.Second
		n := 2
		if vf.Thorough() {
			n = 2 + vf.Choice("callers", 2)
		}
		switch vf.Choice("state", 3) {
		case 1:
			at := time.Now().Add(-time.Hour)
			w.tab.Put(map[string]any{"resource": "k", "locker_id": "earlier", "updated_at": at, "created_at": at})
		case 2:
			at := time.Now()
			w.tab.Put(map[string]any{"resource": "k", "locker_id": "earlier", "updated_at": at, "created_at": at})
		}
		live := show(w.row("k")) == "earlier" && w.row("k")["updated_at"].(time.Time).Equal(time.Now())
		mon := w.watch("k", ttl)
		pre := 3
		if n > 2 {
			pre = 2
		}
		w.st.Sched = symdb.NewSched(pre)
		holding, max, got := 0, 0, 0
		release := vf.Bool("release")
		for i := 0; i < n; i++ {
			inst := fmt.Sprint("c", i)
			l := w.lock(inst, ttl, time.Second, false)
			go func() {
				k, err := l.Lock(ctx, "k")
				if err != nil {
					if err != ddd.ErrEntityLocked {
						vf.Fail(fmt.Sprintf("a request that meets another is refused with: %v", err))
					}
					return
				}
				got++
				holding++
				if holding > max {
					max = holding
				}
				if release {
					holding--
					if err := l.UnLock(ctx, k); err != nil {
						vf.Fail("the owner cannot release: " + err.Error())
					}
				}
			}()
		}
		vf.Assert(w.st.Sched.Run(), "all callers wait for each other")
		vf.Assert(mon.bad == "", mon.bad)
		vf.Assert(max <= 1, fmt.Sprintf("%d callers hold the lock at once", max))
		vf.Assert(got >= 1 || live, "nobody gets a free lock")
		vf.Assert(got == 0 || !live, "a live lock is given away")
		vf.Reach(fmt.Sprint("got ", got))
	})

	// renewal against takeover
	vf.Register("C24.renew", func() {
		w := newWorld()
		ttl := 2 * time.Second
		a := w.lock("a", ttl, ttl, false)
		b := w.lock("b", ttl, ttl, false)
		mon := w.watch("k", ttl)
		lost, done := false, false
		go func() {
			err := a.Run(ctx, "k", func(c context.Context) {
				select {
				case <-c.Done():
					lost = true
				case <-time.After(3*ttl + time.Second/2):
				}
			})
			if err != nil {
				vf.Fail("run: " + err.Error())
			}
			done = true
		}()
		vf.Settle()
		w.st.Sched = symdb.NewSched(3)
		bHolds := false
		when := ttl
		if vf.Bool("second_renewal") {
			when = 2 * ttl
		}
		go func() {
			time.Sleep(when)
			_, err := b.Lock(ctx, "k")
			if err == nil {
				bHolds = true
			} else if err != ddd.ErrEntityLocked {
				vf.Fail("refused with: " + err.Error())
			}
		}()
		vf.Settle()
		for i := 0; i < 8; i++ {
			if i == 7 && bHolds {
				break
			}
			vf.Assert(w.st.Sched.Run(), "the callers wait for each other")
			vf.Assert(mon.bad == "", mon.bad)
			time.Sleep(time.Second)
		}
		vf.Assert(w.st.Sched.Run(), "the callers wait for each other")
		vf.Assert(mon.bad == "", mon.bad)
		vf.Assert(lost == bHolds, fmt.Sprintf("the first holder was told %v, the second caller got the lock %v", lost, bHolds))
		vf.Assert(done, "the run does not end")
		if bHolds {
			vf.Assert(mon.owner[show(w.row("k"))] == "b", "the lock of the second caller is lost")
			vf.Reach("lost")
		} else {
			vf.Assert(w.row("k") == nil, "the lock stays after the run")
			vf.Reach("kept")
		}
	})
}
