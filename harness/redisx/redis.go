// Package redisx checks the redis lock: the real lock, redislock and go-redis clients, over a scripted server behind a
// client hook.
package redisx

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	lockredis "github.com/bytedance/dddfirework/lock/redis"
	"github.com/redis/go-redis/v9"

	"verifharness/vf"
)

type entry struct {
	val string
	exp time.Time // zero: never
}

// server is the key space of one redis server, driven by the commands of go-redis clients.
type server struct {
	data map[string]entry
	fail func(name string) error // nil: the command is executed
	set  func(key string, old entry, held bool)
}

func (s *server) get(key string) (entry, bool) {
	e, ok := s.data[key]
	if ok && !e.exp.IsZero() && !e.exp.After(time.Now()) {
		delete(s.data, key)
		return entry{}, false
	}
	return e, ok
}

var busy int // what the clients themselves keep running

func (s *server) client() *redis.Client {
	c := redis.NewClient(&redis.Options{Addr: "127.0.0.1:1", MaxRetries: -1, PoolFIFO: false})
	c.AddHook(s)
	busy = vf.Goroutines()
	return c
}

func (s *server) DialHook(next redis.DialHook) redis.DialHook { return next }

func (s *server) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		for _, c := range cmds {
			if err := s.process(ctx, c); err != nil {
				return err
			}
		}
		return nil
	}
}

func (s *server) ProcessHook(next redis.ProcessHook) redis.ProcessHook { return s.process }

type noScript struct{}

func (noScript) Error() string { return "NOSCRIPT No matching script. Please use EVAL." }
func (noScript) RedisError()   {}

func str(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case int64:
		return fmt.Sprint(x)
	case int:
		return fmt.Sprint(x)
	}
	vf.Unsupported("redis argument")
	return ""
}

func millis(v interface{}) time.Duration {
	switch x := v.(type) {
	case int64:
		return time.Duration(x)
	case int:
		return time.Duration(x)
	case string:
		n := 0
		for i := 0; i < len(x); i++ {
			n = n*10 + int(x[i]-'0')
		}
		return time.Duration(n)
	}
	vf.Unsupported("redis number")
	return 0
}

func (s *server) process(ctx context.Context, cmd redis.Cmder) error {
	err := s.run(ctx, cmd)
	cmd.SetErr(err)
	return err
}

func (s *server) run(ctx context.Context, cmd redis.Cmder) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	name := strings.ToLower(cmd.Name())
	if s.fail != nil {
		if err := s.fail(name); err != nil {
			return err
		}
	}
	args := cmd.Args()
	n := int64(0)
	switch name {
	case "set", "setnx":
		e := entry{val: str(args[2])}
		nx := name == "setnx"
		for i := 3; i < len(args); i++ {
			switch strings.ToLower(str(args[i])) {
			case "nx":
				nx = true
			case "px":
				i++
				e.exp = time.Now().Add(millis(args[i]) * time.Millisecond)
			case "ex":
				i++
				e.exp = time.Now().Add(millis(args[i]) * time.Second)
			default:
				vf.Unsupported("redis SET option")
			}
		}
		old, held := s.get(str(args[1]))
		if !nx || !held {
			if s.set != nil {
				s.set(str(args[1]), old, held)
			}
			s.data[str(args[1])] = e
			n = 1
		}
		switch c := cmd.(type) {
		case *redis.BoolCmd:
			c.SetVal(n == 1)
		case *redis.StatusCmd:
			c.SetVal("OK")
			if n == 0 {
				return redis.Nil
			}
		default:
			vf.Unsupported("redis SET result")
		}
		return nil
	case "del", "unlink":
		for _, a := range args[1:] {
			if _, ok := s.get(str(a)); ok {
				delete(s.data, str(a))
				n++
			}
		}
	case "get":
		e, ok := s.get(str(args[1]))
		if !ok {
			return redis.Nil
		}
		c, ok := cmd.(*redis.StringCmd)
		if !ok {
			vf.Unsupported("redis GET result")
		}
		c.SetVal(e.val)
		return nil
	case "evalsha":
		return noScript{}
	case "eval":
		src := str(args[1])
		if !strings.HasPrefix(src, `if redis.call("get", KEYS[1]) == ARGV[1] then return redis.call("`) {
			vf.Unsupported("redis script")
		}
		key, val := str(args[3]), str(args[4])
		e, ok := s.get(key)
		own := ok && e.val == val
		switch {
		case strings.Contains(src, `redis.call("del"`):
			if own {
				delete(s.data, key)
				n = 1
			}
		case strings.Contains(src, `redis.call("pexpire"`):
			if own {
				e.exp = time.Now().Add(millis(args[5]) * time.Millisecond)
				s.data[key] = e
				n = 1
			}
		case strings.Contains(src, `redis.call("pttl"`):
			n = -3
			if own {
				n = left(e)
			}
		default:
			vf.Unsupported("redis script")
		}
	case "pttl":
		n = -2
		if e, ok := s.get(str(args[1])); ok {
			n = left(e)
		}
	case "exists":
		if _, ok := s.get(str(args[1])); ok {
			n = 1
		}
	case "pexpire", "expire":
		if e, ok := s.get(str(args[1])); ok {
			unit := time.Millisecond
			if name == "expire" {
				unit = time.Second
			}
			e.exp = time.Now().Add(millis(args[2]) * unit)
			s.data[str(args[1])] = e
			n = 1
		}
	default:
		vf.Unsupported("redis command " + name)
	}
	switch c := cmd.(type) {
	case *redis.IntCmd:
		c.SetVal(n)
	case *redis.BoolCmd:
		c.SetVal(n == 1)
	case *redis.DurationCmd:
		d := time.Duration(n)
		if n >= 0 {
			d *= time.Millisecond
		}
		c.SetVal(d)
	case *redis.Cmd:
		c.SetVal(n)
	default:
		vf.Unsupported("redis result")
	}
	return nil
}

// left is the remaining life of a key in milliseconds.
func left(e entry) int64 {
	if e.exp.IsZero() {
		return -1
	}
	return int64(e.exp.Sub(time.Now()) / time.Millisecond)
}

func newServer() *server { return &server{data: map[string]entry{}} }

var ctx = context.Background()

type held struct {
	lock interface{}
	key  string
	val  string // what the server stores for it
}

func init() {
	vf.Register("C28.sequence", sequence)
	vf.Register("C28.contend", contend)
	vf.Register("C28.wait", wait)
	vf.Register("C28.lease", lease)
	vf.Register("C28.faults", faults)
	vf.Register("C28.release", release)
}

// sequence: callers without contention at the same moment: every order of requests, releases and waiting.
func sequence() {
	s := newServer()
	ttl := []time.Duration{250 * time.Millisecond, 2 * time.Second, 10 * time.Second}[vf.Concrete(vf.Choice("ttl", 3))]
	locks := []*lockredis.RedisLock{lockredis.NewRedisLock(s.client(), ttl), lockredis.NewRedisLock(s.client(), ttl)}
	var all []held
	seen := map[string]bool{}
	steps := 4
	if vf.Thorough() {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		switch vf.Concrete(vf.Choice("step", 4)) {
		case 0:
			key := "a"
			if vf.ConcreteBool(vf.Bool("other")) {
				key = "b"
			}
			before, wasHeld := s.get(key)
			t0 := time.Now()
			l, err := locks[vf.Concrete(vf.Choice("client", 2))].Lock(ctx, key)
			now, isHeld := s.get(key)
			if err != nil {
				vf.Assert(errors.Is(err, ddd.ErrEntityLocked), "a request refused because of a live holder does not report the locked error: "+err.Error())
				vf.Assert(wasHeld && before.exp.After(time.Now().Add(-150*time.Millisecond)) && (!isHeld || now == before), "a request is refused without a live holder")
				vf.Log("refused")
				continue
			}
			vf.Assert(!wasHeld || !before.exp.After(time.Now()), "a lock is granted while another caller holds it")
			vf.Assert(isHeld, "a granted lock is not stored")
			vf.Assert(!seen[now.val], "an owner identity is used twice")
			seen[now.val] = true
			vf.Assert(!now.exp.IsZero() && now.exp.Sub(t0) >= ttl && now.exp.Sub(time.Now()) <= ttl, "the lease does not last the time-to-live")
			all = append(all, held{l, key, now.val})
		case 1:
			if len(all) == 0 {
				vf.End()
			}
			h := all[vf.Concrete(vf.Choice("which", len(all)))]
			before, wasHeld := s.get(h.key)
			err := locks[vf.Concrete(vf.Choice("client", 2))].UnLock(ctx, h.lock)
			now, isHeld := s.get(h.key)
			if wasHeld && before.val == h.val {
				vf.Assert(err == nil, "releasing a held lock fails")
				vf.Assert(!isHeld, "a released lock is still held")
			} else {
				vf.Assert(err != nil, "releasing a lock no longer owned succeeds")
				vf.Assert(isHeld == wasHeld && now == before, "a release with an old identity disturbs the present owner")
			}
		case 2:
			time.Sleep(ttl / 2)
		case 3:
			time.Sleep(ttl)
		}
	}
	vf.Reach("done")
}

// contend: callers that overlap: each requests, keeps the lock for a while (less or more than the time-to-live) and
// releases it.
func contend() {
	s := newServer()
	ttl := []time.Duration{250 * time.Millisecond, 2 * time.Second}[vf.Concrete(vf.Choice("ttl", 2))]
	lock := lockredis.NewRedisLock(s.client(), ttl)
	n := 3
	taken := map[string]bool{}
	s.set = func(key string, old entry, isHeld bool) {
		if isHeld {
			vf.Fail("a live lock is overwritten")
		}
	}
	done := 0
	for i := 0; i < n; i++ {
		start := time.Duration(0)
		if i > 0 {
			start = []time.Duration{0, 130 * time.Millisecond, ttl - 50*time.Millisecond, ttl + 30*time.Millisecond}[vf.Concrete(vf.Choice("start", 4))]
		}
		keep := []time.Duration{0, 70 * time.Millisecond, ttl + 20*time.Millisecond}[vf.Concrete(vf.Choice("keep", 3))]
		go func() {
			defer func() { done++ }()
			time.Sleep(start)
			t0 := time.Now()
			l, err := lock.Lock(ctx, "a")
			if err != nil {
				vf.Assert(errors.Is(err, ddd.ErrEntityLocked), "a request refused because of a live holder does not report the locked error: "+err.Error())
				return
			}
			now, isHeld := s.get("a")
			if !isHeld || taken[now.val] || now.exp.Before(t0.Add(ttl)) {
				vf.Fail("a lock is granted that this caller does not hold")
			}
			taken[now.val] = true
			mine := now.val
			time.Sleep(keep)
			before, wasHeld := s.get("a")
			own := wasHeld && before.val == mine
			if keep < ttl && !own {
				vf.Fail("a held lock is lost before its time-to-live")
			}
			err = lock.UnLock(ctx, l)
			vf.Assert(own == (err == nil), "a release succeeds exactly if the caller still holds the lock")
			if after, ok := s.get("a"); own && ok && after.val == mine {
				vf.Fail("a released lock is still held")
			} else if !own && wasHeld && (!ok || after != before) {
				vf.Fail("a release with an old identity disturbs the present owner")
			}
		}()
	}
	time.Sleep(time.Minute)
	vf.Assert(done == n, "a request never returns")
	vf.Assert(vf.Goroutines() == busy, "a request leaves activity behind")
	vf.Reach("done")
}

// wait: a request waits for a lock that is released meanwhile, but not without bound.
func wait() {
	s := newServer()
	ttl := 10 * time.Second
	lock := lockredis.NewRedisLock(s.client(), ttl)
	l, err := lock.Lock(ctx, "a")
	vf.Assert(err == nil, "a free lock is refused")
	k := vf.Concrete(vf.Choice("released_after", 9))
	after := time.Duration(k)*500*time.Millisecond + 50*time.Millisecond
	go func() {
		time.Sleep(after)
		vf.Assert(lock.UnLock(ctx, l) == nil, "releasing a held lock fails")
	}()
	t0 := time.Now()
	_, err = lock.Lock(ctx, "a")
	d := time.Since(t0)
	if after < 2800*time.Millisecond {
		vf.Assert(err == nil, "a lock released meanwhile is refused")
	}
	if err == nil {
		vf.Assert(d >= after, "a lock is granted while another caller holds it")
		vf.Reach("granted")
	} else {
		vf.Assert(errors.Is(err, ddd.ErrEntityLocked), "a request refused because of a live holder does not report the locked error: "+err.Error())
		vf.Reach("refused")
	}
	vf.Assert(d < 4*time.Second, "a request waits without bound")
	time.Sleep(time.Minute)
	vf.Assert(vf.Goroutines() == busy, "a request leaves activity behind")
}

type broken struct{}

func (broken) Error() string { return "ERR broken" }
func (broken) RedisError()   {}

// faults: a failing server or a caller that gives up is not reported as a held lock, nor as a granted or released one.
func faults() {
	s := newServer()
	ttl := []time.Duration{250 * time.Millisecond, 10 * time.Second}[vf.Concrete(vf.Choice("ttl", 2))]
	lock := lockredis.NewRedisLock(s.client(), ttl)
	held := vf.ConcreteBool(vf.Bool("held"))
	if held {
		s.data["a"] = entry{val: "other", exp: time.Now().Add(time.Hour)}
	}
	c, cancel := context.WithCancel(context.WithValue(ctx, broken{}, 1))
	defer cancel()
	mode := vf.Concrete(vf.Choice("fault", 5))
	n := 0
	at := vf.Concrete(vf.Choice("at", 2))
	switch mode {
	case 1: // the request fails at an attempt
		s.fail = func(name string) error {
			n++
			if n == at+1 {
				return broken{}
			}
			return nil
		}
	case 2: // the caller gives up while waiting
		go func() {
			time.Sleep(time.Duration(at) * 120 * time.Millisecond)
			cancel()
		}()
		vf.Settle()
	case 3: // the caller has its own deadline
		c2, cancel2 := context.WithTimeout(c, time.Duration(at)*150*time.Millisecond)
		defer cancel2()
		c = c2
	}
	l, err := lock.Lock(c, "a")
	switch {
	case mode == 0 || mode == 4:
		vf.Assert((err == nil) == !held, "a lock is granted exactly if it is free")
		vf.Assert(err == nil || errors.Is(err, ddd.ErrEntityLocked), "a request refused because of a live holder does not report the locked error")
	case mode == 1 && (held || at == 0):
		vf.Assert(err == broken{}, "a server failure is not reported")
	case (mode == 2 || mode == 3) && (held || at == 0):
		vf.Assert(err != nil, "a lock is granted to a caller that gave up")
		if at == 0 || ttl > time.Second {
			vf.Assert(errors.Is(err, c.Err()), "a caller that gave up is told something else: "+err.Error())
		}
	default:
		vf.Assert(err == nil, "a free lock is refused")
	}
	if err != nil {
		if _, ok := s.get("a"); ok != held {
			vf.Fail("a failed request changes the lock")
		}
		vf.Reach("not granted")
		return
	}
	e, ok := s.get("a")
	vf.Assert(ok && e.val != "other", "a granted lock is not stored")
	s.fail = nil
	if mode == 4 {
		s.fail = func(name string) error { return broken{} }
	}
	err = lock.UnLock(ctx, l)
	_, ok = s.get("a")
	vf.Assert((err == nil) == (mode != 4), "a release reports the wrong outcome")
	vf.Assert(ok == (mode == 4), "a released lock is still held")
	vf.Reach("granted")
}

// lease: the lock of a caller that never releases it (it may have died), with any remaining lease, ends with the lease.
func lease() {
	s := newServer()
	ttl := []time.Duration{250 * time.Millisecond, 2 * time.Second, 10 * time.Second}[vf.Concrete(vf.Choice("ttl", 3))]
	lock := lockredis.NewRedisLock(s.client(), ttl)
	base := time.Now()
	exp := base.Add(time.Duration(vf.Int("remaining_ns", 1, 6_000_000_000)))
	s.data["a"] = entry{val: "other", exp: exp}
	l, err := lock.Lock(ctx, "a")
	if err == nil {
		vf.Assert(!exp.After(time.Now()), "a lock is granted while another caller holds it")
		vf.Assert(lock.UnLock(ctx, l) == nil, "releasing a held lock fails")
		vf.Reach("granted")
		return
	}
	vf.Assert(errors.Is(err, ddd.ErrEntityLocked), "a request refused because of a live holder does not report the locked error: "+err.Error())
	vf.Assert(exp.After(time.Now().Add(-150*time.Millisecond)), "a lock whose lease ended long ago is refused")
	vf.Assert(s.data["a"].val == "other", "a refused request disturbs the present owner")
	vf.Reach("refused")
}

// release: whatever is left of the lease, a release ends it, for the holder and nobody else.
func release() {
	s := newServer()
	ttl := []time.Duration{250 * time.Millisecond, 2 * time.Second, 10 * time.Second}[vf.Concrete(vf.Choice("ttl", 3))]
	lock := lockredis.NewRedisLock(s.client(), ttl)
	l, err := lock.Lock(ctx, "a")
	vf.Assert(err == nil, "a free lock is refused")
	e, ok := s.get("a")
	vf.Assert(ok, "a granted lock is not stored")
	mine := e.val
	if vf.Bool("taken") {
		e.val = "other"
	}
	e.exp = time.Now().Add(time.Duration(vf.Int("remaining_ns", -1_000_000, 10_000_000_000)))
	s.data["a"] = e
	live := vf.ConcreteBool(e.exp.After(time.Now()))
	err = lock.UnLock(ctx, l)
	now, ok := s.get("a")
	if !live || e.val != mine {
		vf.Assert(err != nil, "releasing a lock no longer owned succeeds")
		vf.Assert(ok == live && (!ok || now.val == e.val && now.exp.Equal(e.exp)), "a release with an old identity disturbs the present owner")
		vf.Reach("lost")
		return
	}
	vf.Assert(err == nil, "releasing a held lock fails")
	vf.Assert(!ok, "a released lock is still held")
	vf.Reach("released")
}
