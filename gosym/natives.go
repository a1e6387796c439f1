package main

import (
	"fmt"
	"go/token"
	"math"
	"math/bits"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// baseTime is the start of virtual time: 2000-01-01 00:00:00 UTC, as in testing/synctest.
const baseTime int64 = 946684800 * 1_000_000_000

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// modelNames maps functions of the models package to the functions they replace.
var modelNames = map[string]string{
	"SyncMapRange": "(*sync.Map).Range",
}

// newVar returns the next variable of the given name on this path, with values in [0,hi].
func (w *W) newVar(name string, width int, lo, hi uint64) *Term {
	n := w.counter[name]
	w.counter[name] = n + 1
	w.undo(func() { w.counter[name] = n })
	key := name
	if n > 0 {
		key = name + "#" + itoa(n)
	}
	v := w.vars[key]
	if v == nil || v.W != width || v.hi != hi {
		v = w.tt.NewVar(key, width)
		v.rng = true
		v.hi = hi
		w.vars[key] = v
	}
	w.sol.assertRange(v)
	if x, ok := w.model[v]; ok && x > hi {
		m := make(Model, len(w.model))
		for k, x := range w.model {
			m[k] = x
		}
		m[v] = 0
		w.model = m
	}
	pv := w.pathVars
	w.undo(func() { w.pathVars = pv })
	w.pathVars = append(w.pathVars[:len(w.pathVars):len(w.pathVars)], v)
	return v
}

func (w *W) timeValue(ns int64) Value {
	sec := ns / 1e9
	nsec := ns % 1e9
	loc := Value{}
	if g := w.localGlobal(); g != nil {
		loc = *g
	}
	return Value{P: &Agg{F: []Value{{N: uint64(nsec)}, {N: uint64(sec + unixToInternal)}, loc}}}
}

func (w *W) localGlobal() *Value {
	p := w.ex.prog.ImportedPackage("time")
	if p == nil {
		return nil
	}
	g, ok := p.Members["Local"].(*ssa.Global)
	if !ok {
		return nil
	}
	return w.globals[w.ex.globalIndex(g)].P.(*Value)
}

// leaves lists the scalar cells of a memory cell in order.
func leaves(p *Value) []*Value {
	a, ok := p.P.(*Agg)
	if !ok {
		return []*Value{p}
	}
	var r []*Value
	for i := range a.F {
		r = append(r, leaves(&a.F[i])...)
	}
	return r
}

func leaf(p *Value) *Value {
	a, ok := p.P.(*Agg)
	if !ok {
		return p
	}
	for i := range a.F {
		if l := leaf(&a.F[i]); l != nil {
			return l
		}
	}
	return nil
}

func (w *W) cell(v Value) *Value {
	if v.P == nil {
		w.nilDeref()
	}
	p, ok := v.P.(*Value)
	if !ok {
		unsupported("pointer of kind %T", v.P)
	}
	return p
}

func logNative(fn *ssa.Function) Native {
	sig := fn.Signature
	if sig.Results().Len() == 0 {
		return func(w *W, a []Value) Value { return Value{} }
	}
	if sig.Results().Len() == 1 {
		rt := rtOf(sig.Results().At(0).Type())
		if sig.Recv() != nil && rtOf(sig.Recv().Type()) == rt {
			return func(w *W, a []Value) Value { return a[0] }
		}
		return func(w *W, a []Value) Value { return zeroOf(rt) }
	}
	return nil
}

func registerNatives(ex *Explorer) {
	n := ex.natives
	nop := func(w *W, a []Value) Value { return Value{} }
	konst := func(v Value) Native { return func(w *W, a []Value) Value { return v } }

	// ---- vf: the interface of the harnesses
	vf := harnessModule + "/vf."
	n[vf+"Symbolic"] = konst(vBool(true))
	n[vf+"Thorough"] = func(w *W, a []Value) Value { return vBool(w.ex.tier > 0) }
	n[vf+"Bool"] = func(w *W, a []Value) Value {
		v := w.newVar(a[0].str(), 1, 0, 1)
		return Value{P: w.tt.Eq(v, w.tt.Const(1, 1))}
	}
	n[vf+"Int"] = func(w *W, a []Value) Value {
		lo, hi := int64(a[1].int()), int64(a[2].int())
		if hi <= lo {
			return vI64(lo)
		}
		d := uint64(hi - lo)
		v := w.newVar(a[0].str(), bits.Len64(d), 0, d)
		t := v
		if v.W < 64 {
			t = w.tt.Ext("zero_extend", 64, v)
		}
		if lo != 0 {
			t = w.tt.Bin("bvadd", t, w.tt.Const(64, uint64(lo)))
		}
		return w.fromTerm(reflect.Int, t)
	}
	n[vf+"Choice"] = func(w *W, a []Value) Value {
		k := a[1].int()
		if k <= 1 {
			return Value{}
		}
		v := w.newVar(a[0].str(), bits.Len64(uint64(k-1)), 0, uint64(k-1))
		return Value{N: w.concretize(v)}
	}
	n[vf+"Concrete"] = func(w *W, a []Value) Value { return Value{N: w.intVal(reflect.Int, a[0])} }
	n[vf+"ConcreteBool"] = func(w *W, a []Value) Value { return vBool(w.truth(a[0])) }
	n[vf+"Assume"] = func(w *W, a []Value) Value {
		if !w.truth(a[0]) {
			panic(pathEnd{"assume"})
		}
		return Value{}
	}
	n[vf+"Assert"] = func(w *W, a []Value) Value {
		w.pathAsserts++
		if !w.truth(a[0]) {
			panic(pathEnd{"violation: " + w.strText(a[1]) + w.where(w.insFr)})
		}
		return Value{}
	}
	n[vf+"Fail"] = func(w *W, a []Value) Value {
		panic(pathEnd{"violation: " + w.strText(a[0]) + w.where(w.insFr)})
	}
	n[vf+"Unsupported"] = func(w *W, a []Value) Value {
		panic(pathEnd{"unsupported: " + w.strText(a[0]) + w.where(w.insFr)})
	}
	n[vf+"Busy"] = func(w *W, a []Value) Value {
		w.seqs.busyAt = 0
		if k := a[0].int(); k > 0 {
			w.seqs.busyAt = w.steps - w.pathSteps + int64(k)
		}
		return Value{}
	}
	n[vf+"End"] = func(w *W, a []Value) Value { panic(pathEnd{"done"}) }
	n[vf+"Reach"] = func(w *W, a []Value) Value { w.reachL = append(w.reachL, a[0].str()); return Value{} }
	n[vf+"Log"] = func(w *W, a []Value) Value { w.pathLog = append(w.pathLog, w.strText(a[0])); return Value{} }
	n[vf+"And"] = func(w *W, a []Value) Value {
		return w.boolV(w.tt.And(w.term(reflect.Bool, a[0]), w.term(reflect.Bool, a[1])))
	}
	n[vf+"Or"] = func(w *W, a []Value) Value {
		return w.boolV(w.tt.Or(w.term(reflect.Bool, a[0]), w.term(reflect.Bool, a[1])))
	}
	n[vf+"Not"] = func(w *W, a []Value) Value { return w.boolV(w.tt.Not(w.term(reflect.Bool, a[0]))) }
	n[vf+"Implies"] = func(w *W, a []Value) Value {
		return w.boolV(w.tt.Or(w.tt.Not(w.term(reflect.Bool, a[0])), w.term(reflect.Bool, a[1])))
	}
	n[vf+"Iff"] = func(w *W, a []Value) Value {
		return w.boolV(w.tt.Eq(w.term(reflect.Bool, a[0]), w.term(reflect.Bool, a[1])))
	}
	n[vf+"IteInt"] = func(w *W, a []Value) Value {
		return w.fromTerm(reflect.Int, w.tt.Ite(w.term(reflect.Bool, a[0]), w.term(reflect.Int, a[1]), w.term(reflect.Int, a[2])))
	}
	n[vf+"EqAny"] = func(w *W, a []Value) Value { return w.deepEqAny(a[0], a[1]) }
	n[vf+"MapOrder"] = func(w *W, a []Value) Value { w.seqs.mapOrder = a[0].int(); return Value{} }
	n[vf+"Goroutines"] = func(w *W, a []Value) Value {
		c := 0
		for _, g := range w.gs {
			if !g.done && !g.system {
				c++
			}
		}
		return vInt(c)
	}
	n[vf+"Settle"] = func(w *W, a []Value) Value {
		// run all other goroutines until they block
		me := w.g.id
		pred := func(w *W) bool {
			for _, g := range w.gs {
				if g.id != me && w.runnable(g) && !g.settling {
					return false
				}
			}
			return true
		}
		if w.g.settling {
			w.g.settling = false
			return Value{}
		}
		if pred(w) {
			return Value{}
		}
		w.g.settling = true
		w.block("settle", pred)
		return Value{}
	}

	// ---- runtime
	for _, k := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.SetGCPercent",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"time.initLocal", "os.Exit", "fmt.Println", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "(*internal/godebug.Setting).IncNonDefault", "runtime.AddCleanup", "runtime/debug.PrintStack"} {
		n[k] = nop
	}
	n["os.Exit"] = func(w *W, a []Value) Value { panic(pathEnd{"panic: os.Exit"}) }
	noPrint := func(w *W, a []Value) Value { return tuple(Value{}, Value{}) }
	n["fmt.Println"], n["fmt.Printf"], n["fmt.Print"] = noPrint, noPrint, noPrint
	n["(*internal/godebug.Setting).Value"] = konst(Value{})
	n["(*internal/godebug.Setting).Name"] = konst(Value{})
	n["(*internal/godebug.Setting).Undocumented"] = konst(Value{})
	n["runtime.NumCPU"] = konst(vInt(8))
	n["runtime.GOMAXPROCS"] = konst(vInt(8))
	n["runtime.NumGoroutine"] = func(w *W, a []Value) Value { return vInt(len(w.gs)) }
	n["runtime.Caller"] = func(w *W, a []Value) Value { return tuple(Value{}, Value{}, Value{}, Value{}) }
	n["runtime.Callers"] = konst(Value{})
	n["runtime.FuncForPC"] = konst(Value{})
	n["(*runtime.Func).Name"] = konst(Value{})
	n["runtime.CallersFrames"] = func(w *W, a []Value) Value {
		return Value{P: &Value{P: &Agg{F: make([]Value, 8)}}}
	}
	n["(*runtime.Frames).Next"] = func(w *W, a []Value) Value {
		return tuple(zeroOf(w.ex.namedRT("runtime", "Frame")), Value{})
	}
	n["runtime/debug.Stack"] = func(w *W, a []Value) Value { return vSlice(bytesToVals([]byte("stack"))) }
	n["runtime.Stack"] = konst(Value{})
	n["runtime.Version"] = konst(vStr("go"))
	n["(runtime.errorString).Error"] = func(w *W, a []Value) Value { return vStr("runtime error: " + a[0].str()) }
	n["(runtime.plainError).Error"] = func(w *W, a []Value) Value { return a[0] }
	n["(runtime.errorString).RuntimeError"] = nop
	n["internal/abi.NoEscape"] = func(w *W, a []Value) Value { return a[0] }
	n["internal/abi.Escape"] = func(w *W, a []Value) Value { return a[0] }
	n["internal/bytealg.MakeNoZero"] = func(w *W, a []Value) Value { return vSlice(make([]Value, a[0].int())) }
	n["strings.noescape"] = n["internal/abi.NoEscape"]

	// ---- os, syscall, env
	n["os.Getenv"] = konst(Value{})
	n["syscall.Getenv"] = func(w *W, a []Value) Value { return tuple(Value{}, Value{}) }
	n["os.LookupEnv"] = n["syscall.Getenv"]
	n["os.Getpid"] = konst(vInt(1))
	n["os.Hostname"] = func(w *W, a []Value) Value { return tuple(vStr("host"), Value{}) }
	n["os.Getwd"] = func(w *W, a []Value) Value { return tuple(vStr("/"), Value{}) }

	// ---- math
	n["math.Float64bits"] = func(w *W, a []Value) Value { return Value{N: a[0].N} }
	n["math.Float64frombits"] = func(w *W, a []Value) Value { return Value{N: a[0].N} }
	n["math.Float32bits"] = func(w *W, a []Value) Value { return Value{N: uint64(math.Float32bits(float32(a[0].float())))} }
	n["math.Float32frombits"] = func(w *W, a []Value) Value { return vF32(math.Float32frombits(uint32(a[0].N))) }
	for k, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Exp": math.Exp, "Log": math.Log} {
		f := f
		n["math."+k] = func(w *W, a []Value) Value { return vFloat(f(a[0].float())) }
	}
	n["math.Pow"] = func(w *W, a []Value) Value { return vFloat(math.Pow(a[0].float(), a[1].float())) }

	// ---- random numbers: fixed (the harnesses vary what matters themselves)
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, f := range []string{"Intn", "Int63n", "Int31n", "Int", "Int63", "Int31", "Uint32", "Uint64", "Float64", "Float32", "IntN", "Int64N", "N", "Int64"} {
			n[p+"."+f] = konst(Value{})
		}
		n[p+".Seed"] = nop
	}
	fill := func(w *W, s []Value) { // every read gives other bytes
		w.seqs.uid++
		for i := range s {
			w.store(&s[i], Value{N: uint64(w.seqs.uid>>(8*(i%8))) & 0xff})
		}
	}
	n["crypto/rand.Read"] = func(w *W, a []Value) Value {
		s := a[0].slice()
		fill(w, s)
		return tuple(vInt(len(s)), Value{})
	}
	n["(*github.com/bsm/redislock.Client).randomToken"] = func(w *W, a []Value) Value {
		w.seqs.uid++
		return tuple(vStr(fmt.Sprintf("token%d", w.seqs.uid)), Value{})
	}
	n["crypto/internal/boring.Unreachable"] = nop
	xid := func(w *W, a []Value) Value {
		w.seqs.uid++
		u := w.seqs.uid
		b := make([]Value, 12)
		for i := 0; i < 8; i++ {
			b[11-i].N = uint64(u>>(8*i)) & 0xff
		}
		b[0].N = 0x60
		return Value{P: &Agg{F: b}}
	}
	n["github.com/rs/xid.New"] = xid
	n["github.com/rs/xid.NewWithTime"] = xid

	// ---- atomic
	regAtomic(n)

	// ---- sync
	lock := func(w *W, c *Value) {
		if c.N != 0 {
			w.block("mutex", func(w *W) bool { return c.N == 0 })
		}
		w.store(c, Value{N: 1})
	}
	unlock := func(w *W, c *Value, what string) {
		if c.N == 0 {
			panic(pathEnd{"panic: fatal error: sync: unlock of unlocked " + what + w.where(w.fr)})
		}
		w.store(c, Value{})
	}
	for _, p := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)"} {
		n[p+".Lock"] = func(w *W, a []Value) Value { lock(w, leaf(w.cell(a[0]))); return Value{} }
		n[p+".Unlock"] = func(w *W, a []Value) Value { unlock(w, leaf(w.cell(a[0])), "mutex"); return Value{} }
		n[p+".TryLock"] = func(w *W, a []Value) Value {
			c := leaf(w.cell(a[0]))
			if c.N != 0 {
				return Value{}
			}
			w.store(c, Value{N: 1})
			return vBool(true)
		}
	}
	rw := func(w *W, v Value) (wr, rd *Value) {
		l := leaves(w.cell(v))
		return l[0], l[4]
	}
	n["(*sync.RWMutex).Lock"] = func(w *W, a []Value) Value {
		x, r := rw(w, a[0])
		if x.N != 0 || r.N != 0 {
			w.block("rwmutex", func(w *W) bool { return x.N == 0 && r.N == 0 })
		}
		w.store(x, Value{N: 1})
		return Value{}
	}
	n["(*sync.RWMutex).TryLock"] = func(w *W, a []Value) Value {
		x, r := rw(w, a[0])
		if x.N != 0 || r.N != 0 {
			return Value{}
		}
		w.store(x, Value{N: 1})
		return vBool(true)
	}
	n["(*sync.RWMutex).Unlock"] = func(w *W, a []Value) Value {
		x, _ := rw(w, a[0])
		unlock(w, x, "RWMutex")
		return Value{}
	}
	n["(*sync.RWMutex).RLock"] = func(w *W, a []Value) Value {
		x, r := rw(w, a[0])
		if x.N != 0 {
			w.block("rwmutex", func(w *W) bool { return x.N == 0 })
		}
		w.store(r, Value{N: r.N + 1})
		return Value{}
	}
	n["(*sync.RWMutex).RUnlock"] = func(w *W, a []Value) Value {
		_, r := rw(w, a[0])
		if r.N == 0 {
			panic(pathEnd{"panic: fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		w.store(r, Value{N: r.N - 1})
		return Value{}
	}
	n["(*sync.WaitGroup).Add"] = func(w *W, a []Value) Value {
		c := leaf(w.cell(a[0]))
		v := int64(c.N) + int64(a[1].int())
		if v < 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		w.store(c, vI64(v))
		return Value{}
	}
	n["(*sync.WaitGroup).Done"] = func(w *W, a []Value) Value {
		c := leaf(w.cell(a[0]))
		if c.N == 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		w.store(c, Value{N: c.N - 1})
		return Value{}
	}
	n["(*sync.WaitGroup).Wait"] = func(w *W, a []Value) Value {
		c := leaf(w.cell(a[0]))
		if c.N != 0 {
			w.block("waitgroup", func(w *W) bool { return c.N == 0 })
		}
		return Value{}
	}
	n["(*sync.Pool).Put"] = nop
	n["(*sync.Pool).Get"] = func(w *W, a []Value) Value {
		ag := w.cell(a[0]).agg()
		f := ag.F[len(ag.F)-1]
		if f.P == nil {
			return Value{}
		}
		w.pushCall(f.P.(*Closure), nil, nil)
		return Value{}
	}
	regSyncMap(ex, n)

	// ---- time
	n["time.Now"] = func(w *W, a []Value) Value { return w.timeValue(w.now) }
	n["time.runtimeNano"] = func(w *W, a []Value) Value { return vI64(w.now) }
	n["time.runtimeNow"] = func(w *W, a []Value) Value {
		return tuple(vI64(w.now/1e9), vI64(w.now%1e9), vI64(w.now))
	}
	n["time.now"] = n["time.runtimeNow"]
	n["time.Sleep"] = func(w *W, a []Value) Value {
		d := int64(w.intVal(reflect.Int64, a[0]))
		if w.g.wake > 0 {
			if w.now >= w.g.wake {
				w.g.wake = 0
				return Value{}
			}
			panic(blockSig{})
		}
		if d <= 0 {
			return Value{}
		}
		w.g.wake = w.now + d
		w.g.what = "sleep"
		panic(blockSig{})
	}
	newTimerVal := func(w *W, typ string, ch *ChanV) Value {
		c := new(Value)
		*c = zeroOf(w.ex.namedRT("time", typ))
		if ch != nil {
			c.agg().F[0] = Value{P: ch}
		}
		return Value{P: c}
	}
	timeRT := func(w *W) *RT { return w.ex.namedRT("time", "Time") }
	dur := func(w *W, v Value) int64 {
		d := int64(w.intVal(reflect.Int64, v))
		if d < 0 {
			d = 0
		}
		return d
	}
	n["time.NewTimer"] = func(w *W, a []Value) Value {
		ch := &ChanV{cap: 1, elem: timeRT(w)}
		t := newTimerVal(w, "Timer", ch)
		w.addTimer(&timerV{when: w.now + dur(w, a[0]), ch: ch, cell: t.P.(*Value)})
		return t
	}
	n["time.After"] = func(w *W, a []Value) Value {
		ch := &ChanV{cap: 1, elem: timeRT(w)}
		w.addTimer(&timerV{when: w.now + dur(w, a[0]), ch: ch, cell: new(Value)})
		return Value{P: ch}
	}
	n["time.AfterFunc"] = func(w *W, a []Value) Value {
		t := newTimerVal(w, "Timer", nil)
		c := t.P.(*Value)
		cl := a[1].P.(*Closure)
		d := dur(w, a[0])
		w.side1(c, cl)
		w.addTimer(&timerV{when: w.now + d, fn: cl, cell: c})
		return t
	}
	n["(*time.Timer).Stop"] = func(w *W, a []Value) Value {
		c := w.cell(a[0])
		ok := w.delTimer(c)
		if ch, isCh := c.agg().F[0].P.(*ChanV); isCh {
			if len(ch.buf) > 0 {
				ok = true
			}
			w.setChan(ch, nil, ch.closed)
		}
		return vBool(ok)
	}
	n["(*time.Timer).Reset"] = func(w *W, a []Value) Value {
		c := w.cell(a[0])
		d := dur(w, a[1])
		ok := w.delTimer(c)
		if ch, isCh := c.agg().F[0].P.(*ChanV); isCh {
			w.setChan(ch, nil, ch.closed)
			w.addTimer(&timerV{when: w.now + d, ch: ch, cell: c})
		} else if cl, ok := w.side[c].(*Closure); ok {
			w.addTimer(&timerV{when: w.now + d, fn: cl, cell: c})
		}
		return vBool(ok)
	}
	n["time.NewTicker"] = func(w *W, a []Value) Value {
		d := int64(w.intVal(reflect.Int64, a[0]))
		if d <= 0 {
			panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("non-positive interval for NewTicker")}}})
		}
		ch := &ChanV{cap: 1, elem: timeRT(w)}
		t := newTimerVal(w, "Ticker", ch)
		w.addTimer(&timerV{when: w.now + d, period: d, ch: ch, cell: t.P.(*Value)})
		return t
	}
	n["time.Tick"] = func(w *W, a []Value) Value {
		d := int64(w.intVal(reflect.Int64, a[0]))
		if d <= 0 {
			return Value{}
		}
		ch := &ChanV{cap: 1, elem: timeRT(w)}
		w.addTimer(&timerV{when: w.now + d, period: d, ch: ch, cell: new(Value)})
		return Value{P: ch}
	}
	n["(*time.Ticker).Stop"] = func(w *W, a []Value) Value {
		c := w.cell(a[0])
		w.delTimer(c)
		if ch, isCh := c.agg().F[0].P.(*ChanV); isCh {
			w.setChan(ch, nil, ch.closed)
		}
		return Value{}
	}
	n["(*time.Ticker).Reset"] = func(w *W, a []Value) Value {
		c := w.cell(a[0])
		d := int64(w.intVal(reflect.Int64, a[1]))
		w.delTimer(c)
		if ch, isCh := c.agg().F[0].P.(*ChanV); isCh {
			w.setChan(ch, nil, ch.closed)
			w.addTimer(&timerV{when: w.now + d, period: d, ch: ch, cell: c})
		}
		return Value{}
	}

	// ---- bytealg
	regBytealg(n)
	regReflect(ex, n)
}

// side1 keeps host data for a cell; cells are never reused, so no undo is needed.
func (w *W) side1(k *Value, v any) { w.side[k] = v }

// strText renders a possibly symbolic string under the current model.
func (w *W) strText(v Value) string {
	if s, ok := v.P.(*SymStr); ok {
		var sb strings.Builder
		for _, b := range s.B {
			if t, ok := b.P.(*Term); ok {
				sb.WriteByte(byte(w.tt.Eval(t, w.model)))
			} else {
				sb.WriteByte(byte(b.N))
			}
		}
		return sb.String()
	}
	return v.str()
}

func regAtomic(n map[string]Native) {
	kinds := map[string]reflect.Kind{"Int32": reflect.Int32, "Int64": reflect.Int64, "Uint32": reflect.Uint32, "Uint64": reflect.Uint64, "Uintptr": reflect.Uintptr, "Pointer": reflect.UnsafePointer}
	for name, k := range kinds {
		k := k
		ld := func(w *W, a []Value) Value { return *w.cell(a[0]) }
		st := func(w *W, a []Value) Value { w.store(w.cell(a[0]), a[1]); return Value{} }
		n["sync/atomic.Load"+name] = ld
		n["sync/atomic.Store"+name] = st
		n["sync/atomic.Swap"+name] = func(w *W, a []Value) Value {
			c := w.cell(a[0])
			o := *c
			w.store(c, a[1])
			return o
		}
		n["sync/atomic.CompareAndSwap"+name] = func(w *W, a []Value) Value {
			c := w.cell(a[0])
			var same bool
			if isInt(k) {
				r := w.tt.Eq(w.term(k, *c), w.term(k, a[1]))
				same = w.truth(w.boolV(r))
			} else {
				same = c.P == a[1].P
			}
			if same {
				w.store(c, a[2])
			}
			return vBool(same)
		}
		if isInt(k) {
			n["sync/atomic.Add"+name] = func(w *W, a []Value) Value {
				c := w.cell(a[0])
				v := w.arith(token.ADD, k, *c, a[1])
				w.store(c, v)
				return v
			}
			n["sync/atomic.And"+name] = func(w *W, a []Value) Value {
				c := w.cell(a[0])
				o := *c
				w.store(c, w.arith(token.AND, k, o, a[1]))
				return o
			}
			n["sync/atomic.Or"+name] = func(w *W, a []Value) Value {
				c := w.cell(a[0])
				o := *c
				w.store(c, w.arith(token.OR, k, o, a[1]))
				return o
			}
		}
	}
	av := func(w *W, v Value) *Value { return leaf(w.cell(v)) }
	n["(*sync/atomic.Value).Load"] = func(w *W, a []Value) Value { return *av(w, a[0]) }
	n["(*sync/atomic.Value).Store"] = func(w *W, a []Value) Value {
		if a[1].P == nil {
			panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("sync/atomic: store of nil value into Value")}}})
		}
		w.store(av(w, a[0]), a[1])
		return Value{}
	}
	n["(*sync/atomic.Value).Swap"] = func(w *W, a []Value) Value {
		c := av(w, a[0])
		o := *c
		w.store(c, a[1])
		return o
	}
	n["(*sync/atomic.Value).CompareAndSwap"] = func(w *W, a []Value) Value {
		c := av(w, a[0])
		same := w.truth(w.eqIface(*c, a[1]))
		if same {
			w.store(c, a[2])
		}
		return vBool(same)
	}
}

func (w *W) eqIface(a, b Value) Value { return w.eq(anyRT, a, b) }

func regSyncMap(ex *Explorer, n map[string]Native) {
	get := func(w *W, v Value) *Value { return leaf(w.cell(v)) }
	mk := func(w *W, v Value) Value {
		c := get(w, v)
		if _, ok := c.P.(*MapV); !ok {
			w.store(c, Value{P: newMap()})
		}
		return *c
	}
	p := "(*sync.Map)."
	n[p+"Load"] = func(w *W, a []Value) Value {
		v, ok := w.mapGet(mk(w, a[0]), anyRT, a[1])
		return tuple(v, vBool(ok))
	}
	n[p+"Store"] = func(w *W, a []Value) Value { w.mapSet(mk(w, a[0]), anyRT, a[1], a[2]); return Value{} }
	n[p+"LoadOrStore"] = func(w *W, a []Value) Value {
		m := mk(w, a[0])
		v, ok := w.mapGet(m, anyRT, a[1])
		if ok {
			return tuple(v, vBool(true))
		}
		w.mapSet(m, anyRT, a[1], a[2])
		return tuple(a[2], Value{})
	}
	n[p+"LoadAndDelete"] = func(w *W, a []Value) Value {
		m := mk(w, a[0])
		v, ok := w.mapGet(m, anyRT, a[1])
		if ok {
			w.mapDelete(m, anyRT, a[1])
		}
		return tuple(v, vBool(ok))
	}
	n[p+"Delete"] = func(w *W, a []Value) Value { w.mapDelete(mk(w, a[0]), anyRT, a[1]); return Value{} }
	n[p+"Swap"] = func(w *W, a []Value) Value {
		m := mk(w, a[0])
		v, ok := w.mapGet(m, anyRT, a[1])
		w.mapSet(m, anyRT, a[1], a[2])
		return tuple(v, vBool(ok))
	}
	n[p+"Clear"] = func(w *W, a []Value) Value { w.mapClear(mk(w, a[0]).P.(*MapV)); return Value{} }
	n[p+"CompareAndSwap"] = func(w *W, a []Value) Value {
		m := mk(w, a[0])
		v, ok := w.mapGet(m, anyRT, a[1])
		if ok && w.truth(w.eqIface(v, a[2])) {
			w.mapSet(m, anyRT, a[1], a[3])
			return vBool(true)
		}
		return Value{}
	}
	n[p+"CompareAndDelete"] = func(w *W, a []Value) Value {
		m := mk(w, a[0])
		v, ok := w.mapGet(m, anyRT, a[1])
		if ok && w.truth(w.eqIface(v, a[2])) {
			w.mapDelete(m, anyRT, a[1])
			return vBool(true)
		}
		return Value{}
	}
	// used by the model of Range
	n[harnessModule+"/models.syncMapEntries"] = func(w *W, a []Value) Value {
		m := mk(w, a[0]).P.(*MapV)
		var out []Value
		for _, e := range m.ents {
			if e.live {
				out = append(out, e.k, e.v)
			}
		}
		return vSlice(out)
	}
}

func regBytealg(n map[string]Native) {
	idxByte := func(get func(Value) []Value) Native {
		return func(w *W, a []Value) Value {
			s := get(a[0])
			for i, b := range s {
				if b.P == nil && a[1].P == nil {
					if b.N == a[1].N {
						return vInt(i)
					}
					continue
				}
				if w.decide(w.tt.Eq(w.term(reflect.Uint8, b), w.term(reflect.Uint8, a[1]))) {
					return vInt(i)
				}
			}
			return vInt(-1)
		}
	}
	sl := func(v Value) []Value { return v.slice() }
	n["internal/bytealg.IndexByte"] = idxByte(sl)
	n["internal/bytealg.IndexByteString"] = func(w *W, a []Value) Value {
		if s, ok := a[0].cstr(); ok && a[1].P == nil {
			return vInt(strings.IndexByte(s, byte(a[1].N)))
		}
		return idxByte(strBytes)(w, a)
	}
	lastIdx := func(get func(Value) []Value) Native {
		return func(w *W, a []Value) Value {
			s := get(a[0])
			for i := len(s) - 1; i >= 0; i-- {
				if w.decide(w.tt.Eq(w.term(reflect.Uint8, s[i]), w.term(reflect.Uint8, a[1]))) {
					return vInt(i)
				}
			}
			return vInt(-1)
		}
	}
	n["internal/bytealg.LastIndexByte"] = lastIdx(sl)
	n["internal/bytealg.LastIndexByteString"] = lastIdx(strBytes)
	count := func(get func(Value) []Value) Native {
		return func(w *W, a []Value) Value {
			c := 0
			for _, b := range get(a[0]) {
				if w.decide(w.tt.Eq(w.term(reflect.Uint8, b), w.term(reflect.Uint8, a[1]))) {
					c++
				}
			}
			return vInt(c)
		}
	}
	n["internal/bytealg.Count"] = count(sl)
	n["internal/bytealg.CountString"] = count(strBytes)
	n["internal/bytealg.Equal"] = func(w *W, a []Value) Value {
		return w.boolV(w.strEq(bytesToStrVal(a[0].slice()), bytesToStrVal(a[1].slice())))
	}
	n["bytes.Equal"] = n["internal/bytealg.Equal"]
	cmp := func(w *W, x, y []Value) Value {
		for i := 0; i < len(x) && i < len(y); i++ {
			p, q := w.term(reflect.Uint8, x[i]), w.term(reflect.Uint8, y[i])
			if w.decide(w.tt.Eq(p, q)) {
				continue
			}
			if w.decide(w.tt.Cmp("bvult", p, q)) {
				return vInt(-1)
			}
			return vInt(1)
		}
		switch {
		case len(x) < len(y):
			return vInt(-1)
		case len(x) > len(y):
			return vInt(1)
		}
		return Value{}
	}
	n["internal/bytealg.Compare"] = func(w *W, a []Value) Value { return cmp(w, a[0].slice(), a[1].slice()) }
	n["internal/bytealg.CompareString"] = func(w *W, a []Value) Value { return cmp(w, strBytes(a[0]), strBytes(a[1])) }
	n["internal/bytealg.abigen_runtime_cmpstring"] = n["internal/bytealg.CompareString"]
	n["runtime.cmpstring"] = n["internal/bytealg.CompareString"]
	index := func(w *W, s, sub []Value) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			r := w.tt.T
			for j := range sub {
				r = w.tt.And(r, w.tt.Eq(w.term(reflect.Uint8, s[i+j]), w.term(reflect.Uint8, sub[j])))
				if r == w.tt.F {
					break
				}
			}
			if w.decide(r) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}
	n["internal/bytealg.Index"] = func(w *W, a []Value) Value { return index(w, a[0].slice(), a[1].slice()) }
	n["internal/bytealg.IndexString"] = func(w *W, a []Value) Value { return index(w, strBytes(a[0]), strBytes(a[1])) }
	strIndex := func(w *W, a []Value) Value {
		x, ok1 := a[0].cstr()
		y, ok2 := a[1].cstr()
		if ok1 && ok2 {
			return vInt(strings.Index(x, y))
		}
		return index(w, strBytes(a[0]), strBytes(a[1]))
	}
	n["strings.Index"] = strIndex
	n["internal/stringslite.Index"] = strIndex
	conc2 := func(f func(a, b string) Value) Native {
		return func(w *W, a []Value) Value { return f(a[0].str(), a[1].str()) }
	}
	n["strings.EqualFold"] = conc2(func(a, b string) Value { return vBool(strings.EqualFold(a, b)) })
	conc1 := func(f func(string) string) Native {
		return func(w *W, a []Value) Value {
			return vStr(f(a[0].str()))
		}
	}
	n["strings.ToLower"] = conc1(strings.ToLower)
	n["strings.ToUpper"] = conc1(strings.ToUpper)
	n["strings.TrimSpace"] = conc1(strings.TrimSpace)
}
