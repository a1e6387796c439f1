package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type instr func(w *W, fr *Frame)

// Native implements a function of the program in the executor.
type Native func(w *W, args []Value) Value

// Func is a compiled function, shared by all workers.
type Func struct {
	name   string
	fn     *ssa.Function
	once   sync.Once
	code   []instr
	pos    []ssa.Instruction
	nregs  int
	np     int
	nf     int
	recPC  int
	nat    Native
	res    *RT // result type (tuple: nil)
	sig    *types.Signature
	repo   bool // belongs to the code under test
	hit    int32
	errMsg string
}

type deferRec struct {
	fn   *Func
	args []Value
	env  []Value
}

type PanicRec struct {
	v         Value
	recovered bool
	where     string
}

type Frame struct {
	fn      *Func
	regs    []Value
	pc      int
	caller  *Frame
	dst     int
	defers  []deferRec
	unw     *PanicRec
	recing  bool
	isDefer bool
	hook    func(w *W, v Value) Value
}

// G is an interpreted goroutine.
type G struct {
	id       int
	top      *Frame
	done     bool
	blk      func(w *W) bool // non-nil: blocked until it returns true
	wake     int64           // >0: virtual time (ns) at which a sleep ends
	sel      *selWait
	what     string
	settling bool
	system   bool // started by the environment model, not counted as a leak
}

type trailEnt struct {
	c   *Value
	old Value
	fn  func()
}

type goPanic struct{ v Value }
type blockSig struct{}
type pathEnd struct{ why string }

// choice is a pending alternative of the depth-first search.
type choice struct {
	mark     int
	gs       []*G
	cur      int
	pend     []dec
	now      int64
	alt      *Term // constraint of the alternative
	altModel Model
	nbits    int
	steps    int64
	seqs     seqState
	depth    int // solver depth before this choice
	pathLog  int
	reached  int
	timers   []*timerV
}

// seqState is small scalar state saved at choices.
type seqState struct {
	gid, chanSeq, uid, timerSeq int
	mapOrder                    int
	schedAll                    bool
	busyAt                      int64 // instruction of the path after which it counts as spinning
}

// W is one worker: a heap, a solver and a depth-first search.
type W struct {
	ex      *Explorer
	id      int
	fr      *Frame
	g       *G
	gs      []*G
	trail   []trailEnt
	globals []Value
	tt      *TermTable
	sol     *Solver
	model   Model
	steps   int64

	insPC   int
	insFr   *Frame
	insMark int
	pend    []dec
	pendI   int
	pushed  bool
	natDst  int

	stack        []*choice
	bits         []dec // decisions of the current path
	prefix       []dec // decisions still to be replayed
	prefixI      int
	counter      map[string]int
	vars         map[string]*Term
	now          int64
	timers       []*timerV
	seqs         seqState
	pathLog      []string
	reachL       []string
	pathVars     []*Term
	side         map[any]any
	inInit       bool
	pathSteps    int64
	pathDec      int
	pathAsserts  int
	branchQ      int
	lastDeadline int64
	hostObj      map[string]any
	noTrail      bool
	inputs       map[string]uint64 // concrete replay of a counterexample in the executor
}

func (w *W) store(c *Value, v Value) {
	if a, ok := c.P.(*Agg); ok {
		if b, ok := v.P.(*Agg); ok {
			if a == b {
				return
			}
			for i := range a.F {
				w.store(&a.F[i], b.F[i])
			}
			return
		}
	}
	if !w.noTrail {
		w.trail = append(w.trail, trailEnt{c: c, old: *c})
	}
	if _, ok := v.P.(*Agg); ok {
		v = copyVal(v)
	}
	*c = v
}

func (w *W) undo(fn func()) {
	if !w.noTrail {
		w.trail = append(w.trail, trailEnt{fn: fn})
	}
}

func (w *W) rollback(mark int) {
	for i := len(w.trail) - 1; i >= mark; i-- {
		e := &w.trail[i]
		if e.c != nil {
			*e.c = e.old
		} else {
			e.fn()
		}
		*e = trailEnt{}
	}
	w.trail = w.trail[:mark]
}

func cloneStack(f *Frame) *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	if len(f.defers) > 0 {
		n.defers = append([]deferRec(nil), f.defers...)
	}
	if f.unw != nil {
		u := *f.unw
		n.unw = &u
	}
	n.caller = cloneStack(f.caller)
	return &n
}

func cloneGs(gs []*G) []*G {
	r := make([]*G, len(gs))
	for i, g := range gs {
		n := *g
		n.top = cloneStack(g.top)
		if g.sel != nil {
			c := *g.sel
			n.sel = &c
		}
		r[i] = &n
	}
	return r
}

func (w *W) newFrame(f *Func, args []Value, env []Value, dst int) *Frame {
	f.prepare(w.ex)
	fr := &Frame{fn: f, regs: make([]Value, f.nregs), caller: w.fr, dst: dst}
	copy(fr.regs, args)
	copy(fr.regs[f.np:], env)
	return fr
}

// callValue calls f with args; the result goes to register dst of the current frame.
func (w *W) call(f *Func, args []Value, env []Value, dst int) {
	if f.nat != nil {
		w.pushed = false
		w.natDst = dst
		v := f.nat(w, args)
		if !w.pushed && dst >= 0 {
			w.fr.regs[dst] = v
		}
		return
	}
	w.fr = w.newFrame(f, args, env, dst)
	if f.hit == 0 {
		f.hit = 1
	}
}

// pushCall is used by natives to call back into the program. hook transforms the result.
func (w *W) pushCall(c *Closure, args []Value, hook func(w *W, v Value) Value) {
	w.pushed = true
	dst := w.natDst
	fr := w.newFrame(c.Fn.asFrameFunc(), args, c.Env, dst)
	fr.hook = hook
	w.fr = fr
	if c.Fn.hit == 0 {
		c.Fn.hit = 1
	}
}

// asFrameFunc returns a function that can run in a frame of its own (wraps natives).
func (f *Func) asFrameFunc() *Func {
	if f.nat == nil {
		return f
	}
	if w, ok := natWrap.Load(f); ok {
		return w.(*Func)
	}
	n := f.np
	if f.fn != nil {
		n = len(f.fn.Params)
	}
	wf := &Func{name: f.name, np: n, nregs: n + 1, recPC: -1}
	wf.once.Do(func() {})
	wf.code = []instr{
		func(w *W, fr *Frame) {
			w.pushed = false
			w.natDst = n
			v := f.nat(w, fr.regs[:n])
			if !w.pushed {
				fr.regs[n] = v
			}
		},
		func(w *W, fr *Frame) { w.ret(fr, fr.regs[n]) },
	}
	natWrap.Store(f, wf)
	return wf
}

var natWrap sync.Map

func (w *W) ret(fr *Frame, v Value) {
	caller := fr.caller
	w.fr = caller
	if fr.isDefer {
		if caller.unw != nil {
			rec := caller.unw
			if rec.recovered {
				caller.unw = nil
				caller.recing = true
				w.continueRecover(caller)
			} else {
				w.unwind(rec)
			}
		} else if caller.recing {
			w.continueRecover(caller)
		}
		return
	}
	if fr.hook != nil {
		w.pushed = false
		w.natDst = fr.dst
		v = fr.hook(w, v)
		if w.pushed {
			return
		}
	}
	if caller != nil && fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
}

func (w *W) pushDefer(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	w.fr = fr
	nf := w.newFrame(d.fn.asFrameFunc(), d.args, d.env, -1)
	nf.isDefer = true
	if d.fn.hit == 0 {
		d.fn.hit = 1
	}
	w.fr = nf
}

func (w *W) continueRecover(fr *Frame) {
	if len(fr.defers) > 0 {
		w.pushDefer(fr)
		return
	}
	fr.recing = false
	if fr.fn.recPC >= 0 {
		fr.pc = fr.fn.recPC
		return
	}
	var v Value
	if fr.fn.sig != nil {
		rs := fr.fn.sig.Results()
		if rs.Len() == 1 {
			v = zeroOf(rtOf(rs.At(0).Type()))
		} else if rs.Len() > 1 {
			a := &Agg{}
			for i := 0; i < rs.Len(); i++ {
				a.F = append(a.F, zeroOf(rtOf(rs.At(i).Type())))
			}
			v = Value{P: a}
		}
	}
	w.ret(fr, v)
}

func (w *W) unwind(rec *PanicRec) {
	for {
		fr := w.fr
		if fr == nil {
			panic(pathEnd{"panic: " + w.panicText(rec.v) + rec.where})
		}
		if len(fr.defers) > 0 {
			fr.unw = rec
			fr.recing = false
			w.pushDefer(fr)
			return
		}
		w.fr = fr.caller
	}
}

func (w *W) startPanic(v Value) {
	w.unwind(&PanicRec{v: v, where: w.where(w.insFr)})
}

// where describes the source position of a frame.
func (w *W) where(fr *Frame) string {
	s := ""
	for n := 0; fr != nil && n < 8; n++ {
		if fr.fn.fn != nil {
			pc := fr.pc - 1
			p := ""
			for pc >= 0 && pc < len(fr.fn.pos) {
				if fr.fn.pos[pc] != nil && fr.fn.pos[pc].Pos().IsValid() {
					p = w.ex.prog.Fset.Position(fr.fn.pos[pc].Pos()).String()
					break
				}
				pc--
			}
			s += "\n    " + fr.fn.name + " " + p
		}
		fr = fr.caller
	}
	return s
}

func (w *W) panicText(v Value) string {
	if i, ok := v.P.(*Iface); ok {
		if i.T.Kind == reflect.String {
			if s, ok := i.V.cstr(); ok {
				return s
			}
		}
		if i.T.Kind == reflect.Pointer {
			if p, ok := i.V.P.(*Value); ok && p != nil {
				return i.T.String() + " " + dbg(*p, 3)
			}
		}
		return i.T.String() + " " + dbg(i.V, 3)
	}
	return dbg(v, 2)
}

func (w *W) rtPanic(msg string) {
	panic(goPanic{Value{P: &Iface{T: w.ex.rtErrorType, V: vStr(msg)}}})
}

func (w *W) block(what string, pred func(w *W) bool) {
	w.g.blk = pred
	w.g.what = what
	panic(blockSig{})
}

// runPath executes until the current path ends; it returns the reason.
func (w *W) runPath() (why string) {
	for {
		if w.fr == nil {
			// goroutine finished
			w.g.top = nil
			w.g.done = true
			if w.g.id == 0 {
				return "done"
			}
			if r := w.schedule(); r != "" {
				return r
			}
			continue
		}
		if r := w.runChunk(); r != "" {
			return r
		}
	}
}

func (w *W) runChunk() (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							if pe, ok := r2.(pathEnd); ok {
								why = pe.why
								return
							}
							panic(r2)
						}
					}()
					w.pend = w.pend[:0]
					w.startPanic(r.v)
				}()
			case blockSig:
				w.fr = w.insFr
				w.fr.pc = w.insPC
				w.rollback(w.insMark)
				w.pend = w.pend[:0]
				why = w.schedule()
			case unsup:
				why = "unsupported: " + r.msg + w.where(w.insFr)
			case pathEnd:
				why = r.why
			case error:
				if w.ex.debug {
					fmt.Println("host panic at", w.where(w.insFr))
					panic(r)
				}
				why = "unsupported: internal: " + r.Error() + w.where(w.insFr)
			default:
				fmt.Println("host panic at", w.where(w.insFr))
				panic(r)
			}
		}
	}()
	for w.fr != nil {
		fr := w.fr
		w.steps++
		if w.steps&0x3fff == 0 {
			if w.steps-w.pathSteps > w.ex.maxSteps {
				return "bound: instruction budget of the path exhausted" + w.where(fr)
			}
			if w.seqs.busyAt > 0 && w.steps-w.pathSteps > w.seqs.busyAt {
				return "livelock: the program spins without end" + w.where(fr)
			}
			if w.ex.expired() {
				return "timeout"
			}
		}
		w.insPC = fr.pc
		w.insFr = fr
		w.insMark = len(w.trail)
		w.pendI = 0
		fr.pc++
		fr.fn.code[fr.pc-1](w, fr)
		if len(w.pend) > 0 {
			w.pend = w.pend[:0]
		}
	}
	return ""
}

// dec is one decision: bit 0 of f is its value, bit 1 says that both sides were feasible; v is the candidate of a
// concretisation.
type dec struct {
	f byte
	v uint64
}

// decide resolves a symbolic condition on the current path.
func (w *W) decide(c *Term) bool { return w.decideV(c, 0) }

func (w *W) decideV(c *Term, val uint64) bool {
	if c.isConst() {
		return c.K != 0
	}
	if w.pendI < len(w.pend) {
		b := w.pend[w.pendI].f&1 != 0
		w.pendI++
		return b
	}
	if w.inInit {
		unsupported("symbolic decision during initialisation")
	}
	w.pathDec++
	if w.prefixI < len(w.prefix) {
		p := w.prefix[w.prefixI]
		w.prefixI++
		b := p.f&1 != 0
		if p.f&2 != 0 {
			t := c
			if !b {
				t = w.tt.Not(c)
			}
			w.sol.Push()
			w.sol.Assert(t)
			w.stack = append(w.stack, nil) // level without alternative here
		}
		w.bits = append(w.bits, p)
		w.pend = append(w.pend, p)
		w.pendI++
		if w.prefixI == len(w.prefix) {
			// the model must be brought in line with the path condition
			res, m := w.sol.Check(nil, true)
			if res == "unsat" {
				panic(pathEnd{"infeasible"})
			}
			if res == "sat" {
				w.model = m
			}
		}
		return b
	}
	b := w.tt.Eval(c, w.model) != 0
	other := w.tt.Not(c)
	this := c
	if !b {
		this, other = other, this
	}
	w.branchQ++
	res, om := w.sol.Check(other, true)
	d := dec{v: val}
	if b {
		d.f = 1
	}
	if res == "unsat" {
		w.bits = append(w.bits, d)
		w.pend = append(w.pend, d)
		w.pendI++
		return b
	}
	if res == "unknown" {
		om = nil
		w.ex.noteUnknown()
	}
	// both feasible
	d.f |= 2
	if forkProf != nil {
		forkProf.add(w)
	}
	alt := dec{f: d.f ^ 1, v: val}
	if w.ex.wantWork() {
		w.ex.donate(append(append([]dec(nil), w.bits...), alt))
		w.stack = append(w.stack, nil)
	} else {
		w.g.top = w.insFr
		savedPC := w.insFr.pc
		w.insFr.pc = w.insPC
		ch := &choice{
			mark: w.insMark, gs: cloneGs(w.gs), now: w.now, alt: other, altModel: om,
			nbits: len(w.bits), steps: w.steps - w.pathSteps, seqs: w.seqs, depth: w.sol.depth,
			pathLog: len(w.pathLog), reached: len(w.reachL), timers: w.timers,
		}
		w.insFr.pc = savedPC
		for i, g := range w.gs {
			if g == w.g {
				ch.cur = i
			}
		}
		ch.pend = append(append([]dec(nil), w.pend...), alt)
		w.stack = append(w.stack, ch)
	}
	w.sol.Push()
	w.sol.Assert(this)
	w.bits = append(w.bits, d)
	w.pend = append(w.pend, d)
	w.pendI++
	return b
}

// backtrack goes to the next alternative; false if there is none.
func (w *W) backtrack() bool {
	for len(w.stack) > 0 {
		ch := w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		w.sol.Pop(1)
		if ch == nil {
			continue
		}
		if w.sol.depth != ch.depth {
			panic("solver depth mismatch")
		}
		w.rollback(ch.mark)
		w.gs = ch.gs
		w.g = w.gs[ch.cur]
		w.fr = w.g.top
		w.now = ch.now
		w.timers = ch.timers
		w.seqs = ch.seqs
		w.pend = ch.pend
		w.pendI = 0
		w.pathLog = w.pathLog[:ch.pathLog]
		w.reachL = w.reachL[:ch.reached]
		w.pathSteps = w.steps - ch.steps
		// the alternative is a level of its own, without a further alternative
		w.bits = append(w.bits[:ch.nbits], ch.pend[len(ch.pend)-1])
		w.stack = append(w.stack, nil)
		w.sol.Push()
		w.sol.Assert(ch.alt)
		if ch.altModel != nil {
			w.model = ch.altModel
		} else {
			res, m := w.sol.Check(nil, true)
			if res == "unsat" {
				continue
			}
			if m != nil {
				w.model = m
			}
		}
		return true
	}
	return false
}

// concretize forks over the feasible values of t.
func (w *W) concretize(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isConst() {
			return t.K
		}
		if i > 4096 {
			unsupported("too many values in concretisation")
		}
		var v uint64
		switch {
		case w.pendI < len(w.pend):
			v = w.pend[w.pendI].v
		case w.prefixI < len(w.prefix):
			v = w.prefix[w.prefixI].v
		default:
			v = w.tt.Eval(t, w.model)
		}
		if w.decideV(w.tt.Eq(t, w.tt.Const(t.W, v)), v) {
			return v
		}
	}
}

func (w *W) truth(v Value) bool {
	if t, ok := v.P.(*Term); ok {
		return w.decide(t)
	}
	return v.N != 0
}

// intVal concretises an integer of kind k.
func (w *W) intVal(k reflect.Kind, v Value) uint64 {
	if t, ok := v.P.(*Term); ok {
		return fromTermConst(k, w.concretize(t))
	}
	return v.N
}

func fromTermConst(k reflect.Kind, n uint64) uint64 { return normInt(k, n) }

func (w *W) term(k reflect.Kind, v Value) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if k == reflect.Bool {
		return w.tt.Bool(v.N != 0)
	}
	return w.tt.Const(bitsOf(k), v.N)
}

func (w *W) fromTerm(k reflect.Kind, t *Term) Value {
	if t.isConst() {
		if k == reflect.Bool {
			return Value{N: t.K}
		}
		return Value{N: normInt(k, t.K)}
	}
	return Value{P: t}
}

func (w *W) boolV(t *Term) Value { return w.fromTerm(reflect.Bool, t) }

var startTime = time.Now()

// forkProfile counts where the search forks (for -forks).
type forkProfile struct {
	mu sync.Mutex
	n  map[string]int
}

var forkProf *forkProfile

func (p *forkProfile) add(w *W) {
	p.mu.Lock()
	p.n[strings.ReplaceAll(w.where(w.fr), "\n   ", " <")]++
	p.mu.Unlock()
}

func (p *forkProfile) print() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range p.n {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, e := range l {
		if i == 25 {
			break
		}
		fmt.Println(e.n, e.k)
	}
}
