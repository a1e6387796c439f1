package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k int32 // 0 register, 1 constant, 2 global
	i int32
	v Value
}

func (o *opnd) get(w *W, fr *Frame) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	return w.globals[o.i]
}

var funcCache sync.Map // *ssa.Function -> *Func

func (ex *Explorer) funcOf(fn *ssa.Function) *Func {
	if f, ok := funcCache.Load(fn); ok {
		return f.(*Func)
	}
	f := &Func{fn: fn, name: fn.String(), np: len(fn.Params), nf: len(fn.FreeVars), recPC: -1, sig: fn.Signature}
	f.nat = ex.findNative(fn)
	f.repo = ex.isRepoFn(fn)
	a, _ := funcCache.LoadOrStore(fn, f)
	return a.(*Func)
}

func (f *Func) prepare(ex *Explorer) {
	f.once.Do(func() {
		if m := ex.findModel(f.fn); m != nil {
			c := &compiler{ex: ex, f: f, fn: m}
			c.compile()
			return
		}
		c := &compiler{ex: ex, f: f, fn: f.fn}
		c.compile()
	})
	if f.errMsg != "" {
		panic(unsup{f.errMsg})
	}
}

type compiler struct {
	ex   *Explorer
	f    *Func
	fn   *ssa.Function
	reg  map[ssa.Value]int
	blk  []int // start pc of each block
	code []instr
	pos  []ssa.Instruction
	fix  []func()
}

func (c *compiler) compile() {
	f, fn := c.f, c.fn
	if fn.Blocks == nil {
		f.errMsg = "function without body: " + fn.String()
		f.code = []instr{func(w *W, fr *Frame) { unsupported("%s", f.errMsg) }}
		return
	}
	c.reg = map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		c.reg[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
		}
	}
	f.nregs = n
	c.blk = make([]int, len(fn.Blocks))
	for _, b := range fn.Blocks {
		c.blk[b.Index] = len(c.code)
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			k := c.instr(in)
			if k != nil {
				c.code = append(c.code, k)
				c.pos = append(c.pos, in)
			}
		}
	}
	for _, fx := range c.fix {
		fx()
	}
	if fn.Recover != nil {
		f.recPC = c.blk[fn.Recover.Index]
	}
	f.code = c.code
	f.pos = c.pos
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: constVal(v)}
	case *ssa.Global:
		return opnd{k: 2, i: int32(c.ex.globalIndex(v))}
	case *ssa.Function:
		return opnd{k: 1, v: Value{P: &Closure{Fn: c.ex.funcOf(v)}}}
	case *ssa.Builtin:
		return opnd{k: 1, v: Value{P: &Closure{Fn: c.ex.builtinFunc(v)}}}
	}
	i, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, c.fn))
	}
	return opnd{i: int32(i)}
}

func constVal(k *ssa.Const) Value {
	r := rtOf(k.Type())
	if k.Value == nil {
		return zeroOf(r)
	}
	switch {
	case r.Kind == reflect.Bool:
		return vBool(constant.BoolVal(k.Value))
	case r.Kind == reflect.String:
		if k.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(k.Value)
			return vStr(string(rune(i)))
		}
		return vStr(constant.StringVal(k.Value))
	case isInt(r.Kind):
		v := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Value{N: normInt(r.Kind, u)}
		}
		i, _ := constant.Int64Val(v)
		return Value{N: normInt(r.Kind, uint64(i))}
	case isFloat(r.Kind):
		fl, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if r.Kind == reflect.Float32 {
			fl = float64(float32(fl))
		}
		return vFloat(fl)
	case r.Kind == reflect.Complex128 || r.Kind == reflect.Complex64:
		cv := constant.ToComplex(k.Value)
		re, _ := constant.Float64Val(constant.Real(cv))
		im, _ := constant.Float64Val(constant.Imag(cv))
		return Value{P: complex(re, im)}
	case r.Kind == reflect.UnsafePointer:
		return Value{}
	}
	panic(fmt.Sprintf("constant %s of %s", k, r))
}

// jump compiles a control transfer from b to its succ-th successor.
func (c *compiler) jump(b *ssa.BasicBlock, succ int) func(w *W, fr *Frame) {
	t := b.Succs[succ]
	pi := -1
	nth := 0
	for i := 0; i < succ; i++ {
		if b.Succs[i] == t {
			nth++
		}
	}
	for i, p := range t.Preds {
		if p == b {
			if nth == 0 {
				pi = i
				break
			}
			nth--
		}
	}
	var dst []int
	var src []opnd
	for _, in := range t.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		dst = append(dst, c.reg[phi])
		src = append(src, c.op(phi.Edges[pi]))
	}
	ti := t.Index
	pc := new(int)
	c.fix = append(c.fix, func() { *pc = c.blk[ti] })
	switch len(dst) {
	case 0:
		return func(w *W, fr *Frame) { fr.pc = *pc }
	case 1:
		d, s := dst[0], src[0]
		return func(w *W, fr *Frame) {
			fr.regs[d] = s.get(w, fr)
			fr.pc = *pc
		}
	}
	return func(w *W, fr *Frame) {
		var buf [8]Value
		tmp := buf[:0]
		for i := range src {
			tmp = append(tmp, src[i].get(w, fr))
		}
		for i, d := range dst {
			fr.regs[d] = tmp[i]
		}
		fr.pc = *pc
	}
}

func (c *compiler) instr(in ssa.Instruction) instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		d := c.reg[in]
		rt := rtOf(in.Type()).Elem()
		if rt.Kind == reflect.Struct || rt.Kind == reflect.Array {
			return func(w *W, fr *Frame) {
				p := new(Value)
				*p = zeroOf(rt)
				fr.regs[d] = Value{P: p}
			}
		}
		return func(w *W, fr *Frame) { fr.regs[d] = Value{P: new(Value)} }
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.BinOp:
		d, x, y := c.reg[in], c.op(in.X), c.op(in.Y)
		return c.binop(in.Op, d, x, y, rtOf(in.X.Type()), rtOf(in.Y.Type()))
	case *ssa.ChangeType:
		d, x := c.reg[in], c.op(in.X)
		return func(w *W, fr *Frame) { fr.regs[d] = x.get(w, fr) }
	case *ssa.ChangeInterface:
		d, x := c.reg[in], c.op(in.X)
		return func(w *W, fr *Frame) { fr.regs[d] = x.get(w, fr) }
	case *ssa.Convert:
		d, x := c.reg[in], c.op(in.X)
		ft, tt := rtOf(in.X.Type()), rtOf(in.Type())
		return func(w *W, fr *Frame) { fr.regs[d] = w.convert(ft, tt, x.get(w, fr)) }
	case *ssa.MultiConvert:
		d, x := c.reg[in], c.op(in.X)
		ft, tt := rtOf(in.X.Type()), rtOf(in.Type())
		return func(w *W, fr *Frame) { fr.regs[d] = w.convert(ft, tt, x.get(w, fr)) }
	case *ssa.SliceToArrayPointer:
		d, x := c.reg[in], c.op(in.X)
		n := int(rtOf(in.Type()).Elem().U.(*types.Array).Len())
		return func(w *W, fr *Frame) {
			s := x.get(w, fr)
			if len(s.slice()) < n {
				w.rtPanic("cannot convert slice to array pointer: length too short")
			}
			if s.P == nil {
				fr.regs[d] = Value{}
				return
			}
			fr.regs[d] = Value{P: &Value{P: &Agg{F: s.slice()[:n:n]}}}
		}
	case *ssa.MakeInterface:
		d, x := c.reg[in], c.op(in.X)
		rt := rtOf(in.X.Type())
		if rt.Kind == reflect.Interface {
			return func(w *W, fr *Frame) { fr.regs[d] = x.get(w, fr) }
		}
		return func(w *W, fr *Frame) { fr.regs[d] = Value{P: &Iface{T: rt, V: x.get(w, fr)}} }
	case *ssa.MakeClosure:
		d := c.reg[in]
		f := c.ex.funcOf(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(w *W, fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(w, fr)
			}
			fr.regs[d] = Value{P: &Closure{Fn: f, Env: env}}
		}
	case *ssa.MakeMap:
		d := c.reg[in]
		return func(w *W, fr *Frame) { fr.regs[d] = Value{P: newMap()} }
	case *ssa.MakeChan:
		d, x := c.reg[in], c.op(in.Size)
		et := rtOf(in.Type()).Elem()
		return func(w *W, fr *Frame) {
			n := x.get(w, fr)
			fr.regs[d] = Value{P: &ChanV{cap: int(w.intVal(reflect.Int, n)), elem: et}}
		}
	case *ssa.MakeSlice:
		d, l, cp := c.reg[in], c.op(in.Len), c.op(in.Cap)
		et := rtOf(in.Type()).Elem()
		return func(w *W, fr *Frame) {
			n := int(w.intVal(reflect.Int, l.get(w, fr)))
			m := int(w.intVal(reflect.Int, cp.get(w, fr)))
			if n < 0 || n > 1<<26 {
				w.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<26 {
				w.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = Value{P: &SliceV{S: makeVals(et, n, m)}}
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.FieldAddr:
		d, x, i := c.reg[in], c.op(in.X), in.Field
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.P == nil {
				w.nilDeref()
			}
			p, ok := v.P.(*Value)
			if !ok {
				unsupported("field address of %T", v.P)
			}
			a, ok := p.P.(*Agg)
			if !ok || i >= len(a.F) {
				unsupported("field address: memory is not the expected struct (%T)", p.P)
			}
			fr.regs[d] = Value{P: &a.F[i]}
		}
	case *ssa.Field:
		d, x, i := c.reg[in], c.op(in.X), in.Field
		return func(w *W, fr *Frame) { fr.regs[d] = x.get(w, fr).P.(*Agg).F[i] }
	case *ssa.IndexAddr:
		d, x, y := c.reg[in], c.op(in.X), c.op(in.Index)
		xt := rtOf(in.X.Type())
		ik := rtOf(in.Index.Type()).Kind
		isArr := xt.Kind == reflect.Pointer
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			iv := y.get(w, fr)
			var s []Value
			if isArr {
				if v.P == nil {
					w.nilDeref()
				}
				s = v.P.(*Value).P.(*Agg).F
			} else if v.P != nil {
				s = v.P.(*SliceV).S
			}
			i := int(w.idx(ik, iv, len(s)))
			fr.regs[d] = Value{P: &s[i]}
		}
	case *ssa.Index:
		d, x, y := c.reg[in], c.op(in.X), c.op(in.Index)
		xt := rtOf(in.X.Type())
		ik := rtOf(in.Index.Type()).Kind
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			iv := y.get(w, fr)
			if xt.Kind == reflect.String {
				fr.regs[d] = w.strIndex(v, ik, iv)
				return
			}
			var s []Value
			if xt.Kind == reflect.Slice {
				s = v.slice()
			} else {
				s = v.P.(*Agg).F
			}
			fr.regs[d] = s[w.idx(ik, iv, len(s))]
		}
	case *ssa.Lookup:
		d, x, y := c.reg[in], c.op(in.X), c.op(in.Index)
		xt := rtOf(in.X.Type())
		ik := rtOf(in.Index.Type())
		if xt.Kind == reflect.String {
			return func(w *W, fr *Frame) { fr.regs[d] = w.strIndex(x.get(w, fr), ik.Kind, y.get(w, fr)) }
		}
		kt, et := xt.Key(), xt.Elem()
		commaOk := in.CommaOk
		return func(w *W, fr *Frame) {
			m := x.get(w, fr)
			v, ok := w.mapGet(m, kt, y.get(w, fr))
			if !ok {
				v = zeroOf(et)
			}
			if commaOk {
				fr.regs[d] = tuple(v, vBool(ok))
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.Select:
		d := c.reg[in]
		type sc struct {
			send bool
			ch   opnd
			val  opnd
		}
		var ss []sc
		nrecv := 0
		var rts []*RT
		for _, s := range in.States {
			k := sc{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
			if k.send {
				k.val = c.op(s.Send)
			} else {
				nrecv++
				rts = append(rts, rtOf(s.Chan.Type()).Elem())
			}
			ss = append(ss, k)
		}
		blocking := in.Blocking
		return func(w *W, fr *Frame) {
			cs := make([]selCase, len(ss))
			for i := range ss {
				cs[i].send = ss[i].send
				if ch, ok := ss[i].ch.get(w, fr).P.(*ChanV); ok {
					cs[i].ch = ch
				}
				if ss[i].send {
					cs[i].val = ss[i].val.get(w, fr)
				}
			}
			i, v, ok := w.selectOp(cs, blocking)
			res := make([]Value, 2+nrecv)
			res[0] = vInt(i)
			res[1] = vBool(ok)
			r := 0
			for j := range ss {
				if !ss[j].send {
					if j == i {
						res[2+r] = v
					} else {
						res[2+r] = zeroOf(rts[r])
					}
					r++
				}
			}
			fr.regs[d] = Value{P: &Agg{F: res}}
		}
	case *ssa.Range:
		d, x := c.reg[in], c.op(in.X)
		repo := c.f.repo
		xt := rtOf(in.X.Type())
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if xt.Kind == reflect.Map {
				fr.regs[d] = Value{P: w.newMapIter(v, repo)}
				return
			}
			fr.regs[d] = Value{P: &strIter{s: v.str()}}
		}
	case *ssa.Next:
		d, x := c.reg[in], c.op(in.Iter)
		var kz, vz *RT
		if tt, ok := in.Type().(*types.Tuple); ok {
			if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				kz = rtOf(tt.At(1).Type())
			}
			if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				vz = rtOf(tt.At(2).Type())
			}
		}
		z := func(r *RT) Value {
			if r == nil {
				return Value{}
			}
			return zeroOf(r)
		}
		return func(w *W, fr *Frame) {
			switch it := x.get(w, fr).P.(type) {
			case *strIter:
				op := it.pos
				w.undo(func() { it.pos = op })
				if it.pos >= len(it.s) {
					fr.regs[d] = tuple(Value{}, z(kz), z(vz))
					return
				}
				for i, r := range it.s[it.pos:] {
					if i > 0 {
						it.pos = op + i
						break
					}
					fr.regs[d] = tuple(vBool(true), vInt(op), Value{N: normInt(reflect.Int32, uint64(int64(r)))})
					it.pos = len(it.s)
				}
			case *mapIter:
				k, v, ok := it.next(w)
				if !ok {
					fr.regs[d] = tuple(Value{}, z(kz), z(vz))
					return
				}
				fr.regs[d] = tuple(vBool(true), k, v)
			default:
				unsupported("next on %T", it)
			}
		}
	case *ssa.TypeAssert:
		d, x := c.reg[in], c.op(in.X)
		at := rtOf(in.AssertedType)
		commaOk := in.CommaOk
		xt := rtOf(in.X.Type())
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			res, ok := w.typeAssert(v, at)
			if commaOk {
				if !ok {
					res = zeroOf(at)
				}
				fr.regs[d] = tuple(res, vBool(ok))
				return
			}
			if !ok {
				dyn := "nil"
				if i, ok := v.P.(*Iface); ok {
					dyn = i.T.String()
				}
				w.rtPanic("interface conversion: " + xt.String() + " is " + dyn + ", not " + at.String())
			}
			fr.regs[d] = res
		}
	case *ssa.Extract:
		d, x, i := c.reg[in], c.op(in.Tuple), in.Index
		return func(w *W, fr *Frame) { fr.regs[d] = x.get(w, fr).P.(*Agg).F[i] }
	case *ssa.Call:
		d := c.reg[in]
		return c.call(&in.Call, d)
	case *ssa.Go:
		get := c.callee(&in.Call)
		return func(w *W, fr *Frame) {
			f, args, env := get(w, fr)
			w.newG(f, args, env)
		}
	case *ssa.Defer:
		get := c.callee(&in.Call)
		if in.DeferStack != nil {
			ds := c.op(in.DeferStack)
			return func(w *W, fr *Frame) {
				f, args, env := get(w, fr)
				t := fr
				if x, ok := ds.get(w, fr).P.(*Frame); ok {
					_ = x
					unsupported("defer in range-over-func body")
				}
				t.defers = append(t.defers[:len(t.defers):len(t.defers)], deferRec{f, args, env})
			}
		}
		return func(w *W, fr *Frame) {
			f, args, env := get(w, fr)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferRec{f, args, env})
		}
	case *ssa.RunDefers:
		return func(w *W, fr *Frame) {
			if len(fr.defers) > 0 {
				fr.pc--
				w.pushDefer(fr)
			}
		}
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(w *W, fr *Frame) { w.ret(fr, Value{}) }
		case 1:
			x := c.op(in.Results[0])
			return func(w *W, fr *Frame) { w.ret(fr, x.get(w, fr)) }
		}
		var xs []opnd
		for _, r := range in.Results {
			xs = append(xs, c.op(r))
		}
		return func(w *W, fr *Frame) {
			a := &Agg{F: make([]Value, len(xs))}
			for i := range xs {
				a.F[i] = xs[i].get(w, fr)
			}
			w.ret(fr, Value{P: a})
		}
	case *ssa.Panic:
		x := c.op(in.X)
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.P == nil {
				w.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(goPanic{v})
		}
	case *ssa.Send:
		x, y := c.op(in.Chan), c.op(in.X)
		return func(w *W, fr *Frame) {
			ch, _ := x.get(w, fr).P.(*ChanV)
			w.selectOp([]selCase{{send: true, ch: ch, val: y.get(w, fr)}}, true)
		}
	case *ssa.Store:
		x, y := c.op(in.Addr), c.op(in.Val)
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.P == nil {
				w.nilDeref()
			}
			p, ok := v.P.(*Value)
			if !ok {
				unsupported("store through %T", v.P)
			}
			w.store(p, y.get(w, fr))
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := rtOf(in.Map.Type()).Key()
		return func(w *W, fr *Frame) { w.mapSet(x.get(w, fr), kt, k.get(w, fr), v.get(w, fr)) }
	case *ssa.If:
		x := c.op(in.Cond)
		j0, j1 := c.jump(in.Block(), 0), c.jump(in.Block(), 1)
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			b := v.N != 0
			if v.P != nil {
				b = w.decide(v.P.(*Term))
			}
			if b {
				j0(w, fr)
			} else {
				j1(w, fr)
			}
		}
	case *ssa.Jump:
		return instr(c.jump(in.Block(), 0))
	}
	msg := fmt.Sprintf("instruction %T: %s in %s", in, in, c.fn)
	return func(w *W, fr *Frame) { unsupported("%s", msg) }
}

func makeVals(et *RT, n, m int) []Value {
	s := make([]Value, m)
	if et.Kind == reflect.Struct || et.Kind == reflect.Array {
		for i := range s {
			s[i] = zeroOf(et)
		}
	}
	return s[:n]
}

func (w *W) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *W) idx(k reflect.Kind, v Value, n int) uint64 {
	if t, ok := v.P.(*Term); ok {
		wd := t.W
		var in *Term
		// unsigned comparison covers negative indices as well; the index type may be narrower than the length
		if wd < 64 && uint64(n) > mask(wd) {
			in = w.tt.T
			if isSigned(k) {
				in = w.tt.Cmp("bvsle", w.tt.Const(wd, 0), t)
			}
		} else {
			in = w.tt.Cmp("bvult", t, w.tt.Const(wd, uint64(n)))
		}
		if !w.decide(in) {
			w.rtPanic("index out of range with length " + itoa(n))
		}
		return w.concretize(t)
	}
	if v.N >= uint64(n) {
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(v.N), n))
	}
	return v.N
}

func (w *W) strIndex(s Value, k reflect.Kind, iv Value) Value {
	switch p := s.P.(type) {
	case *SymStr:
		return p.B[w.idx(k, iv, len(p.B))]
	case string:
		return Value{N: uint64(p[w.idx(k, iv, len(p))])}
	}
	w.idx(k, iv, 0)
	return Value{}
}

func (c *compiler) slice(in *ssa.Slice) instr {
	d, x := c.reg[in], c.op(in.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	var lk, hk, mk reflect.Kind
	if hasLo {
		lo = c.op(in.Low)
		lk = rtOf(in.Low.Type()).Kind
	}
	if hasHi {
		hi = c.op(in.High)
		hk = rtOf(in.High.Type()).Kind
	}
	if hasMax {
		mx = c.op(in.Max)
		mk = rtOf(in.Max.Type()).Kind
	}
	xt := rtOf(in.X.Type())
	return func(w *W, fr *Frame) {
		v := x.get(w, fr)
		l, h := 0, -1
		if hasLo {
			l = int(w.intVal(lk, lo.get(w, fr)))
		}
		if hasHi {
			h = int(w.intVal(hk, hi.get(w, fr)))
		}
		if xt.Kind == reflect.String {
			n := strLen(v)
			if !hasHi {
				h = n
			}
			if l < 0 || h < l || h > n {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if ss, ok := v.P.(*SymStr); ok {
				fr.regs[d] = bytesToStrVal(ss.B[l:h])
				return
			}
			s, _ := v.cstr()
			fr.regs[d] = vStr(s[l:h])
			return
		}
		var s []Value
		isNil := false
		if xt.Kind == reflect.Pointer {
			if v.P == nil {
				w.nilDeref()
			}
			s = v.P.(*Value).P.(*Agg).F
		} else if v.P != nil {
			s = v.P.(*SliceV).S
		} else {
			isNil = true
		}
		if !hasHi {
			h = len(s)
		}
		m := cap(s)
		if hasMax {
			m = int(w.intVal(mk, mx.get(w, fr)))
		}
		if l < 0 || h < l || m < h || m > cap(s) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(s)))
		}
		if isNil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{P: &SliceV{S: s[l:h:m]}}
	}
}

func (c *compiler) unop(in *ssa.UnOp) instr {
	d, x := c.reg[in], c.op(in.X)
	switch in.Op {
	case token.MUL:
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return func(w *W, fr *Frame) {
				v := x.get(w, fr)
				if v.P == nil {
					w.nilDeref()
				}
				p, ok := v.P.(*Value)
				if !ok {
					unsupported("load through %T", v.P)
				}
				fr.regs[d] = *p
				if _, ok := p.P.(*SliceV); ok { // *(*string)(unsafe.Pointer(&bytes))
					fr.regs[d] = bytesToStrVal(p.slice())
				}
			}
		}
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.P == nil {
				w.nilDeref()
			}
			p, ok := v.P.(*Value)
			if !ok {
				unsupported("load through %T", v.P)
			}
			if _, ok := p.P.(*Agg); ok {
				fr.regs[d] = copyVal(*p)
			} else {
				fr.regs[d] = *p
			}
		}
	case token.NOT:
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if t, ok := v.P.(*Term); ok {
				fr.regs[d] = w.boolV(w.tt.Not(t))
			} else {
				fr.regs[d] = Value{N: v.N ^ 1}
			}
		}
	case token.ARROW:
		commaOk := in.CommaOk
		return func(w *W, fr *Frame) {
			ch, _ := x.get(w, fr).P.(*ChanV)
			_, v, ok := w.selectOp([]selCase{{ch: ch}}, true)
			if commaOk {
				fr.regs[d] = tuple(v, vBool(ok))
			} else {
				fr.regs[d] = v
			}
		}
	case token.SUB:
		rt := rtOf(in.X.Type())
		k := rt.Kind
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			switch {
			case isFloat(k):
				fr.regs[d] = vFloat(-v.float())
			case k == reflect.Complex128 || k == reflect.Complex64:
				fr.regs[d] = Value{P: -cplx(v)}
			case v.P != nil:
				t := v.P.(*Term)
				fr.regs[d] = w.fromTerm(k, w.tt.Bin("bvsub", w.tt.Const(t.W, 0), t))
			default:
				fr.regs[d] = Value{N: normInt(k, -v.N)}
			}
		}
	case token.XOR:
		k := rtOf(in.X.Type()).Kind
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.P != nil {
				t := v.P.(*Term)
				fr.regs[d] = w.fromTerm(k, w.tt.Bin("bvxor", t, w.tt.Const(t.W, ^uint64(0))))
				return
			}
			fr.regs[d] = Value{N: normInt(k, ^v.N)}
		}
	}
	panic("unop " + in.Op.String())
}

func cplx(v Value) complex128 {
	if v.P == nil {
		return 0
	}
	return v.P.(complex128)
}

func (c *compiler) binop(op token.Token, d int, x, y opnd, xt, yt *RT) instr {
	k := xt.Kind
	switch {
	case op == token.EQL || op == token.NEQ:
		neg := op == token.NEQ
		fast := isInt(k) || k == reflect.Bool
		return func(w *W, fr *Frame) {
			a, b := x.get(w, fr), y.get(w, fr)
			var r Value
			if fast && a.P == nil && b.P == nil {
				r = vBool(a.N == b.N)
			} else {
				r = w.eq(xt, a, b)
			}
			if neg {
				if t, ok := r.P.(*Term); ok {
					r = w.boolV(w.tt.Not(t))
				} else {
					r.N ^= 1
				}
			}
			fr.regs[d] = r
		}
	case op == token.SHL || op == token.SHR:
		yk := yt.Kind
		return func(w *W, fr *Frame) {
			fr.regs[d] = w.shift(op, k, yk, x.get(w, fr), y.get(w, fr))
		}
	case isInt(k):
		switch op {
		case token.ADD:
			return func(w *W, fr *Frame) {
				a, b := x.get(w, fr), y.get(w, fr)
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: normInt(k, a.N+b.N)}
				} else {
					fr.regs[d] = w.fromTerm(k, w.tt.Bin("bvadd", w.term(k, a), w.term(k, b)))
				}
			}
		case token.SUB:
			return func(w *W, fr *Frame) {
				a, b := x.get(w, fr), y.get(w, fr)
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: normInt(k, a.N-b.N)}
				} else {
					fr.regs[d] = w.fromTerm(k, w.tt.Bin("bvsub", w.term(k, a), w.term(k, b)))
				}
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return func(w *W, fr *Frame) {
				a, b := x.get(w, fr), y.get(w, fr)
				fr.regs[d] = w.cmpInt(op, k, a, b)
			}
		}
		return func(w *W, fr *Frame) { fr.regs[d] = w.arith(op, k, x.get(w, fr), y.get(w, fr)) }
	case k == reflect.String:
		return func(w *W, fr *Frame) { fr.regs[d] = w.strOp(op, x.get(w, fr), y.get(w, fr)) }
	case isFloat(k):
		return func(w *W, fr *Frame) {
			av, bv := x.get(w, fr), y.get(w, fr)
			if av.P != nil || bv.P != nil {
				unsupported("symbolic float")
			}
			a, b := av.float(), bv.float()
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[d] = vBool(a < b)
				return
			case token.LEQ:
				fr.regs[d] = vBool(a <= b)
				return
			case token.GTR:
				fr.regs[d] = vBool(a > b)
				return
			case token.GEQ:
				fr.regs[d] = vBool(a >= b)
				return
			}
			if k == reflect.Float32 {
				r = float64(float32(r))
			}
			fr.regs[d] = vFloat(r)
		}
	case k == reflect.Complex128 || k == reflect.Complex64:
		return func(w *W, fr *Frame) {
			a, b := cplx(x.get(w, fr)), cplx(y.get(w, fr))
			switch op {
			case token.ADD:
				a += b
			case token.SUB:
				a -= b
			case token.MUL:
				a *= b
			case token.QUO:
				a /= b
			}
			fr.regs[d] = Value{P: a}
		}
	case k == reflect.Bool: // & | on bools (not in Go source, but be safe)
		return func(w *W, fr *Frame) {
			a, b := w.term(k, x.get(w, fr)), w.term(k, y.get(w, fr))
			switch op {
			case token.AND, token.LAND:
				fr.regs[d] = w.boolV(w.tt.And(a, b))
			default:
				fr.regs[d] = w.boolV(w.tt.Or(a, b))
			}
		}
	}
	return func(w *W, fr *Frame) { unsupported("binop %s on %s", op, xt) }
}

func (w *W) cmpInt(op token.Token, k reflect.Kind, a, b Value) Value {
	sg := isSigned(k)
	if a.P == nil && b.P == nil {
		var r bool
		if sg {
			x, y := int64(a.N), int64(b.N)
			switch op {
			case token.LSS:
				r = x < y
			case token.LEQ:
				r = x <= y
			case token.GTR:
				r = x > y
			default:
				r = x >= y
			}
		} else {
			x, y := a.N, b.N
			switch op {
			case token.LSS:
				r = x < y
			case token.LEQ:
				r = x <= y
			case token.GTR:
				r = x > y
			default:
				r = x >= y
			}
		}
		return vBool(r)
	}
	x, y := w.term(k, a), w.term(k, b)
	lt, le := "bvult", "bvule"
	if sg {
		lt, le = "bvslt", "bvsle"
	}
	switch op {
	case token.LSS:
		return w.boolV(w.tt.Cmp(lt, x, y))
	case token.LEQ:
		return w.boolV(w.tt.Cmp(le, x, y))
	case token.GTR:
		return w.boolV(w.tt.Cmp(lt, y, x))
	}
	return w.boolV(w.tt.Cmp(le, y, x))
}

func (w *W) arith(op token.Token, k reflect.Kind, a, b Value) Value {
	sg := isSigned(k)
	if op == token.QUO || op == token.REM {
		if b.P == nil && b.N == 0 {
			w.rtPanic("integer divide by zero")
		}
		if b.P != nil && w.decide(w.tt.Eq(w.term(k, b), w.tt.Const(bitsOf(k), 0))) {
			w.rtPanic("integer divide by zero")
		}
	}
	if a.P == nil && b.P == nil {
		x, y := a.N, b.N
		var r uint64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.AND_NOT:
			r = x &^ y
		case token.QUO:
			if sg {
				if int64(y) == -1 {
					r = -x
				} else {
					r = uint64(int64(x) / int64(y))
				}
			} else {
				r = x / y
			}
		case token.REM:
			if sg {
				if int64(y) == -1 {
					r = 0
				} else {
					r = uint64(int64(x) % int64(y))
				}
			} else {
				r = x % y
			}
		default:
			unsupported("arith %s", op)
		}
		return Value{N: normInt(k, r)}
	}
	x, y := w.term(k, a), w.term(k, b)
	switch op {
	case token.ADD:
		return w.fromTerm(k, w.tt.Bin("bvadd", x, y))
	case token.SUB:
		return w.fromTerm(k, w.tt.Bin("bvsub", x, y))
	case token.MUL:
		return w.fromTerm(k, w.tt.Bin("bvmul", x, y))
	case token.AND:
		return w.fromTerm(k, w.tt.Bin("bvand", x, y))
	case token.OR:
		return w.fromTerm(k, w.tt.Bin("bvor", x, y))
	case token.XOR:
		return w.fromTerm(k, w.tt.Bin("bvxor", x, y))
	case token.AND_NOT:
		return w.fromTerm(k, w.tt.Bin("bvand", x, w.tt.Bin("bvxor", y, w.tt.Const(y.W, ^uint64(0)))))
	case token.QUO:
		if sg {
			return w.fromTerm(k, w.tt.Bin("bvsdiv", x, y))
		}
		return w.fromTerm(k, w.tt.Bin("bvudiv", x, y))
	case token.REM:
		if sg {
			return w.fromTerm(k, w.tt.Bin("bvsrem", x, y))
		}
		return w.fromTerm(k, w.tt.Bin("bvurem", x, y))
	}
	unsupported("arith %s", op)
	return Value{}
}

func (w *W) shift(op token.Token, k, yk reflect.Kind, a, b Value) Value {
	bits := bitsOf(k)
	if b.P == nil {
		if isSigned(yk) && int64(b.N) < 0 {
			w.rtPanic("negative shift amount")
		}
		n := b.N
		if a.P == nil {
			if op == token.SHL {
				if n >= 64 {
					return Value{}
				}
				return Value{N: normInt(k, a.N<<n)}
			}
			if isSigned(k) {
				if n > 63 {
					n = 63
				}
				return Value{N: uint64(int64(a.N) >> n)}
			}
			if n >= 64 {
				return Value{}
			}
			return Value{N: a.N >> n}
		}
		if n > uint64(bits) {
			n = uint64(bits)
		}
		b = Value{N: n}
		t := a.P.(*Term)
		return w.fromTerm(k, w.tt.Bin(shOp(op, k), t, w.tt.Const(t.W, n)))
	}
	n := w.intVal(yk, b)
	return w.shift(op, k, yk, a, Value{N: n})
}

func shOp(op token.Token, k reflect.Kind) string {
	if op == token.SHL {
		return "bvshl"
	}
	if isSigned(k) {
		return "bvashr"
	}
	return "bvlshr"
}

func (w *W) strOp(op token.Token, a, b Value) Value {
	x, ok1 := a.cstr()
	y, ok2 := b.cstr()
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return vStr(x + y)
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	}
	bx, by := strBytes(a), strBytes(b)
	switch op {
	case token.ADD:
		r := make([]Value, 0, len(bx)+len(by))
		r = append(append(r, bx...), by...)
		return bytesToStrVal(r)
	case token.LSS:
		return w.boolV(w.strLess(bx, by))
	case token.GTR:
		return w.boolV(w.strLess(by, bx))
	case token.LEQ:
		return w.boolV(w.tt.Not(w.strLess(by, bx)))
	case token.GEQ:
		return w.boolV(w.tt.Not(w.strLess(bx, by)))
	}
	unsupported("string op %s", op)
	return Value{}
}

func (w *W) strLess(a, b []Value) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := w.tt.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(reflect.Uint8, a[i]), w.term(reflect.Uint8, b[i])
		r = w.tt.Or(w.tt.Cmp("bvult", x, y), w.tt.And(w.tt.Eq(x, y), r))
	}
	return r
}

func (w *W) strEq(a, b Value) *Term {
	x, y := strBytes(a), strBytes(b)
	if len(x) != len(y) {
		return w.tt.F
	}
	r := w.tt.T
	for i := range x {
		r = w.tt.And(r, w.tt.Eq(w.term(reflect.Uint8, x[i]), w.term(reflect.Uint8, y[i])))
		if r == w.tt.F {
			break
		}
	}
	return r
}

// eq compares two values of static type rt.
func (w *W) eq(rt *RT, a, b Value) Value {
	switch k := rt.Kind; {
	case isInt(k) || k == reflect.Bool:
		if a.P == nil && b.P == nil {
			return vBool(a.N == b.N)
		}
		return w.boolV(w.tt.Eq(w.term(k, a), w.term(k, b)))
	case isFloat(k):
		return vBool(a.float() == b.float())
	case k == reflect.Complex128 || k == reflect.Complex64:
		return vBool(cplx(a) == cplx(b))
	case k == reflect.String:
		x, ok1 := a.cstr()
		y, ok2 := b.cstr()
		if ok1 && ok2 {
			return vBool(x == y)
		}
		return w.boolV(w.strEq(a, b))
	case k == reflect.Interface:
		if a.P == nil || b.P == nil {
			return vBool(a.P == nil && b.P == nil)
		}
		x, ok1 := a.P.(*Iface)
		y, ok2 := b.P.(*Iface)
		if !ok1 || !ok2 {
			unsupported("interface comparison of %T and %T", a.P, b.P)
		}
		if x.T != y.T {
			return Value{}
		}
		if !types.Comparable(x.T.T) {
			w.rtPanic("comparing uncomparable type " + x.T.String())
		}
		return w.eq(x.T, x.V, y.V)
	case k == reflect.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		fs := rt.Fields()
		st := rt.U.(*types.Struct)
		r := w.tt.T
		for i, f := range fs {
			if st.Field(i).Name() == "_" {
				continue
			}
			e := w.eq(f, x.F[i], y.F[i])
			r = w.tt.And(r, w.term(reflect.Bool, e))
			if r == w.tt.F {
				return Value{}
			}
		}
		return w.boolV(r)
	case k == reflect.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		e := rt.Elem()
		r := w.tt.T
		for i := range x.F {
			q := w.eq(e, x.F[i], y.F[i])
			r = w.tt.And(r, w.term(reflect.Bool, q))
			if r == w.tt.F {
				return Value{}
			}
		}
		return w.boolV(r)
	case k == reflect.Slice || k == reflect.Map || k == reflect.Func:
		// only comparison with nil is legal
		return vBool(a.P == nil && b.P == nil)
	}
	// pointers, channels, unsafe pointers
	if a.P == nil && b.P == nil {
		return vBool(a.N == b.N)
	}
	return vBool(a.P == b.P)
}

func (w *W) convert(ft, tt *RT, v Value) Value {
	fk, tk := ft.Kind, tt.Kind
	switch {
	case isInt(fk) && isInt(tk):
		if v.P == nil {
			return Value{N: normInt(tk, v.N)}
		}
		t := v.P.(*Term)
		fb, tb := bitsOf(fk), bitsOf(tk)
		switch {
		case tb < fb:
			t = w.tt.Extract(tb-1, 0, t)
		case tb > fb && isSigned(fk):
			t = w.tt.Ext("sign_extend", tb, t)
		case tb > fb:
			t = w.tt.Ext("zero_extend", tb, t)
		}
		return w.fromTerm(tk, t)
	case isInt(fk) && isFloat(tk):
		n := w.intVal(fk, v)
		var f float64
		if isSigned(fk) {
			f = float64(int64(n))
		} else {
			f = float64(n)
		}
		if tk == reflect.Float32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	case isFloat(fk) && isInt(tk):
		f := v.float()
		if isSigned(tk) {
			return Value{N: normInt(tk, uint64(int64(f)))}
		}
		return Value{N: normInt(tk, uint64(f))}
	case isFloat(fk) && isFloat(tk):
		if tk == reflect.Float32 {
			return vFloat(float64(float32(v.float())))
		}
		return v
	case isInt(fk) && tk == reflect.String:
		n := w.intVal(fk, v)
		if int64(n) < 0 || n > 0x10ffff {
			return vStr("\uFFFD")
		}
		return vStr(string(rune(n)))
	case fk == reflect.String && tk == reflect.String:
		return v
	case fk == reflect.String && tk == reflect.Slice:
		if bitsOf(tt.Elem().Kind) == 8 {
			b := strBytes(v)
			c := make([]Value, len(b), roundCap(len(b)))
			copy(c, b)
			return vSlice(c)
		}
		rs := []rune(v.str())
		c := make([]Value, len(rs))
		for i, r := range rs {
			c[i].N = normInt(reflect.Int32, uint64(int64(r)))
		}
		return vSlice(c)
	case fk == reflect.Slice && tk == reflect.String:
		if bitsOf(ft.Elem().Kind) == 8 {
			return bytesToStrVal(v.slice())
		}
		var rs []rune
		for _, x := range v.slice() {
			rs = append(rs, rune(x.int()))
		}
		return vStr(string(rs))
	case tk == reflect.Uintptr && fk == reflect.UnsafePointer:
		return Value{N: uint64(addrOf(v.P)), P: nil}
	case fk == reflect.Uintptr && tk == reflect.UnsafePointer:
		if v.N == 0 {
			return Value{}
		}
		unsupported("uintptr to pointer conversion")
	case fk == reflect.Complex64 || fk == reflect.Complex128:
		return v
	case fk == reflect.Slice && tk == reflect.Array:
		n := int(tt.U.(*types.Array).Len())
		if len(v.slice()) < n {
			w.rtPanic("cannot convert slice to array: length too short")
		}
		return copyVal(Value{P: &Agg{F: v.slice()[:n]}})
	}
	return v // pointers, unsafe pointers, same underlying types
}

func roundCap(n int) int {
	if n <= 8 {
		return 8
	}
	return (n + 15) &^ 15
}

func (w *W) implements(t *RT, it *RT) bool {
	if v, ok := t.extra.Load(it); ok {
		return v.(bool)
	}
	i := it.U.(*types.Interface)
	var r bool
	if t.Kind == reflect.Interface {
		r = types.Implements(t.T, i)
	} else {
		r = types.Implements(t.T, i)
	}
	t.extra.Store(it, r)
	return r
}

func (w *W) typeAssert(v Value, at *RT) (Value, bool) {
	i, ok := v.P.(*Iface)
	if !ok {
		return Value{}, false
	}
	if at.Kind == reflect.Interface {
		if w.implements(i.T, at) {
			return v, true
		}
		return Value{}, false
	}
	if i.T == at {
		return i.V, true
	}
	return Value{}, false
}

// method finds the implementation of an interface method for a dynamic type.
func (ex *Explorer) method(t *RT, pkg *types.Package, name string) *Func {
	key := name
	if !token.IsExported(name) && pkg != nil {
		key = pkg.Path() + "." + name
	}
	if f, ok := t.methods.Load(key); ok {
		return f.(*Func)
	}
	fn := ex.lookupMethod(t.T, pkg, name)
	if fn == nil {
		return nil
	}
	f := ex.funcOf(fn)
	t.methods.Store(key, f)
	return f
}

// callee returns a resolver for the target of a call.
func (c *compiler) callee(call *ssa.CallCommon) func(w *W, fr *Frame) (*Func, []Value, []Value) {
	var as []opnd
	for _, a := range call.Args {
		as = append(as, c.op(a))
	}
	if call.IsInvoke() {
		x := c.op(call.Value)
		m := call.Method
		name, pkg := m.Name(), m.Pkg()
		var lastT *RT
		var lastF *Func
		var mu sync.Mutex
		return func(w *W, fr *Frame) (*Func, []Value, []Value) {
			v := x.get(w, fr)
			if v.P == nil {
				w.nilDeref()
			}
			i, ok := v.P.(*Iface)
			if !ok {
				unsupported("invoke on %T", v.P)
			}
			mu.Lock()
			var f *Func
			if lastT == i.T {
				f = lastF
			}
			mu.Unlock()
			if f == nil {
				f = w.ex.method(i.T, pkg, name)
				if f == nil {
					unsupported("method %s not found on %s", name, i.T)
				}
				mu.Lock()
				lastT, lastF = i.T, f
				mu.Unlock()
			}
			args := make([]Value, len(as)+1)
			args[0] = i.V
			for j := range as {
				args[j+1] = as[j].get(w, fr)
			}
			return f, args, nil
		}
	}
	switch fn := call.Value.(type) {
	case *ssa.Function:
		f := c.ex.funcOf(fn)
		return func(w *W, fr *Frame) (*Func, []Value, []Value) {
			args := make([]Value, len(as))
			for j := range as {
				args[j] = as[j].get(w, fr)
			}
			return f, args, nil
		}
	case *ssa.Builtin:
		f := c.ex.builtinFor(fn, call)
		return func(w *W, fr *Frame) (*Func, []Value, []Value) {
			args := make([]Value, len(as))
			for j := range as {
				args[j] = as[j].get(w, fr)
			}
			return f, args, nil
		}
	}
	x := c.op(call.Value)
	return func(w *W, fr *Frame) (*Func, []Value, []Value) {
		v := x.get(w, fr)
		if v.P == nil {
			w.nilDeref()
		}
		cl, ok := v.P.(*Closure)
		if !ok {
			unsupported("call of %T", v.P)
		}
		args := make([]Value, len(as))
		for j := range as {
			args[j] = as[j].get(w, fr)
		}
		return cl.Fn, args, cl.Env
	}
}

func (c *compiler) call(call *ssa.CallCommon, d int) instr {
	if call.Signature().Results().Len() == 0 {
		if _, ok := call.Value.(*ssa.Builtin); !ok {
			d = -1
		}
	}
	if fn, ok := call.Value.(*ssa.Function); ok && !call.IsInvoke() {
		f := c.ex.funcOf(fn)
		var as []opnd
		for _, a := range call.Args {
			as = append(as, c.op(a))
		}
		if f.nat == nil {
			return func(w *W, fr *Frame) {
				f.prepare(w.ex)
				nf := &Frame{fn: f, regs: make([]Value, f.nregs), caller: fr, dst: d}
				for j := range as {
					nf.regs[j] = as[j].get(w, fr)
				}
				w.fr = nf
				if f.hit == 0 {
					f.hit = 1
				}
			}
		}
	}
	get := c.callee(call)
	return func(w *W, fr *Frame) {
		f, args, env := get(w, fr)
		w.call(f, args, env, d)
	}
}

// ---- builtins

func (ex *Explorer) builtinFunc(b *ssa.Builtin) *Func {
	return &Func{name: b.Name(), nat: func(w *W, args []Value) Value {
		unsupported("builtin %s as value", b.Name())
		return Value{}
	}}
}

func growCap(old, need int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	return nc
}

// sizeClass rounds an allocation like the Go runtime does for small sizes.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundAlloc(n int) int {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

var stdSizes = types.SizesFor("gc", "amd64")

func appendVals(et *RT, s []Value, add []Value) []Value {
	need := len(s) + len(add)
	if need <= cap(s) {
		return nil
	}
	nc := growCap(cap(s), need)
	sz := int(stdSizes.Sizeof(et.T))
	if sz > 0 {
		nc = roundAlloc(nc*sz) / sz
	}
	if nc < need {
		nc = need
	}
	ns := make([]Value, need, nc)
	copy(ns, s)
	for i := len(s); i < need; i++ {
		ns[i] = add[i-len(s)]
	}
	if et.Kind == reflect.Struct || et.Kind == reflect.Array {
		// the old elements keep their own storage: copy
		for i := range ns {
			ns[i] = copyVal(ns[i])
		}
		tail := ns[:nc]
		for i := need; i < nc; i++ {
			tail[i] = zeroOf(et)
		}
	}
	return ns
}

func (w *W) appendOp(et *RT, a Value, add []Value) Value {
	s := a.slice()
	if len(add) == 0 {
		return a
	}
	if ns := appendVals(et, s, add); ns != nil {
		return vSlice(ns)
	}
	ns := s[:len(s)+len(add)]
	// values may alias: read first
	tmp := append([]Value(nil), add...)
	if et.Kind == reflect.Struct || et.Kind == reflect.Array {
		for i := range tmp {
			tmp[i] = copyVal(tmp[i])
		}
	}
	for i := range tmp {
		w.store(&ns[len(s)+i], tmp[i])
	}
	return vSlice(ns)
}

func (w *W) copyOp(dst []Value, src []Value) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	tmp := make([]Value, n)
	for i := range tmp {
		tmp[i] = copyVal(src[i])
	}
	for i := range tmp {
		w.store(&dst[i], tmp[i])
	}
	return n
}

func (ex *Explorer) builtinFor(b *ssa.Builtin, call *ssa.CallCommon) *Func {
	var at []*RT
	for _, a := range call.Args {
		at = append(at, rtOf(a.Type()))
	}
	f := &Func{name: "builtin " + b.Name(), np: len(at), recPC: -1}
	nat := func(fn Native) *Func { f.nat = fn; return f }
	switch b.Name() {
	case "len":
		k := at[0]
		return nat(func(w *W, a []Value) Value {
			switch k.Kind {
			case reflect.String:
				return vInt(strLen(a[0]))
			case reflect.Map:
				if a[0].P == nil {
					return Value{}
				}
				return vInt(a[0].P.(*MapV).n)
			case reflect.Chan:
				if a[0].P == nil {
					return Value{}
				}
				return vInt(len(a[0].P.(*ChanV).buf))
			case reflect.Array:
				return vInt(len(a[0].agg().F))
			case reflect.Pointer:
				return vInt(int(k.Elem().U.(*types.Array).Len()))
			}
			return vInt(len(a[0].slice()))
		})
	case "cap":
		k := at[0]
		return nat(func(w *W, a []Value) Value {
			switch k.Kind {
			case reflect.Chan:
				if a[0].P == nil {
					return Value{}
				}
				return vInt(a[0].P.(*ChanV).cap)
			case reflect.Array:
				return vInt(len(a[0].agg().F))
			case reflect.Pointer:
				return vInt(int(k.Elem().U.(*types.Array).Len()))
			}
			return vInt(cap(a[0].slice()))
		})
	case "append":
		et := at[0].Elem()
		if len(at) == 1 {
			return nat(func(w *W, a []Value) Value { return a[0] })
		}
		if at[1].Kind == reflect.String {
			return nat(func(w *W, a []Value) Value { return w.appendOp(et, a[0], strBytes(a[1])) })
		}
		return nat(func(w *W, a []Value) Value { return w.appendOp(et, a[0], a[1].slice()) })
	case "copy":
		if at[1].Kind == reflect.String {
			return nat(func(w *W, a []Value) Value { return vInt(w.copyOp(a[0].slice(), strBytes(a[1]))) })
		}
		return nat(func(w *W, a []Value) Value { return vInt(w.copyOp(a[0].slice(), a[1].slice())) })
	case "delete":
		kt := at[0].Key()
		return nat(func(w *W, a []Value) Value { w.mapDelete(a[0], kt, a[1]); return Value{} })
	case "clear":
		k := at[0]
		return nat(func(w *W, a []Value) Value {
			if a[0].P == nil {
				return Value{}
			}
			if k.Kind == reflect.Map {
				w.mapClear(a[0].P.(*MapV))
			} else {
				z := zeroOf(k.Elem())
				s := a[0].slice()
				for i := range s {
					w.store(&s[i], z)
				}
			}
			return Value{}
		})
	case "close":
		return nat(func(w *W, a []Value) Value {
			ch, _ := a[0].P.(*ChanV)
			w.closeChan(ch)
			return Value{}
		})
	case "panic":
		return nat(func(w *W, a []Value) Value { panic(goPanic{a[0]}) })
	case "recover":
		return nat(func(w *W, a []Value) Value {
			fr := w.fr
			if fr.fn.fn == nil { // deferred directly: wrapper frame
				// defer recover() does not recover
				return Value{}
			}
			if fr.isDefer && fr.caller.unw != nil && !fr.caller.unw.recovered {
				fr.caller.unw.recovered = true
				return fr.caller.unw.v
			}
			return Value{}
		})
	case "print", "println":
		return nat(func(w *W, a []Value) Value { return Value{} })
	case "min", "max":
		k := at[0].Kind
		mx := b.Name() == "max"
		return nat(func(w *W, a []Value) Value {
			r := a[0]
			for _, x := range a[1:] {
				var less bool
				switch {
				case isInt(k):
					lt := w.cmpInt(token.LSS, k, x, r)
					if mx {
						lt = w.cmpInt(token.LSS, k, r, x)
					}
					if t, ok := lt.P.(*Term); ok {
						r = w.fromTerm(k, w.tt.Ite(t, w.term(k, x), w.term(k, r)))
						continue
					}
					less = lt.N != 0
				case k == reflect.String:
					less = x.str() < r.str()
					if mx {
						less = x.str() > r.str()
					}
				default:
					if mx {
						less = x.float() > r.float() || math.IsNaN(x.float())
					} else {
						less = x.float() < r.float() || math.IsNaN(x.float())
					}
				}
				if less {
					r = x
				}
			}
			return r
		})
	case "real":
		return nat(func(w *W, a []Value) Value { return vFloat(real(cplx(a[0]))) })
	case "imag":
		return nat(func(w *W, a []Value) Value { return vFloat(imag(cplx(a[0]))) })
	case "complex":
		return nat(func(w *W, a []Value) Value { return Value{P: complex(a[0].float(), a[1].float())} })
	case "ssa:wrapnilchk":
		return nat(func(w *W, a []Value) Value {
			if a[0].P == nil {
				w.rtPanic("value method called using nil pointer")
			}
			return a[0]
		})
	case "ssa:deferstack":
		return nat(func(w *W, a []Value) Value { return Value{} })
	case "String": // unsafe.String
		return nat(func(w *W, a []Value) Value {
			n := a[1].int()
			if n == 0 {
				return Value{}
			}
			return bytesToStrVal(valsAt(a[0], n))
		})
	case "StringData":
		return nat(func(w *W, a []Value) Value {
			b := strBytes(a[0])
			if len(b) == 0 {
				return Value{P: new(Value)}
			}
			c := append([]Value(nil), b...)
			return Value{P: &c[0]}
		})
	case "SliceData":
		return nat(func(w *W, a []Value) Value {
			s := a[0].slice()
			if a[0].P == nil {
				return Value{}
			}
			if cap(s) == 0 {
				return Value{P: new(Value)}
			}
			return Value{P: &s[:1][0]}
		})
	case "Slice": // unsafe.Slice
		return nat(func(w *W, a []Value) Value {
			if a[0].P == nil {
				return Value{}
			}
			return vSlice(valsAt(a[0], a[1].int()))
		})
	}
	return nat(func(w *W, a []Value) Value { unsupported("builtin %s", b.Name()); return Value{} })
}
