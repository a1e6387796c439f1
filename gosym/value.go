package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is one interpreted Go value. Concrete integers, booleans and floats live in N (P == nil); everything else in
// P. The zero Value is the zero value of every type except structs and arrays, which are *Agg.
type Value struct {
	N uint64
	P any
}

// Agg is a struct or array. In a memory cell it is owned by the cell and mutated in place (so that field pointers stay
// valid); in a register it is immutable.
type Agg struct{ F []Value }

// SliceV is a non-nil slice.
type SliceV struct{ S []Value }

// Iface is a non-nil interface value.
type Iface struct {
	T *RT
	V Value
}

// Closure is a non-nil func value.
type Closure struct {
	Fn  *Func
	Env []Value
}

// SymStr is a string of concrete length with at least one symbolic byte.
type SymStr struct{ B []Value }

// RT is a canonical runtime type: one pointer per type identity.
type RT struct {
	T    types.Type
	U    types.Type
	Kind reflect.Kind
	id   int
	elem atomic.Pointer[RT]
	key  atomic.Pointer[RT]
	ptr  atomic.Pointer[RT]
	// fields of struct types
	fieldsOnce sync.Once
	fieldRT    []*RT
	methods    sync.Map // name -> *Func
	extra      sync.Map
}

var (
	rtFast sync.Map // types.Type -> *RT
	rtMu   sync.Mutex
	rtSlow typeutil.Map
	rtN    int
)

func rtOf(t types.Type) *RT {
	if r, ok := rtFast.Load(t); ok {
		return r.(*RT)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	t2 := types.Unalias(t)
	if r := rtSlow.At(t2); r != nil {
		rtFast.Store(t, r)
		return r.(*RT)
	}
	rtN++
	r := &RT{T: t2, U: t2.Underlying(), id: rtN}
	r.Kind = kindOf(r.U)
	rtSlow.Set(t2, r)
	rtFast.Store(t, r)
	return r
}

func kindOf(u types.Type) reflect.Kind {
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128, types.UntypedComplex:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer, types.UntypedNil:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (r *RT) Elem() *RT {
	if e := r.elem.Load(); e != nil {
		return e
	}
	var e *RT
	switch u := r.U.(type) {
	case *types.Pointer:
		e = rtOf(u.Elem())
	case *types.Slice:
		e = rtOf(u.Elem())
	case *types.Array:
		e = rtOf(u.Elem())
	case *types.Chan:
		e = rtOf(u.Elem())
	case *types.Map:
		e = rtOf(u.Elem())
	default:
		return nil
	}
	r.elem.Store(e)
	return e
}

func (r *RT) Key() *RT {
	if e := r.key.Load(); e != nil {
		return e
	}
	e := rtOf(r.U.(*types.Map).Key())
	r.key.Store(e)
	return e
}

func (r *RT) PtrTo() *RT {
	if e := r.ptr.Load(); e != nil {
		return e
	}
	e := rtOf(types.NewPointer(r.T))
	r.ptr.Store(e)
	return e
}

func (r *RT) Fields() []*RT {
	r.fieldsOnce.Do(func() {
		st, ok := r.U.(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			r.fieldRT = append(r.fieldRT, rtOf(st.Field(i).Type()))
		}
	})
	return r.fieldRT
}

func (r *RT) String() string { return r.T.String() }

func isSigned(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }
func isUnsigned(k reflect.Kind) bool {
	return k >= reflect.Uint && k <= reflect.Uintptr
}
func isInt(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Uintptr }
func isFloat(k reflect.Kind) bool {
	return k == reflect.Float32 || k == reflect.Float64
}

func bitsOf(k reflect.Kind) int {
	switch k {
	case reflect.Bool:
		return 1
	case reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	default:
		return 64
	}
}

// normInt brings n into the canonical representation of kind k: sign-extended for signed kinds, zero-extended otherwise.
func normInt(k reflect.Kind, n uint64) uint64 {
	switch k {
	case reflect.Int8:
		return uint64(int64(int8(n)))
	case reflect.Int16:
		return uint64(int64(int16(n)))
	case reflect.Int32:
		return uint64(int64(int32(n)))
	case reflect.Uint8:
		return uint64(uint8(n))
	case reflect.Uint16:
		return uint64(uint16(n))
	case reflect.Uint32:
		return uint64(uint32(n))
	case reflect.Bool:
		return n & 1
	}
	return n
}

func zeroOf(r *RT) Value {
	switch r.Kind {
	case reflect.Struct:
		fs := r.Fields()
		a := &Agg{F: make([]Value, len(fs))}
		for i, f := range fs {
			if f.Kind == reflect.Struct || f.Kind == reflect.Array {
				a.F[i] = zeroOf(f)
			}
		}
		return Value{P: a}
	case reflect.Array:
		n := int(r.U.(*types.Array).Len())
		a := &Agg{F: make([]Value, n)}
		e := r.Elem()
		if e.Kind == reflect.Struct || e.Kind == reflect.Array {
			for i := range a.F {
				a.F[i] = zeroOf(e)
			}
		}
		return Value{P: a}
	}
	return Value{}
}

// copyVal copies an aggregate out of memory.
func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{F: make([]Value, len(a.F))}
		for i := range a.F {
			if _, ok := a.F[i].P.(*Agg); ok {
				n.F[i] = copyVal(a.F[i])
			} else {
				n.F[i] = a.F[i]
			}
		}
		return Value{P: n}
	}
	return v
}

func vInt(n int) Value   { return Value{N: uint64(n)} }
func vI64(n int64) Value { return Value{N: uint64(n)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}
func vBool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func vFloat(f float64) Value { return Value{N: math.Float64bits(f)} }
func vF32(f float32) Value   { return Value{N: math.Float64bits(float64(f))} }
func (v Value) float() float64 {
	return math.Float64frombits(v.N)
}
func tuple(vs ...Value) Value { return Value{P: &Agg{F: vs}} }

func (v Value) agg() *Agg { return v.P.(*Agg) }
func (v Value) isNil() bool {
	return v.P == nil
}

// str returns the concrete string, panics with unsupported if symbolic.
func (v Value) str() string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.B))
		for i, x := range s.B {
			if x.P != nil {
				unsupported("symbolic string where a concrete one is needed")
			}
			b[i] = byte(x.N)
		}
		return string(b)
	}
	panic(unsup{fmt.Sprintf("not a string: %T", v.P)})
}

func (v Value) cstr() (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (v Value) int() int {
	if v.P != nil {
		unsupported("symbolic integer where a concrete one is needed")
	}
	return int(v.N)
}

func (v Value) slice() []Value {
	if v.P == nil {
		return nil
	}
	return v.P.(*SliceV).S
}

func vSlice(s []Value) Value { return Value{P: &SliceV{S: s}} }

func bytesToVals(b []byte) []Value {
	r := make([]Value, len(b))
	for i, c := range b {
		r[i].N = uint64(c)
	}
	return r
}

// valsToBytes returns ok=false if some byte is symbolic.
func valsToBytes(v []Value) ([]byte, bool) {
	b := make([]byte, len(v))
	for i := range v {
		if v[i].P != nil {
			return nil, false
		}
		b[i] = byte(v[i].N)
	}
	return b, true
}

func bytesToStrVal(v []Value) Value {
	if b, ok := valsToBytes(v); ok {
		return vStr(string(b))
	}
	c := make([]Value, len(v))
	copy(c, v)
	return Value{P: &SymStr{B: c}}
}

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.B
	}
	panic(unsup{fmt.Sprintf("strBytes of %T", v.P)})
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(unsup{fmt.Sprintf("strLen of %T", v.P)})
}

type unsup struct{ msg string }

func unsupported(f string, a ...any) { panic(unsup{fmt.Sprintf(f, a...)}) }

func ptrOf(v Value) *Value {
	if v.P == nil {
		return nil
	}
	p, ok := v.P.(*Value)
	if !ok {
		panic(unsup{fmt.Sprintf("not a pointer: %T", v.P)})
	}
	return p
}

func addrOf(p any) uintptr {
	switch p := p.(type) {
	case *Value:
		return uintptr(unsafe.Pointer(p))
	case *Agg:
		return uintptr(unsafe.Pointer(p))
	case *MapV:
		return uintptr(unsafe.Pointer(p))
	case *ChanV:
		return uintptr(unsafe.Pointer(p))
	case *Closure:
		return uintptr(unsafe.Pointer(p))
	case *RT:
		return uintptr(unsafe.Pointer(p))
	case *SliceV:
		if cap(p.S) == 0 {
			return 1
		}
		return uintptr(unsafe.Pointer(&p.S[:1][0]))
	case nil:
		return 0
	}
	return 2
}

// debug formatting
func dbg(v Value, d int) string {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprint(int64(v.N))
	case string:
		return fmt.Sprintf("%q", p)
	case *Term:
		return p.String()
	case *Agg:
		if d <= 0 {
			return "{..}"
		}
		var s []string
		for _, f := range p.F {
			s = append(s, dbg(f, d-1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *SliceV:
		if d <= 0 {
			return "[..]"
		}
		var s []string
		for _, f := range p.S {
			s = append(s, dbg(f, d-1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *Iface:
		return "(" + p.T.String() + ")" + dbg(p.V, d-1)
	case *Value:
		if p == nil {
			return "nil"
		}
		if d <= 0 {
			return "&.."
		}
		return "&" + dbg(*p, d-1)
	case *Closure:
		return "func " + p.Fn.name
	case *SymStr:
		var s []string
		for _, f := range p.B {
			s = append(s, dbg(f, d-1))
		}
		return "symstr[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("%T", v.P)
}
