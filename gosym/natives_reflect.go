package main

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RVal is the content of a reflect.Value.
type RVal struct {
	t   *RT
	v   Value
	ptr *Value // non-nil: addressable
	ro  bool   // obtained through an unexported field
	emb bool   // and that is an embedded one: its exported fields are open
}

var anyRT = rtOf(types.NewInterfaceType(nil, nil).Complete())

func (r *RVal) get() Value {
	if r.ptr != nil {
		return copyVal(*r.ptr)
	}
	return r.v
}

// raw returns the value without copying aggregates.
func (r *RVal) raw() Value {
	if r.ptr != nil {
		return *r.ptr
	}
	return r.v
}

func mkRV(r *RVal) Value {
	a := &Agg{F: make([]Value, 3)}
	if r != nil {
		a.F[0].P = r
	}
	return Value{P: a}
}

func rv(v Value) *RVal {
	a, ok := v.P.(*Agg)
	if !ok || len(a.F) == 0 {
		return nil
	}
	r, _ := a.F[0].P.(*RVal)
	return r
}

func ifaceOf(rt *RT, v Value) Value {
	if rt.Kind == reflect.Interface {
		return v
	}
	return Value{P: &Iface{T: rt, V: v}}
}

func (ex *Explorer) mkType(rt *RT) Value {
	if rt == nil {
		return Value{}
	}
	return Value{P: &Iface{T: ex.rtypeRT, V: Value{P: rt}}}
}

func typeOfVal(v Value) *RT {
	switch p := v.P.(type) {
	case *RT:
		return p
	case *Iface:
		if r, ok := p.V.P.(*RT); ok {
			return r
		}
		if a, ok := p.V.P.(*Agg); ok {
			if r, ok := a.F[0].P.(*RT); ok {
				return r
			}
		}
	case *Agg:
		if len(p.F) > 0 {
			if r, ok := p.F[0].P.(*RT); ok {
				return r
			}
		}
	}
	unsupported("not a reflect.Type: %T", v.P)
	return nil
}

func qual(p *types.Package) string { return p.Name() }

func typeString(t types.Type) string { return types.TypeString(t, qual) }

func reflectName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		s := t.Obj().Name()
		if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return "Pointer"
		}
		return t.Name()
	}
	return ""
}

func reflectString(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		if t.Obj().Pkg() != nil {
			return t.Obj().Pkg().Name() + "." + reflectName(t)
		}
		return t.Obj().Name()
	case *types.Pointer:
		return "*" + reflectString(t.Elem())
	case *types.Slice:
		return "[]" + reflectString(t.Elem())
	case *types.Array:
		return "[" + strconv.FormatInt(t.Len(), 10) + "]" + reflectString(t.Elem())
	case *types.Map:
		return "map[" + reflectString(t.Key()) + "]" + reflectString(t.Elem())
	case *types.Alias:
		return reflectString(types.Unalias(t))
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "interface {}"
		}
	}
	return typeString(t)
}

func pkgPathOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

type methodInfo struct {
	sel  *types.Selection
	name string
	fn   *types.Func
}

// exportedMethods returns the exported methods in the order of reflect.
func (ex *Explorer) exportedMethods(rt *RT) []methodInfo {
	type key struct{}
	if m, ok := rt.extra.Load(key{}); ok {
		return m.([]methodInfo)
	}
	var r []methodInfo
	if it, ok := rt.U.(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			f := it.Method(i)
			if f.Exported() {
				r = append(r, methodInfo{name: f.Name(), fn: f})
			}
		}
	} else {
		ms := ex.prog.MethodSets.MethodSet(rt.T)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Exported() {
				r = append(r, methodInfo{sel: s, name: s.Obj().Name(), fn: s.Obj().(*types.Func)})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	rt.extra.Store(key{}, r)
	return r
}

// sigWithRecv returns the signature of the method as a function with receiver as first parameter.
func sigPlain(f *types.Func) *types.Signature {
	s := f.Type().(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func sigRecv(rt *RT, f *types.Func) *types.Signature {
	s := f.Type().(*types.Signature)
	var ps []*types.Var
	ps = append(ps, types.NewVar(token.NoPos, nil, "", rt.T))
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, s.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), s.Results(), s.Variadic())
}

// boundMethod makes a closure calling method m on receiver v of type rt.
func (w *W) boundMethod(rt *RT, v Value, m methodInfo) Value {
	var f *Func
	if rt.Kind == reflect.Interface {
		i, ok := v.P.(*Iface)
		if !ok {
			w.nilDeref()
		}
		f = w.ex.method(i.T, m.fn.Pkg(), m.name)
		v = i.V
	} else {
		f = w.ex.method(rt, m.fn.Pkg(), m.name)
	}
	if f == nil {
		unsupported("method %s of %s", m.name, rt)
	}
	recv := v
	ff := f.asFrameFunc()
	bf := &Func{name: f.name, np: m.fn.Type().(*types.Signature).Params().Len(), recPC: -1}
	bf.nat = func(w *W, a []Value) Value {
		args := append([]Value{recv}, a...)
		w.pushCall(&Closure{Fn: ff}, args, nil)
		return Value{}
	}
	return Value{P: &Closure{Fn: bf}}
}

func (w *W) structField(st *types.Struct, i int, owner *RT) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	var vars []*types.Var
	for j := 0; j < st.NumFields(); j++ {
		vars = append(vars, st.Field(j))
	}
	return Value{P: &Agg{F: []Value{vStr(f.Name()), vStr(pkg), w.ex.mkType(rtOf(f.Type())), vStr(st.Tag(i)), Value{N: uint64(stdSizes.Offsetsof(vars)[i])}, vSlice([]Value{vInt(i)}), vBool(f.Embedded())}}}
}

func structFieldWithIndex(sf Value, idx []int) Value {
	c := copyVal(sf)
	var is []Value
	for _, i := range idx {
		is = append(is, vInt(i))
	}
	c.agg().F[5] = vSlice(is)
	return c
}

func (w *W) field(r *RVal, i int) *RVal {
	st, ok := r.t.U.(*types.Struct)
	if !ok {
		w.rtPanic("reflect: call of reflect.Value.Field on " + r.t.Kind.String() + " Value")
	}
	if i < 0 || i >= st.NumFields() {
		w.rtPanic("reflect: Field index out of range")
	}
	ft := r.t.Fields()[i]
	sticky := r.ro && !r.emb
	ro := sticky || !st.Field(i).Exported()
	emb := ro && !sticky && st.Field(i).Embedded()
	if r.ptr != nil {
		return &RVal{t: ft, ptr: &r.ptr.agg().F[i], ro: ro, emb: emb}
	}
	return &RVal{t: ft, v: r.v.agg().F[i], ro: ro, emb: emb}
}

// fieldIndex resolves a possibly promoted field.
func fieldIndex(rt *RT, name string) ([]int, bool) {
	// exported or not: search in the package of the struct
	var pkg *types.Package
	if n, ok := rt.T.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else if st, ok := rt.U.(*types.Struct); ok && st.NumFields() > 0 {
		pkg = st.Field(0).Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(rt.T, true, pkg, name)
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return idx, true
	}
	// methods shadow fields in LookupFieldOrMethod only at the same depth; try direct fields
	if st, ok := rt.U.(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}, true
			}
		}
	}
	return nil, false
}

func (w *W) fieldByIndex(r *RVal, idx []int) *RVal {
	for k, i := range idx {
		if k > 0 && r.t.Kind == reflect.Pointer {
			p := r.get()
			if p.P == nil {
				w.rtPanic("reflect: indirection through nil pointer to embedded struct")
			}
			r = &RVal{t: r.t.Elem(), ptr: p.P.(*Value), ro: r.ro, emb: r.emb}
		}
		r = w.field(r, i)
	}
	return r
}

func (w *W) rIsZero(rt *RT, v Value) *Term {
	switch rt.Kind {
	case reflect.Struct:
		r := w.tt.T
		for i, f := range rt.Fields() {
			r = w.tt.And(r, w.rIsZero(f, v.agg().F[i]))
		}
		return r
	case reflect.Array:
		r := w.tt.T
		for i := range v.agg().F {
			r = w.tt.And(r, w.rIsZero(rt.Elem(), v.agg().F[i]))
		}
		return r
	}
	switch p := v.P.(type) {
	case nil:
		return w.tt.Bool(v.N == 0)
	case *Term:
		if p.W == 0 {
			return w.tt.Not(p)
		}
		return w.tt.Eq(p, w.tt.Const(p.W, 0))
	}
	return w.tt.F
}

// deepEq is reflect.DeepEqual.
func (w *W) deepEq(rt *RT, a, b Value, seen map[[2]any]bool) *Term {
	t := w.tt
	switch rt.Kind {
	case reflect.Struct:
		r := t.T
		for i, f := range rt.Fields() {
			r = t.And(r, w.deepEq(f, a.agg().F[i], b.agg().F[i], seen))
			if r == t.F {
				return r
			}
		}
		return r
	case reflect.Array:
		r := t.T
		for i := range a.agg().F {
			r = t.And(r, w.deepEq(rt.Elem(), a.agg().F[i], b.agg().F[i], seen))
			if r == t.F {
				return r
			}
		}
		return r
	case reflect.Slice:
		if (a.P == nil) != (b.P == nil) {
			return t.F
		}
		x, y := a.slice(), b.slice()
		if len(x) != len(y) {
			return t.F
		}
		if len(x) > 0 {
			if &x[0] == &y[0] {
				return t.T
			}
			k := [2]any{&x[0], &y[0]}
			if seen[k] {
				return t.T
			}
			seen[k] = true
		}
		r := t.T
		for i := range x {
			r = t.And(r, w.deepEq(rt.Elem(), x[i], y[i], seen))
			if r == t.F {
				return r
			}
		}
		return r
	case reflect.Map:
		if (a.P == nil) != (b.P == nil) {
			return t.F
		}
		if a.P == nil || a.P == b.P {
			return t.T
		}
		x, y := a.P.(*MapV), b.P.(*MapV)
		if x.n != y.n {
			return t.F
		}
		r := t.T
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			v, ok := w.mapGet(b, rt.Key(), e.k)
			if !ok {
				return t.F
			}
			r = t.And(r, w.deepEq(rt.Elem(), e.v, v, seen))
			if r == t.F {
				return r
			}
		}
		return r
	case reflect.Pointer:
		if a.P == b.P {
			return t.T
		}
		if a.P == nil || b.P == nil {
			return t.F
		}
		if _, ok := a.P.(*Value); !ok {
			return t.F
		}
		k := [2]any{a.P, b.P}
		if seen[k] {
			return t.T
		}
		seen[k] = true
		return w.deepEq(rt.Elem(), *a.P.(*Value), *b.P.(*Value), seen)
	case reflect.Interface:
		if a.P == nil || b.P == nil {
			return t.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.T != y.T {
			return t.F
		}
		return w.deepEq(x.T, x.V, y.V, seen)
	case reflect.Func:
		return t.Bool(a.P == nil && b.P == nil)
	}
	return w.term(reflect.Bool, w.eq(rt, a, b))
}

func (w *W) deepEqAny(a, b Value) Value {
	return w.boolV(w.deepEq(anyRT, a, b, map[[2]any]bool{}))
}

func (w *W) valPanic(method string, r *RVal) {
	k := "zero"
	if r != nil {
		k = r.t.Kind.String()
	}
	panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect: call of " + method + " on " + k + " Value")}}})
}

func (w *W) assignTo(dst *RT, r *RVal) Value {
	v := r.get()
	if dst.Kind == reflect.Interface {
		if r.t.Kind == reflect.Interface {
			return v
		}
		if !w.implements(r.t, dst) {
			panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect.Set: value of type " + reflectString(r.t.T) + " is not assignable to type " + reflectString(dst.T))}}})
		}
		return ifaceOf(r.t, v)
	}
	if r.t != dst && !types.AssignableTo(r.t.T, dst.T) {
		panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect.Set: value of type " + reflectString(r.t.T) + " is not assignable to type " + reflectString(dst.T))}}})
	}
	return v
}

func (w *W) mustSet(r *RVal, m string) {
	if r == nil {
		w.valPanic(m, r)
	}
	if r.ptr == nil {
		panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect: " + m + " using unaddressable value")}}})
	}
	if r.ro {
		panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect: " + m + " using value obtained using unexported field")}}})
	}
}

// rconvert is reflect's Convert.
func (w *W) rconvert(r *RVal, dst *RT) *RVal {
	if dst.Kind == reflect.Interface {
		if r.t.Kind == reflect.Interface {
			return &RVal{t: dst, v: r.get()}
		}
		if !w.implements(r.t, dst) {
			w.valPanic("reflect.Value.Convert", r)
		}
		return &RVal{t: dst, v: ifaceOf(r.t, r.get())}
	}
	if !types.ConvertibleTo(r.t.T, dst.T) {
		panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect.Value.Convert: value of type " + reflectString(r.t.T) + " cannot be converted to type " + reflectString(dst.T))}}})
	}
	return &RVal{t: dst, v: w.convert(r.t, dst, r.get()), ro: r.ro}
}

func (w *W) sliceOfVals(rs []*RVal) []*RVal { return rs }

type mapIterR struct {
	r   *RVal
	ks  []Value
	pos int
}

func regReflect(ex *Explorer, n map[string]Native) {
	for _, lite := range []bool{false, true} {
		regReflect1(ex, n, lite)
	}
}

func regReflect1(ex *Explorer, n map[string]Native, lite bool) {
	pkg := "reflect"
	tp := "(*reflect.rtype)."
	if lite {
		pkg = "internal/reflectlite"
		tp = "(internal/reflectlite.rtype)."
	}
	vp := "(" + pkg + ".Value)."
	mkType := func(w *W, rt *RT) Value {
		if rt == nil {
			return Value{}
		}
		if lite {
			return Value{P: &Iface{T: w.ex.rtypeLiteRT, V: Value{P: &Agg{F: []Value{{P: rt}}}}}}
		}
		return w.ex.mkType(rt)
	}
	F := func(name string, f Native) { n[pkg+"."+name] = f }
	V := func(name string, f func(w *W, r *RVal, a []Value) Value) {
		full := "reflect.Value." + name
		n[vp+name] = func(w *W, a []Value) Value {
			r := rv(a[0])
			if r == nil {
				switch name {
				case "Kind", "IsValid", "String", "CanAddr", "CanSet", "CanInterface", "CanInt", "CanUint", "CanFloat", "Comparable":
				default:
					w.valPanic(full, nil)
				}
			}
			return f(w, r, a)
		}
	}
	T := func(name string, f func(w *W, t *RT, a []Value) Value) {
		n[tp+name] = func(w *W, a []Value) Value { return f(w, typeOfVal(a[0]), a) }
	}

	F("TypeOf", func(w *W, a []Value) Value {
		if a[0].P == nil {
			return Value{}
		}
		return mkType(w, a[0].P.(*Iface).T)
	})
	F("ValueOf", func(w *W, a []Value) Value {
		if a[0].P == nil {
			return mkRV(nil)
		}
		i := a[0].P.(*Iface)
		return mkRV(&RVal{t: i.T, v: i.V})
	})
	F("New", func(w *W, a []Value) Value {
		t := typeOfVal(a[0])
		p := new(Value)
		*p = zeroOf(t)
		return mkRV(&RVal{t: t.PtrTo(), v: Value{P: p}})
	})
	F("NewAt", func(w *W, a []Value) Value {
		t := typeOfVal(a[0])
		return mkRV(&RVal{t: t.PtrTo(), v: a[1]})
	})
	F("Zero", func(w *W, a []Value) Value {
		t := typeOfVal(a[0])
		return mkRV(&RVal{t: t, v: zeroOf(t)})
	})
	F("Indirect", func(w *W, a []Value) Value {
		r := rv(a[0])
		if r == nil || r.t.Kind != reflect.Pointer {
			return a[0]
		}
		p := r.get()
		if p.P == nil {
			return mkRV(nil)
		}
		return mkRV(&RVal{t: r.t.Elem(), ptr: p.P.(*Value), ro: r.ro, emb: r.emb})
	})
	F("PtrTo", func(w *W, a []Value) Value { return mkType(w, typeOfVal(a[0]).PtrTo()) })
	F("PointerTo", func(w *W, a []Value) Value { return mkType(w, typeOfVal(a[0]).PtrTo()) })
	F("SliceOf", func(w *W, a []Value) Value { return mkType(w, rtOf(types.NewSlice(typeOfVal(a[0]).T))) })
	F("ArrayOf", func(w *W, a []Value) Value {
		return mkType(w, rtOf(types.NewArray(typeOfVal(a[1]).T, int64(a[0].int()))))
	})
	F("MapOf", func(w *W, a []Value) Value {
		return mkType(w, rtOf(types.NewMap(typeOfVal(a[0]).T, typeOfVal(a[1]).T)))
	})
	F("MakeSlice", func(w *W, a []Value) Value {
		t := typeOfVal(a[0])
		return mkRV(&RVal{t: t, v: vSlice(makeVals(t.Elem(), a[1].int(), a[2].int()))})
	})
	F("MakeMap", func(w *W, a []Value) Value { return mkRV(&RVal{t: typeOfVal(a[0]), v: Value{P: newMap()}}) })
	F("MakeMapWithSize", func(w *W, a []Value) Value { return mkRV(&RVal{t: typeOfVal(a[0]), v: Value{P: newMap()}}) })
	F("DeepEqual", func(w *W, a []Value) Value { return w.deepEqAny(a[0], a[1]) })
	F("Append", func(w *W, a []Value) Value {
		r := rv(a[0])
		et := r.t.Elem()
		var add []Value
		for _, x := range a[1].slice() {
			add = append(add, w.assignTo(et, rv(x)))
		}
		return mkRV(&RVal{t: r.t, v: w.appendOp(et, r.get(), add)})
	})
	F("AppendSlice", func(w *W, a []Value) Value {
		r, s := rv(a[0]), rv(a[1])
		return mkRV(&RVal{t: r.t, v: w.appendOp(r.t.Elem(), r.get(), s.get().slice())})
	})
	F("Copy", func(w *W, a []Value) Value {
		d, s := rv(a[0]), rv(a[1])
		var ds []Value
		if d.t.Kind == reflect.Array {
			ds = d.ptr.agg().F
		} else {
			ds = d.get().slice()
		}
		var ss []Value
		switch s.t.Kind {
		case reflect.String:
			ss = strBytes(s.get())
		case reflect.Array:
			ss = s.get().agg().F
		default:
			ss = s.get().slice()
		}
		return vInt(w.copyOp(ds, ss))
	})
	swapper := func(w *W, a []Value) Value {
		s := a[0].P.(*Iface).V.slice()
		f := &Func{name: "reflect.Swapper", np: 2, recPC: -1}
		f.nat = func(w *W, a []Value) Value {
			i, j := a[0].int(), a[1].int()
			if i >= len(s) || j >= len(s) {
				w.rtPanic("reflect: slice index out of range")
			}
			x, y := copyVal(s[i]), copyVal(s[j])
			w.store(&s[i], y)
			w.store(&s[j], x)
			return Value{}
		}
		return Value{P: &Closure{Fn: f}}
	}
	F("Swapper", swapper)

	// ---- Value
	V("Kind", func(w *W, r *RVal, a []Value) Value {
		if r == nil {
			return Value{}
		}
		return vInt(int(r.t.Kind))
	})
	V("IsValid", func(w *W, r *RVal, a []Value) Value { return vBool(r != nil) })
	V("Type", func(w *W, r *RVal, a []Value) Value { return mkType(w, r.t) })
	V("CanInterface", func(w *W, r *RVal, a []Value) Value {
		if r == nil {
			w.valPanic("reflect.Value.CanInterface", r)
		}
		return vBool(!r.ro)
	})
	V("CanAddr", func(w *W, r *RVal, a []Value) Value { return vBool(r != nil && r.ptr != nil) })
	V("CanSet", func(w *W, r *RVal, a []Value) Value { return vBool(r != nil && r.ptr != nil && !r.ro) })
	V("CanInt", func(w *W, r *RVal, a []Value) Value { return vBool(r != nil && isSigned(r.t.Kind)) })
	V("CanUint", func(w *W, r *RVal, a []Value) Value { return vBool(r != nil && isUnsigned(r.t.Kind)) })
	V("CanFloat", func(w *W, r *RVal, a []Value) Value { return vBool(r != nil && isFloat(r.t.Kind)) })
	V("Interface", func(w *W, r *RVal, a []Value) Value {
		if r.ro {
			panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")}}})
		}
		return ifaceOf(r.t, r.get())
	})
	F("valueInterface", func(w *W, a []Value) Value { r := rv(a[0]); return ifaceOf(r.t, r.get()) })
	V("Elem", func(w *W, r *RVal, a []Value) Value {
		v := r.get()
		switch r.t.Kind {
		case reflect.Pointer:
			if v.P == nil {
				return mkRV(nil)
			}
			p, ok := v.P.(*Value)
			if !ok {
				unsupported("reflect Elem of %T", v.P)
			}
			return mkRV(&RVal{t: r.t.Elem(), ptr: p, ro: r.ro, emb: r.emb})
		case reflect.Interface:
			if v.P == nil {
				return mkRV(nil)
			}
			i := v.P.(*Iface)
			return mkRV(&RVal{t: i.T, v: i.V, ro: r.ro})
		}
		w.valPanic("reflect.Value.Elem", r)
		return Value{}
	})
	V("IsNil", func(w *W, r *RVal, a []Value) Value {
		switch r.t.Kind {
		case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface, reflect.UnsafePointer:
			return vBool(r.raw().P == nil)
		}
		w.valPanic("reflect.Value.IsNil", r)
		return Value{}
	})
	V("IsZero", func(w *W, r *RVal, a []Value) Value { return w.boolV(w.rIsZero(r.t, r.raw())) })
	V("NumField", func(w *W, r *RVal, a []Value) Value {
		st, ok := r.t.U.(*types.Struct)
		if !ok {
			w.valPanic("reflect.Value.NumField", r)
		}
		return vInt(st.NumFields())
	})
	V("Field", func(w *W, r *RVal, a []Value) Value { return mkRV(w.field(r, a[1].int())) })
	V("FieldByName", func(w *W, r *RVal, a []Value) Value {
		if r.t.Kind != reflect.Struct {
			w.valPanic("reflect.Value.FieldByName", r)
		}
		idx, ok := fieldIndex(r.t, a[1].str())
		if !ok {
			return mkRV(nil)
		}
		return mkRV(w.fieldByIndex(r, idx))
	})
	V("FieldByIndex", func(w *W, r *RVal, a []Value) Value {
		var idx []int
		for _, x := range a[1].slice() {
			idx = append(idx, x.int())
		}
		return mkRV(w.fieldByIndex(r, idx))
	})
	V("Len", func(w *W, r *RVal, a []Value) Value {
		v := r.raw()
		switch r.t.Kind {
		case reflect.Slice:
			return vInt(len(v.slice()))
		case reflect.Array:
			return vInt(len(v.agg().F))
		case reflect.String:
			return vInt(strLen(v))
		case reflect.Map:
			if v.P == nil {
				return Value{}
			}
			return vInt(v.P.(*MapV).n)
		case reflect.Chan:
			return vInt(len(v.P.(*ChanV).buf))
		case reflect.Pointer:
			if r.t.Elem().Kind == reflect.Array {
				return vInt(int(r.t.Elem().U.(*types.Array).Len()))
			}
		}
		w.valPanic("reflect.Value.Len", r)
		return Value{}
	})
	V("Cap", func(w *W, r *RVal, a []Value) Value {
		switch r.t.Kind {
		case reflect.Slice:
			return vInt(cap(r.raw().slice()))
		case reflect.Array:
			return vInt(len(r.raw().agg().F))
		}
		w.valPanic("reflect.Value.Cap", r)
		return Value{}
	})
	V("Index", func(w *W, r *RVal, a []Value) Value {
		i := int(w.intVal(reflect.Int, a[1]))
		switch r.t.Kind {
		case reflect.Slice:
			s := r.raw().slice()
			if i < 0 || i >= len(s) {
				w.rtPanic("reflect: slice index out of range")
			}
			return mkRV(&RVal{t: r.t.Elem(), ptr: &s[i], ro: r.ro})
		case reflect.Array:
			if r.ptr != nil {
				return mkRV(&RVal{t: r.t.Elem(), ptr: &r.ptr.agg().F[i], ro: r.ro})
			}
			return mkRV(&RVal{t: r.t.Elem(), v: r.v.agg().F[i], ro: r.ro})
		case reflect.String:
			return mkRV(&RVal{t: rtOf(types.Typ[types.Uint8]), v: strBytes(r.raw())[i]})
		}
		w.valPanic("reflect.Value.Index", r)
		return Value{}
	})
	V("MapIndex", func(w *W, r *RVal, a []Value) Value {
		k := w.assignTo(r.t.Key(), rv(a[1]))
		v, ok := w.mapGet(r.raw(), r.t.Key(), k)
		if !ok {
			return mkRV(nil)
		}
		return mkRV(&RVal{t: r.t.Elem(), v: v, ro: r.ro})
	})
	V("MapKeys", func(w *W, r *RVal, a []Value) Value {
		var ks []Value
		if m, ok := r.raw().P.(*MapV); ok {
			for _, e := range m.ents {
				if e.live {
					ks = append(ks, mkRV(&RVal{t: r.t.Key(), v: e.k, ro: r.ro}))
				}
			}
		}
		if ks == nil {
			ks = []Value{}
		}
		return vSlice(ks)
	})
	V("MapRange", func(w *W, r *RVal, a []Value) Value {
		it := &mapIterR{r: r, pos: -1}
		if m, ok := r.raw().P.(*MapV); ok {
			for _, e := range m.ents {
				if e.live {
					it.ks = append(it.ks, e.k)
				}
			}
		}
		c := new(Value)
		*c = Value{P: &Agg{F: []Value{{P: it}, {}, {}}}}
		return Value{P: c}
	})
	mit := func(w *W, v Value) *mapIterR { return w.cell(v).agg().F[0].P.(*mapIterR) }
	if !lite {
		n["(*reflect.MapIter).Next"] = func(w *W, a []Value) Value {
			it := mit(w, a[0])
			o := it.pos
			w.undo(func() { it.pos = o })
			it.pos++
			return vBool(it.pos < len(it.ks))
		}
		n["(*reflect.MapIter).Key"] = func(w *W, a []Value) Value {
			it := mit(w, a[0])
			return mkRV(&RVal{t: it.r.t.Key(), v: it.ks[it.pos], ro: it.r.ro})
		}
		n["(*reflect.MapIter).Value"] = func(w *W, a []Value) Value {
			it := mit(w, a[0])
			v, _ := w.mapGet(it.r.raw(), it.r.t.Key(), it.ks[it.pos])
			return mkRV(&RVal{t: it.r.t.Elem(), v: v, ro: it.r.ro})
		}
	}
	V("SetMapIndex", func(w *W, r *RVal, a []Value) Value {
		k := w.assignTo(r.t.Key(), rv(a[1]))
		e := rv(a[2])
		if e == nil {
			w.mapDelete(r.raw(), r.t.Key(), k)
			return Value{}
		}
		w.mapSet(r.raw(), r.t.Key(), k, w.assignTo(r.t.Elem(), e))
		return Value{}
	})
	V("Set", func(w *W, r *RVal, a []Value) Value {
		w.mustSet(r, "reflect.Set")
		x := rv(a[1])
		if x == nil {
			w.valPanic("reflect.Set", nil)
		}
		w.store(r.ptr, w.assignTo(r.t, x))
		return Value{}
	})
	V("SetZero", func(w *W, r *RVal, a []Value) Value {
		w.mustSet(r, "reflect.Value.SetZero")
		w.store(r.ptr, zeroOf(r.t))
		return Value{}
	})
	setter := func(name string, src *RT, ok func(reflect.Kind) bool) {
		V(name, func(w *W, r *RVal, a []Value) Value {
			w.mustSet(r, "reflect.Value."+name)
			if !ok(r.t.Kind) {
				w.valPanic("reflect.Value."+name, r)
			}
			w.store(r.ptr, w.convert(src, r.t, a[1]))
			return Value{}
		})
	}
	setter("SetInt", rtOf(types.Typ[types.Int64]), isSigned)
	setter("SetUint", rtOf(types.Typ[types.Uint64]), isUnsigned)
	setter("SetFloat", rtOf(types.Typ[types.Float64]), isFloat)
	setter("SetString", rtOf(types.Typ[types.String]), func(k reflect.Kind) bool { return k == reflect.String })
	setter("SetBool", rtOf(types.Typ[types.Bool]), func(k reflect.Kind) bool { return k == reflect.Bool })
	V("SetBytes", func(w *W, r *RVal, a []Value) Value {
		w.mustSet(r, "reflect.Value.SetBytes")
		w.store(r.ptr, a[1])
		return Value{}
	})
	V("SetLen", func(w *W, r *RVal, a []Value) Value {
		w.mustSet(r, "reflect.Value.SetLen")
		s := r.raw().slice()
		w.store(r.ptr, vSlice(s[:a[1].int()]))
		return Value{}
	})
	V("Grow", func(w *W, r *RVal, a []Value) Value {
		w.mustSet(r, "reflect.Value.Grow")
		s := r.raw().slice()
		nn := a[1].int()
		if len(s)+nn > cap(s) {
			c := makeVals(r.t.Elem(), len(s), growCap(cap(s), len(s)+nn))
			for i := range s {
				c[i] = copyVal(s[i])
			}
			w.store(r.ptr, vSlice(c))
		}
		return Value{}
	})
	V("Int", func(w *W, r *RVal, a []Value) Value {
		if !isSigned(r.t.Kind) {
			w.valPanic("reflect.Value.Int", r)
		}
		return w.convert(r.t, rtOf(types.Typ[types.Int64]), r.raw())
	})
	V("Uint", func(w *W, r *RVal, a []Value) Value {
		if !isUnsigned(r.t.Kind) {
			w.valPanic("reflect.Value.Uint", r)
		}
		return w.convert(r.t, rtOf(types.Typ[types.Uint64]), r.raw())
	})
	V("Float", func(w *W, r *RVal, a []Value) Value {
		if !isFloat(r.t.Kind) {
			w.valPanic("reflect.Value.Float", r)
		}
		return r.raw()
	})
	V("Complex", func(w *W, r *RVal, a []Value) Value { return r.raw() })
	V("Bool", func(w *W, r *RVal, a []Value) Value {
		if r.t.Kind != reflect.Bool {
			w.valPanic("reflect.Value.Bool", r)
		}
		return r.raw()
	})
	V("String", func(w *W, r *RVal, a []Value) Value {
		if r == nil {
			return vStr("<invalid Value>")
		}
		if r.t.Kind == reflect.String {
			return r.raw()
		}
		return vStr("<" + reflectString(r.t.T) + " Value>")
	})
	V("Bytes", func(w *W, r *RVal, a []Value) Value {
		if r.t.Kind == reflect.Array {
			return vSlice(r.ptr.agg().F)
		}
		return r.raw()
	})
	V("bytesSlow", func(w *W, r *RVal, a []Value) Value { return r.raw() })
	V("runes", func(w *W, r *RVal, a []Value) Value { return r.raw() })
	V("Addr", func(w *W, r *RVal, a []Value) Value {
		if r.ptr == nil {
			panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect.Value.Addr of unaddressable value")}}})
		}
		return mkRV(&RVal{t: r.t.PtrTo(), v: Value{P: r.ptr}, ro: r.ro})
	})
	ptrF := func(w *W, r *RVal, a []Value) Value {
		v := r.raw()
		if v.P == nil {
			return Value{}
		}
		if c, ok := v.P.(*Closure); ok {
			return Value{N: uint64(addrOf(c.Fn.code)) | 1}
		}
		return Value{N: uint64(addrOf(v.P))}
	}
	V("Pointer", ptrF)
	V("UnsafePointer", func(w *W, r *RVal, a []Value) Value {
		switch p := r.raw().P.(type) {
		case *SliceV:
			if cap(p.S) == 0 {
				return Value{P: new(Value)}
			}
			return Value{P: &p.S[:1][0]}
		default:
			return Value{P: p}
		}
	})
	V("UnsafeAddr", func(w *W, r *RVal, a []Value) Value { return Value{N: uint64(addrOf(r.ptr))} })
	V("Slice", func(w *W, r *RVal, a []Value) Value {
		i, j := a[1].int(), a[2].int()
		switch r.t.Kind {
		case reflect.Slice:
			s := r.raw().slice()
			if i < 0 || j < i || j > cap(s) {
				w.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(&RVal{t: r.t, v: vSlice(s[i:j])})
		case reflect.String:
			return mkRV(&RVal{t: r.t, v: bytesToStrVal(strBytes(r.raw())[i:j])})
		case reflect.Array:
			return mkRV(&RVal{t: rtOf(types.NewSlice(r.t.Elem().T)), v: vSlice(r.ptr.agg().F[i:j])})
		}
		w.valPanic("reflect.Value.Slice", r)
		return Value{}
	})
	V("Convert", func(w *W, r *RVal, a []Value) Value { return mkRV(w.rconvert(r, typeOfVal(a[1]))) })
	V("CanConvert", func(w *W, r *RVal, a []Value) Value {
		return vBool(convertible(w, r.t, typeOfVal(a[1])))
	})
	V("Comparable", func(w *W, r *RVal, a []Value) Value {
		if r == nil {
			return vBool(true)
		}
		t := r.t
		if t.Kind == reflect.Interface {
			if i, ok := r.raw().P.(*Iface); ok {
				t = i.T
			}
		}
		return vBool(types.Comparable(t.T))
	})
	V("Equal", func(w *W, r *RVal, a []Value) Value {
		x := rv(a[1])
		return w.eqIface(ifaceOf(r.t, r.get()), ifaceOf(x.t, x.get()))
	})
	V("NumMethod", func(w *W, r *RVal, a []Value) Value { return vInt(len(w.ex.exportedMethods(r.t))) })
	meth := func(w *W, r *RVal, m methodInfo) Value {
		return mkRV(&RVal{t: rtOf(sigPlain(m.fn)), v: w.boundMethod(r.t, r.get(), m), ro: r.ro})
	}
	V("Method", func(w *W, r *RVal, a []Value) Value {
		ms := w.ex.exportedMethods(r.t)
		return meth(w, r, ms[a[1].int()])
	})
	V("MethodByName", func(w *W, r *RVal, a []Value) Value {
		for _, m := range w.ex.exportedMethods(r.t) {
			if m.name == a[1].str() {
				return meth(w, r, m)
			}
		}
		return mkRV(nil)
	})
	V("Call", func(w *W, r *RVal, a []Value) Value {
		if r.t.Kind != reflect.Func {
			w.valPanic("reflect.Value.Call", r)
		}
		c, ok := r.raw().P.(*Closure)
		if !ok {
			w.rtPanic("reflect: call of nil function")
		}
		sig := r.t.U.(*types.Signature)
		in := a[1].slice()
		var args []Value
		np := sig.Params().Len()
		fixed := np
		if sig.Variadic() {
			fixed--
		}
		if len(in) < fixed || len(in) > np && !sig.Variadic() {
			panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("reflect: Call with wrong number of input arguments")}}})
		}
		for i := 0; i < fixed; i++ {
			if rv(in[i]) == nil {
				w.valPanic("reflect: Call using zero Value argument", nil)
			}
			args = append(args, w.assignTo(rtOf(sig.Params().At(i).Type()), rv(in[i])))
		}
		if sig.Variadic() {
			st := rtOf(sig.Params().At(fixed).Type())
			var s []Value
			for _, x := range in[fixed:] {
				s = append(s, w.assignTo(st.Elem(), rv(x)))
			}
			if len(s) == 0 {
				args = append(args, Value{})
			} else {
				args = append(args, vSlice(s))
			}
		}
		res := sig.Results()
		w.pushCall(c, args, func(w *W, v Value) Value {
			var out []Value
			switch res.Len() {
			case 0:
			case 1:
				out = append(out, mkRV(&RVal{t: rtOf(res.At(0).Type()), v: v}))
			default:
				for i := 0; i < res.Len(); i++ {
					out = append(out, mkRV(&RVal{t: rtOf(res.At(i).Type()), v: v.agg().F[i]}))
				}
			}
			if out == nil {
				out = []Value{}
			}
			return vSlice(out)
		})
		return Value{}
	})
	for _, k := range []string{"OverflowInt", "OverflowUint", "OverflowFloat"} {
		k := k
		V(k, func(w *W, r *RVal, a []Value) Value {
			if k == "OverflowFloat" {
				return Value{}
			}
			src := rtOf(types.Typ[types.Int64])
			if k == "OverflowUint" {
				src = rtOf(types.Typ[types.Uint64])
			}
			c := w.convert(r.t, src, w.convert(src, r.t, a[1]))
			q := w.eq(src, c, a[1])
			return w.boolV(w.tt.Not(w.term(reflect.Bool, q)))
		})
	}

	// ---- Type
	T("Kind", func(w *W, t *RT, a []Value) Value { return vInt(int(t.Kind)) })
	T("Name", func(w *W, t *RT, a []Value) Value { return vStr(reflectName(t.T)) })
	T("String", func(w *W, t *RT, a []Value) Value { return vStr(reflectString(t.T)) })
	T("PkgPath", func(w *W, t *RT, a []Value) Value { return vStr(pkgPathOf(t.T)) })
	T("Elem", func(w *W, t *RT, a []Value) Value {
		e := t.Elem()
		if e == nil {
			w.rtPanic("reflect: Elem of invalid type " + reflectString(t.T))
		}
		return mkType(w, e)
	})
	T("Key", func(w *W, t *RT, a []Value) Value { return mkType(w, t.Key()) })
	T("Len", func(w *W, t *RT, a []Value) Value { return vInt(int(t.U.(*types.Array).Len())) })
	T("Size", func(w *W, t *RT, a []Value) Value { return vInt(int(stdSizes.Sizeof(t.T))) })
	T("Align", func(w *W, t *RT, a []Value) Value { return vInt(int(stdSizes.Alignof(t.T))) })
	T("FieldAlign", func(w *W, t *RT, a []Value) Value { return vInt(int(stdSizes.Alignof(t.T))) })
	T("Bits", func(w *W, t *RT, a []Value) Value { return vInt(bitsOf(t.Kind)) })
	T("NumField", func(w *W, t *RT, a []Value) Value {
		st, ok := t.U.(*types.Struct)
		if !ok {
			w.rtPanic("reflect: NumField of non-struct type " + reflectString(t.T))
		}
		return vInt(st.NumFields())
	})
	T("Field", func(w *W, t *RT, a []Value) Value {
		return w.structField(t.U.(*types.Struct), a[1].int(), t)
	})
	T("FieldByName", func(w *W, t *RT, a []Value) Value {
		idx, ok := fieldIndex(t, a[1].str())
		if !ok {
			return tuple(zeroOf(w.ex.namedRT("reflect", "StructField")), Value{})
		}
		cur := t
		var sf Value
		for _, i := range idx {
			if cur.Kind == reflect.Pointer {
				cur = cur.Elem()
			}
			sf = w.structField(cur.U.(*types.Struct), i, cur)
			cur = cur.Fields()[i]
		}
		return tuple(structFieldWithIndex(sf, idx), vBool(true))
	})
	T("FieldByIndex", func(w *W, t *RT, a []Value) Value {
		cur := t
		var sf Value
		var idx []int
		for _, x := range a[1].slice() {
			i := x.int()
			idx = append(idx, i)
			if cur.Kind == reflect.Pointer {
				cur = cur.Elem()
			}
			sf = w.structField(cur.U.(*types.Struct), i, cur)
			cur = cur.Fields()[i]
		}
		return structFieldWithIndex(sf, idx)
	})
	T("NumMethod", func(w *W, t *RT, a []Value) Value { return vInt(len(w.ex.exportedMethods(t))) })
	mkMethod := func(w *W, t *RT, m methodInfo, i int) Value {
		var typ Value
		fn := mkRV(nil)
		if t.Kind == reflect.Interface {
			typ = mkType(w, rtOf(sigPlain(m.fn)))
		} else {
			sg := rtOf(sigRecv(t, m.fn))
			typ = mkType(w, sg)
			f := w.ex.method(t, m.fn.Pkg(), m.name)
			fn = mkRV(&RVal{t: sg, v: Value{P: &Closure{Fn: f}}})
		}
		return Value{P: &Agg{F: []Value{vStr(m.name), {}, typ, fn, vInt(i)}}}
	}
	T("Method", func(w *W, t *RT, a []Value) Value {
		return mkMethod(w, t, w.ex.exportedMethods(t)[a[1].int()], a[1].int())
	})
	T("MethodByName", func(w *W, t *RT, a []Value) Value {
		for i, m := range w.ex.exportedMethods(t) {
			if m.name == a[1].str() {
				return tuple(mkMethod(w, t, m, i), vBool(true))
			}
		}
		return tuple(zeroOf(w.ex.namedRT("reflect", "Method")), Value{})
	})
	T("Implements", func(w *W, t *RT, a []Value) Value {
		it := typeOfVal(a[1])
		if it.Kind != reflect.Interface {
			w.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return vBool(w.implements(t, it))
	})
	T("AssignableTo", func(w *W, t *RT, a []Value) Value {
		d := typeOfVal(a[1])
		return vBool(t == d || types.AssignableTo(t.T, d.T))
	})
	T("ConvertibleTo", func(w *W, t *RT, a []Value) Value { return vBool(convertible(w, t, typeOfVal(a[1]))) })
	T("Comparable", func(w *W, t *RT, a []Value) Value { return vBool(types.Comparable(t.T)) })
	sigOf := func(w *W, t *RT) *types.Signature {
		s, ok := t.U.(*types.Signature)
		if !ok {
			w.rtPanic("reflect: not a function type " + reflectString(t.T))
		}
		return s
	}
	T("NumIn", func(w *W, t *RT, a []Value) Value { return vInt(sigOf(w, t).Params().Len()) })
	T("NumOut", func(w *W, t *RT, a []Value) Value { return vInt(sigOf(w, t).Results().Len()) })
	T("In", func(w *W, t *RT, a []Value) Value {
		s := sigOf(w, t)
		i := a[1].int()
		if i >= s.Params().Len() {
			w.rtPanic("index out of range")
		}
		return mkType(w, rtOf(s.Params().At(i).Type()))
	})
	T("Out", func(w *W, t *RT, a []Value) Value {
		s := sigOf(w, t)
		i := a[1].int()
		if i >= s.Results().Len() {
			w.rtPanic("index out of range")
		}
		return mkType(w, rtOf(s.Results().At(i).Type()))
	})
	T("IsVariadic", func(w *W, t *RT, a []Value) Value { return vBool(sigOf(w, t).Variadic()) })
	T("ChanDir", func(w *W, t *RT, a []Value) Value { return vInt(3) })
	T("common", func(w *W, t *RT, a []Value) Value { return Value{P: t} })
	T("uncommon", func(w *W, t *RT, a []Value) Value { return Value{} })
}

func convertible(w *W, t, d *RT) bool {
	if d.Kind == reflect.Interface {
		return w.implements(t, d)
	}
	return t == d || types.ConvertibleTo(t.T, d.T)
}

var _ = ssa.NaiveForm
