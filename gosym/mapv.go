package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unsafe"
)

func itoa(n int) string { return strconv.Itoa(n) }

func valsAt(p Value, n int) []Value {
	v, ok := p.P.(*Value)
	if !ok {
		if n == 0 {
			return []Value{}
		}
		unsupported("unsafe slice of %T", p.P)
	}
	return unsafe.Slice(v, n)
}

type mapKey struct {
	t *RT
	n uint64
	p any
}

type mapEnt struct {
	k, v Value
	mk   mapKey
	sym  bool
	live bool
}

// MapV is a map with insertion-ordered entries.
type MapV struct {
	idx  map[mapKey]int
	ents []*mapEnt
	n    int
	nsym int
}

type strIter struct {
	s   string
	pos int
}

func newMap() *MapV { return &MapV{} }

// keyOf returns the hashable form of a concrete key; ok is false for symbolic keys.
func (w *W) keyOf(rt *RT, v Value) (mapKey, bool) {
	switch k := rt.Kind; {
	case isInt(k) || k == reflect.Bool:
		if v.P != nil {
			return mapKey{}, false
		}
		return mapKey{n: v.N}, true
	case isFloat(k):
		f := v.float()
		if f == 0 {
			f = 0
		}
		return mapKey{n: math.Float64bits(f)}, true
	case k == reflect.String:
		switch s := v.P.(type) {
		case nil:
			return mapKey{p: ""}, true
		case string:
			return mapKey{p: s}, true
		}
		return mapKey{}, false
	case k == reflect.Interface:
		if v.P == nil {
			return mapKey{}, true
		}
		i := v.P.(*Iface)
		if !types.Comparable(i.T.T) {
			w.rtPanic("hash of unhashable type " + i.T.String())
		}
		mk, ok := w.keyOf(i.T, i.V)
		if mk.t != nil {
			// nested interface cannot happen (dynamic types are concrete) except through structs
			mk.p = fmt.Sprintf("%d/%v/%d", mk.t.id, mk.p, mk.n)
		}
		mk.t = i.T
		return mk, ok
	case k == reflect.Struct || k == reflect.Array:
		var sb strings.Builder
		if !w.serKey(rt, v, &sb) {
			return mapKey{}, false
		}
		return mapKey{p: sb.String()}, true
	}
	// pointers, channels
	if v.P == nil {
		return mapKey{n: v.N}, true
	}
	return mapKey{p: v.P}, true
}

func (w *W) serKey(rt *RT, v Value, sb *strings.Builder) bool {
	switch rt.Kind {
	case reflect.Struct:
		for i, f := range rt.Fields() {
			if !w.serKey(f, v.agg().F[i], sb) {
				return false
			}
		}
		return true
	case reflect.Array:
		for _, x := range v.agg().F {
			if !w.serKey(rt.Elem(), x, sb) {
				return false
			}
		}
		return true
	}
	mk, ok := w.keyOf(rt, v)
	if !ok {
		return false
	}
	if mk.t != nil {
		fmt.Fprintf(sb, "t%d:", mk.t.id)
	}
	switch p := mk.p.(type) {
	case nil:
		fmt.Fprintf(sb, "n%d;", mk.n)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(p), p)
	default:
		fmt.Fprintf(sb, "p%x;", addrOf(p))
	}
	return true
}

// find locates the entry of key k; it may fork on symbolic keys.
func (w *W) mapFind(m *MapV, kt *RT, k Value) int {
	mk, conc := w.keyOf(kt, k)
	if conc {
		if m.idx != nil {
			if i, ok := m.idx[mk]; ok {
				return i
			}
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i, e := range m.ents {
		if !e.live || conc && !e.sym {
			continue
		}
		if w.truth(w.eq(kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (w *W) mapGet(mv Value, kt *RT, k Value) (Value, bool) {
	if mv.P == nil {
		return Value{}, false
	}
	m := mv.P.(*MapV)
	i := w.mapFind(m, kt, k)
	if i < 0 {
		return Value{}, false
	}
	return m.ents[i].v, true
}

func (w *W) mapSet(mv Value, kt *RT, k, v Value) {
	if mv.P == nil {
		panic(goPanic{Value{P: &Iface{T: w.ex.rtPlainErrType, V: vStr("assignment to entry in nil map")}}})
	}
	m := mv.P.(*MapV)
	i := w.mapFind(m, kt, k)
	if i >= 0 {
		e := m.ents[i]
		old := e.v
		w.undo(func() { e.v = old })
		e.v = v
		return
	}
	mk, conc := w.keyOf(kt, k)
	e := &mapEnt{k: k, v: v, mk: mk, sym: !conc, live: true}
	if conc && m.idx == nil {
		m.idx = map[mapKey]int{}
	}
	pos := len(m.ents)
	m.ents = append(m.ents, e)
	m.n++
	if conc {
		m.idx[mk] = pos
	} else {
		m.nsym++
	}
	w.undo(func() {
		m.ents = m.ents[:pos]
		m.n--
		if conc {
			delete(m.idx, mk)
		} else {
			m.nsym--
		}
	})
}

func (w *W) mapKill(m *MapV, i int) {
	e := m.ents[i]
	e.live = false
	m.n--
	if !e.sym {
		delete(m.idx, e.mk)
	} else {
		m.nsym--
	}
	w.undo(func() {
		e.live = true
		m.n++
		if !e.sym {
			m.idx[e.mk] = i
		} else {
			m.nsym++
		}
	})
}

func (w *W) mapDelete(mv Value, kt *RT, k Value) {
	if mv.P == nil {
		return
	}
	m := mv.P.(*MapV)
	if i := w.mapFind(m, kt, k); i >= 0 {
		w.mapKill(m, i)
	}
}

func (w *W) mapClear(m *MapV) {
	for i, e := range m.ents {
		if e.live {
			w.mapKill(m, i)
		}
	}
}

// mapIter iterates in insertion order, or, when enabled for code under test, in every order.
type mapIter struct {
	m    *MapV
	pos  int
	any  bool
	left []*mapEnt
}

func (w *W) newMapIter(v Value, repo bool) *mapIter {
	it := &mapIter{}
	if v.P != nil {
		it.m = v.P.(*MapV)
		if repo && w.seqs.mapOrder > 0 && it.m.n > 1 && it.m.n <= w.seqs.mapOrder {
			it.any = true
			for _, e := range it.m.ents {
				if e.live {
					it.left = append(it.left, e)
				}
			}
		}
	}
	return it
}

func (it *mapIter) next(w *W) (Value, Value, bool) {
	if it.m == nil {
		return Value{}, Value{}, false
	}
	if it.any {
		for len(it.left) > 0 {
			i := 0
			if len(it.left) > 1 {
				i = w.choose("maporder", len(it.left))
			}
			e := it.left[i]
			nl := append(append([]*mapEnt(nil), it.left[:i]...), it.left[i+1:]...)
			old := it.left
			w.undo(func() { it.left = old })
			it.left = nl
			if e.live {
				return e.k, e.v, true
			}
		}
		return Value{}, Value{}, false
	}
	op := it.pos
	w.undo(func() { it.pos = op })
	for it.pos < len(it.m.ents) {
		e := it.m.ents[it.pos]
		it.pos++
		if e.live {
			return e.k, e.v, true
		}
	}
	return Value{}, Value{}, false
}
