package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term: W == 0 is Bool, otherwise a bit vector of W bits.
type Term struct {
	Op   string // "var", "const", or an SMT-LIB operator
	W    int
	A    []*Term
	K    uint64 // constant value, or packed indices for extract/extend
	Name string
	id   int
	// evaluation cache
	gen int
	val uint64
	// emitted to the solver
	defd   bool
	lo     uint64 // for variables: declared unsigned range when known (ranged)
	hi     uint64
	rng    bool
	ranged bool // the range is asserted in the solver's current scopes
	srange ival // signed range
	rngOK  int8 // 0 not computed, 1 exact, 2 bound only
}

type termKey struct {
	op      string
	w       int
	k       uint64
	a, b, c int
}

type TermTable struct {
	m    map[termKey]*Term
	n    int
	gen  int
	vars []*Term
	T, F *Term
}

func newTermTable() *TermTable {
	t := &TermTable{m: map[termKey]*Term{}}
	t.T = t.mk("const", 0, 1)
	t.F = t.mk("const", 0, 0)
	return t
}

func (t *TermTable) mk(op string, w int, k uint64, a ...*Term) *Term {
	key := termKey{op: op, w: w, k: k}
	if len(a) > 0 {
		key.a = a[0].id
	}
	if len(a) > 1 {
		key.b = a[1].id
	}
	if len(a) > 2 {
		key.c = a[2].id
	}
	if r, ok := t.m[key]; ok {
		return r
	}
	t.n++
	r := &Term{Op: op, W: w, K: k, A: a, id: t.n}
	t.m[key] = r
	return r
}

func (t *TermTable) NewVar(name string, w int) *Term {
	t.n++
	r := &Term{Op: "var", W: w, Name: name, id: t.n}
	t.vars = append(t.vars, r)
	return r
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *TermTable) Const(w int, v uint64) *Term { return t.mk("const", w, v&mask(w)) }
func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}

func (x *Term) isConst() bool { return x.Op == "const" }

func (t *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.K == 0)
	}
	if a.Op == "not" {
		return a.A[0]
	}
	return t.mk("not", 0, 0, a)
}

func (t *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.K == 0 {
			return t.F
		}
		return b
	}
	if b.isConst() {
		if b.K == 0 {
			return t.F
		}
		return a
	}
	if a == b {
		return a
	}
	if a.Op == "not" && a.A[0] == b || b.Op == "not" && b.A[0] == a {
		return t.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk("and", 0, 0, a, b)
}

func (t *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.K != 0 {
			return t.T
		}
		return b
	}
	if b.isConst() {
		if b.K != 0 {
			return t.T
		}
		return a
	}
	if a == b {
		return a
	}
	if a.Op == "not" && a.A[0] == b || b.Op == "not" && b.A[0] == a {
		return t.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk("or", 0, 0, a, b)
}

func (t *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.isConst() && b.isConst() {
			if a.K != 0 {
				return c
			}
			return t.Not(c)
		}
		return t.Or(t.And(c, a), t.And(t.Not(c), b))
	}
	return t.mk("ite", a.W, 0, c, a, b)
}

func (t *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return t.T
	}
	if a.isConst() && b.isConst() {
		return t.Bool(a.K == b.K)
	}
	if a.W == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.K != 0 {
				return a
			}
			return t.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	// b const: push through add-const, extensions
	if b.isConst() {
		if a.Op == "bvadd" && a.A[1].isConst() {
			return t.Eq(a.A[0], t.Const(a.W, b.K-a.A[1].K))
		}
		if a.Op == "zero_extend" {
			iw := a.A[0].W
			if b.K&^mask(iw) != 0 {
				return t.F
			}
			return t.Eq(a.A[0], t.Const(iw, b.K))
		}
		if a.Op == "sign_extend" {
			iw := a.A[0].W
			if uint64(sext(b.K&mask(iw), iw))&mask(a.W) != b.K {
				return t.F
			}
			return t.Eq(a.A[0], t.Const(iw, b.K))
		}
		if a.Op == "ite" && a.A[1].isConst() && a.A[2].isConst() {
			return t.Ite(a.A[0], t.Bool(a.A[1].K == b.K), t.Bool(a.A[2].K == b.K))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.Op == "bvadd" && b.Op == "bvadd" && a.A[1] == b.A[1] {
		return t.Eq(a.A[0], b.A[0])
	}
	if a.W > 0 {
		if r := t.eqLinear(a, b); r != nil {
			return r
		}
	}
	return t.mk("=", 0, 0, a, b)
}

// BV binary arithmetic.
func (t *TermTable) Bin(op string, a, b *Term) *Term {
	w := a.W
	if a.isConst() && b.isConst() {
		return t.Const(w, evalBin(op, w, a.K, b.K))
	}
	switch op {
	case "bvadd":
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.K == 0 {
				return a
			}
			if a.Op == "bvadd" && a.A[1].isConst() {
				return t.Bin("bvadd", a.A[0], t.Const(w, a.A[1].K+b.K))
			}
			if a.Op == "ite" && a.A[1].isConst() && a.A[2].isConst() {
				return t.Ite(a.A[0], t.Const(w, a.A[1].K+b.K), t.Const(w, a.A[2].K+b.K))
			}
			if a.Op == "bvsub" && a.A[0].isConst() {
				return t.Bin("bvsub", t.Const(w, a.A[0].K+b.K), a.A[1])
			}
		} else {
			if a.Op == "bvsub" && a.A[1] == b {
				return a.A[0]
			}
			if b.Op == "bvsub" && b.A[1] == a {
				return b.A[0]
			}
			if a.Op == "bvadd" && a.A[1].isConst() {
				return t.Bin("bvadd", t.Bin("bvadd", a.A[0], b), a.A[1])
			}
			if b.Op == "bvadd" && b.A[1].isConst() {
				return t.Bin("bvadd", t.Bin("bvadd", a, b.A[0]), b.A[1])
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case "bvsub":
		if a == b {
			return t.Const(w, 0)
		}
		if b.isConst() {
			return t.Bin("bvadd", a, t.Const(w, -b.K))
		}
		if a.isConst() {
			if b.Op == "bvsub" && b.A[0].isConst() { // c - (k - z)
				return t.Bin("bvadd", b.A[1], t.Const(w, a.K-b.A[0].K))
			}
			if b.Op == "bvadd" && b.A[1].isConst() {
				return t.Bin("bvsub", t.Const(w, a.K-b.A[1].K), b.A[0])
			}
		}
		// (x+c1)-(y+c2)
		if a.Op == "bvadd" && a.A[1].isConst() {
			return t.Bin("bvadd", t.Bin("bvsub", a.A[0], b), a.A[1])
		}
		if b.Op == "bvadd" && b.A[1].isConst() {
			return t.Bin("bvadd", t.Bin("bvsub", a, b.A[0]), t.Const(w, -b.A[1].K))
		}
	case "bvmul":
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.K == 0 {
				return b
			}
			if b.K == 1 {
				return a
			}
			if a.Op == "bvadd" && a.A[1].isConst() {
				return t.Bin("bvadd", t.Bin("bvmul", a.A[0], b), t.Const(w, a.A[1].K*b.K))
			}
			if a.Op == "bvsub" && a.A[0].isConst() {
				return t.Bin("bvsub", t.Const(w, a.A[0].K*b.K), t.Bin("bvmul", a.A[1], b))
			}
			if a.Op == "bvmul" && a.A[1].isConst() {
				return t.Bin("bvmul", a.A[0], t.Const(w, a.A[1].K*b.K))
			}
		}
	case "bvand":
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.K == 0 {
				return b
			}
			if b.K == mask(w) {
				return a
			}
			if a.Op == "zero_extend" && mask(a.A[0].W)&^b.K == 0 {
				return a
			}
			if r, _ := rangeS(a); r.lo >= 0 {
				m := uint64(1)<<uint(bits.Len64(uint64(r.hi))) - 1 // the bits a may have
				if m&b.K == 0 {
					return t.Const(w, 0)
				}
				if m&^b.K == 0 {
					return a
				}
			} else if r.hi < 0 && b.K == uint64(1)<<uint(w-1) {
				return b
			}
		}
		if a == b {
			return a
		}
	case "bvor":
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.K == 0 {
			return a
		}
		if a == b {
			return a
		}
	case "bvxor":
		if a == b {
			return t.Const(w, 0)
		}
		if b.isConst() && b.K == 0 {
			return a
		}
	case "bvsdiv", "bvsrem", "bvudiv", "bvurem":
		if b.isConst() && sext(b.K, w) > 0 {
			if r := t.divConst(op, a, sext(b.K, w)); r != nil {
				return r
			}
		}
	case "bvshl", "bvlshr", "bvashr":
		if b.isConst() && b.K == 0 {
			return a
		}
		if op == "bvlshr" && b.isConst() && a.Op == "zero_extend" && b.K >= uint64(a.A[0].W) {
			return t.Const(w, 0)
		}
	}
	return t.mk(op, w, 0, a, b)
}

// maxU is an upper bound of the unsigned value of a.
func maxU(a *Term) uint64 {
	switch a.Op {
	case "const":
		return a.K
	case "zero_extend":
		return maxU(a.A[0])
	case "var":
		if a.rng {
			return a.hi
		}
	case "ite":
		x, y := maxU(a.A[1]), maxU(a.A[2])
		if x > y {
			return x
		}
		return y
	case "bvadd":
		x, y := maxU(a.A[0]), maxU(a.A[1])
		s, c := bits.Add64(x, y, 0)
		if c == 0 && s <= mask(a.W) {
			return s
		}
	case "bvmul":
		x, y := maxU(a.A[0]), maxU(a.A[1])
		h, l := bits.Mul64(x, y)
		if h == 0 && l <= mask(a.W) {
			return l
		}
	}
	if r, _ := rangeS(a); r.lo >= 0 {
		return uint64(r.hi)
	}
	return mask(a.W)
}

func (t *TermTable) Cmp(op string, a, b *Term) *Term {
	w := a.W
	if a.isConst() && b.isConst() {
		return t.Bool(evalCmp(op, w, a.K, b.K))
	}
	if a == b {
		return t.Bool(op == "bvule" || op == "bvsle")
	}
	sgn := uint64(1) << uint(w-1)
	ma, mb := maxU(a), maxU(b)
	switch op {
	case "bvult":
		if b.isConst() && ma < b.K {
			return t.T
		}
		if a.isConst() && mb <= a.K {
			return t.F
		}
	case "bvule":
		if b.isConst() && ma <= b.K {
			return t.T
		}
		if a.isConst() && mb < a.K {
			return t.F
		}
	case "bvslt", "bvsle":
		// both non-negative: treat as unsigned
		if ma < sgn && mb < sgn {
			return t.Cmp("bvu"+op[3:], a, b)
		}
		// x + c < y + c with bounded x, y
		if ma < sgn && b.isConst() && b.K >= sgn {
			return t.F
		}
		if mb < sgn && a.isConst() && a.K >= sgn {
			return t.T
		}
	}
	if op == "bvslt" || op == "bvsle" {
		if r := t.cmpLinear(op, a, b); r != nil {
			return r
		}
	} else if ra, _ := rangeS(a); ra.lo >= 0 {
		if rb, _ := rangeS(b); rb.lo >= 0 {
			if r := t.cmpLinear("bvs"+op[3:], a, b); r != nil {
				return r
			}
		}
	}
	return t.mk(op, 0, 0, a, b)
}

func (t *TermTable) Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if a.isConst() {
		return t.Const(w, a.K>>uint(lo))
	}
	if lo == 0 && (a.Op == "zero_extend" || a.Op == "sign_extend") {
		in := a.A[0]
		if in.W == w {
			return in
		}
		if in.W > w {
			return t.Extract(hi, lo, in)
		}
		return t.Ext(a.Op, w, in)
	}
	return t.mk("extract", w, uint64(hi)<<8|uint64(lo), a)
}

func (t *TermTable) Ext(op string, w int, a *Term) *Term {
	if w == a.W {
		return a
	}
	if a.isConst() {
		if op == "sign_extend" {
			return t.Const(w, uint64(sext(a.K, a.W)))
		}
		return t.Const(w, a.K)
	}
	if a.Op == "zero_extend" {
		return t.Ext("zero_extend", w, a.A[0])
	}
	if a.Op == op {
		return t.Ext(op, w, a.A[0])
	}
	if a.Op == "extract" && a.K&255 == 0 && a.A[0].W == w {
		if r, _ := rangeS(a.A[0]); op == "sign_extend" && r.lo >= fullRange(a.W).lo && r.hi <= fullRange(a.W).hi || op == "zero_extend" && r.lo >= 0 && uint64(r.hi) <= mask(a.W) {
			return a.A[0]
		}
	}
	if op == "sign_extend" && maxU(a) < uint64(1)<<uint(a.W-1) {
		op = "zero_extend"
	}
	return t.mk(op, w, uint64(w-a.W), a)
}

func evalBin(op string, w int, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case "bvadd":
		return (a + b) & m
	case "bvsub":
		return (a - b) & m
	case "bvmul":
		return (a * b) & m
	case "bvand":
		return a & b
	case "bvor":
		return a | b
	case "bvxor":
		return a ^ b
	case "bvshl":
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case "bvlshr":
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case "bvashr":
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sext(a, w)>>b) & m
	case "bvudiv":
		if b == 0 {
			return m
		}
		return a / b
	case "bvurem":
		if b == 0 {
			return a
		}
		return a % b
	case "bvsdiv":
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case "bvsrem":
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	}
	panic("evalBin " + op)
}

func evalCmp(op string, w int, a, b uint64) bool {
	switch op {
	case "bvult":
		return a < b
	case "bvule":
		return a <= b
	case "bvslt":
		return sext(a, w) < sext(b, w)
	case "bvsle":
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp " + op)
}

// Model maps variables to values (missing: 0).
type Model map[*Term]uint64

func (t *TermTable) Eval(x *Term, m Model) uint64 {
	t.gen++
	return t.eval(x, m)
}

func (t *TermTable) eval(x *Term, m Model) uint64 {
	switch x.Op {
	case "const":
		return x.K
	case "var":
		if v, ok := m[x]; ok {
			return v
		}
		return x.lo
	}
	if x.gen == t.gen {
		return x.val
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch x.Op {
	case "not":
		r = 1 - t.eval(x.A[0], m)
	case "and":
		r = t.eval(x.A[0], m) & t.eval(x.A[1], m)
	case "or":
		r = t.eval(x.A[0], m) | t.eval(x.A[1], m)
	case "ite":
		if t.eval(x.A[0], m) != 0 {
			r = t.eval(x.A[1], m)
		} else {
			r = t.eval(x.A[2], m)
		}
	case "=":
		r = b2u(t.eval(x.A[0], m) == t.eval(x.A[1], m))
	case "bvult", "bvule", "bvslt", "bvsle":
		r = b2u(evalCmp(x.Op, x.A[0].W, t.eval(x.A[0], m), t.eval(x.A[1], m)))
	case "extract":
		r = (t.eval(x.A[0], m) >> (x.K & 255)) & mask(x.W)
	case "zero_extend":
		r = t.eval(x.A[0], m)
	case "sign_extend":
		r = uint64(sext(t.eval(x.A[0], m), x.A[0].W)) & mask(x.W)
	default:
		r = evalBin(x.Op, x.W, t.eval(x.A[0], m), t.eval(x.A[1], m))
	}
	x.gen, x.val = t.gen, r
	return r
}

func (x *Term) String() string {
	switch x.Op {
	case "var":
		return x.Name
	case "const":
		if x.W == 0 {
			return fmt.Sprint(x.K != 0)
		}
		return fmt.Sprintf("%d", sext(x.K, x.W))
	}
	var s []string
	for _, a := range x.A {
		s = append(s, a.String())
	}
	r := "(" + x.Op + " " + strings.Join(s, " ") + ")"
	if len(r) > 1500 {
		r = r[:1500] + "…"
	}
	return r
}
