package main

import (
	"math/rand"
	"testing"
)

// pair is a simplified term and its plain meaning.
type pair struct {
	t *Term
	f func(m Model) uint64
}

// TestTermSimplification builds random terms and compares the value of what the table makes of them with plain evaluation.
func TestTermSimplification(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	for round := 0; round < 60000; round++ {
		tt := newTermTable()
		w := []int{64, 64, 64, 32, 8, 16}[rnd.Intn(6)]
		consts := []uint64{0, 1, 2, 3, 7, 1000000000, 1000000, 999999999, 86400, ^uint64(0), 1 << 63, 1<<63 - 1, 62135596800, 946684800, 1 << 31, 127, 128, 255, 60, 10}
		konst := func(w int) uint64 {
			switch rnd.Intn(3) {
			case 0:
				return rnd.Uint64() & mask(w)
			case 1:
				return uint64(rnd.Intn(50)-25) & mask(w)
			}
			return consts[rnd.Intn(len(consts))] & mask(w)
		}
		var vs []*Term
		for i := 0; i < 3; i++ {
			v := tt.NewVar("v"+itoa(i), w)
			v.rng = true
			v.hi = []uint64{1, 9, 100, 8010, 1000000, mask(w), mask(w) >> 1}[rnd.Intn(7)]
			if v.hi > mask(w) {
				v.hi = mask(w)
			}
			vs = append(vs, v)
		}
		vars := map[*Term]uint64{}
		_ = vars
		var bv func(d, w int) pair
		var boolT func(d int) pair
		leaf := func(w2 int) pair {
			if w2 == w && rnd.Intn(3) > 0 {
				v := vs[rnd.Intn(len(vs))]
				return pair{v, func(m Model) uint64 { return m[v] }}
			}
			k := konst(w2)
			return pair{tt.Const(w2, k), func(Model) uint64 { return k }}
		}
		// scaled and shifted variables, as times are
		line := func() pair {
			v := vs[rnd.Intn(len(vs))]
			c := []uint64{1, 2, 10, 60, 1000, 1000000000}[rnd.Intn(6)] & mask(w)
			k1, k2 := konst(w), uint64(rnd.Intn(4000)-2000)*c+uint64(rnd.Intn(3)*rnd.Intn(int(c&0xffff)+1))
			if rnd.Intn(2) == 0 {
				k1 = uint64(rnd.Intn(100))
			}
			k2 = (k2 - k1*c) & mask(w)
			x := tt.Bin("bvadd", tt.Bin("bvmul", tt.Bin("bvsub", tt.Const(w, k1), v), tt.Const(w, c)), tt.Const(w, k2))
			f := func(m Model) uint64 { return ((k1-m[v])*c + k2) & mask(w) }
			if rnd.Intn(2) == 0 {
				x = tt.Bin("bvadd", tt.Bin("bvmul", tt.Bin("bvadd", tt.Const(w, k1), v), tt.Const(w, c)), tt.Const(w, k2))
				f = func(m Model) uint64 { return ((k1+m[v])*c + k2) & mask(w) }
			}
			if rnd.Intn(2) == 0 {
				op := []string{"bvsdiv", "bvsrem", "bvudiv", "bvurem"}[rnd.Intn(4)]
				y := tt.Bin(op, x, tt.Const(w, c))
				return pair{y, func(m Model) uint64 { return evalBin(op, w, f(m), c) }}
			}
			return pair{x, f}
		}
		bv = func(d, w2 int) pair {
			if d == 0 {
				return leaf(w2)
			}
			if w2 == w && w >= 16 && rnd.Intn(5) == 0 {
				return line()
			}
			switch c := rnd.Intn(14); {
			case c < 9:
				op := []string{"bvadd", "bvsub", "bvmul", "bvsdiv", "bvsrem", "bvudiv", "bvurem", "bvand", "bvlshr"}[c]
				a := bv(d-1, w2)
				b := bv(d-1, w2)
				if c >= 2 && rnd.Intn(4) > 0 {
					k := konst(w2)
					b = pair{tt.Const(w2, k), func(Model) uint64 { return k }}
				}
				return pair{tt.Bin(op, a.t, b.t), func(m Model) uint64 { return evalBin(op, w2, a.f(m), b.f(m)) }}
			case c == 9:
				q := boolT(d - 1)
				a, b := bv(d-1, w2), bv(d-1, w2)
				return pair{tt.Ite(q.t, a.t, b.t), func(m Model) uint64 {
					if q.f(m) != 0 {
						return a.f(m)
					}
					return b.f(m)
				}}
			case c == 10 && w2 > 8:
				in := w2 / 2
				a := bv(d-1, w2)
				x := tt.Extract(in-1, 0, a.t)
				return pair{tt.Ext("sign_extend", w2, x), func(m Model) uint64 { return uint64(sext(a.f(m)&mask(in), in)) & mask(w2) }}
			case c == 11 && w2 > 8:
				in := w2 / 2
				a := bv(d-1, w2)
				x := tt.Extract(in-1, 0, a.t)
				return pair{tt.Ext("zero_extend", w2, x), func(m Model) uint64 { return a.f(m) & mask(in) }}
			case c == 12:
				op := []string{"bvor", "bvxor", "bvashr", "bvshl"}[rnd.Intn(4)]
				a, b := bv(d-1, w2), bv(d-1, w2)
				return pair{tt.Bin(op, a.t, b.t), func(m Model) uint64 { return evalBin(op, w2, a.f(m), b.f(m)) }}
			}
			return leaf(w2)
		}
		boolT = func(d int) pair {
			a, b := bv(d, w), bv(d, w)
			if rnd.Intn(2) == 0 {
				k := konst(w)
				b = pair{tt.Const(w, k), func(Model) uint64 { return k }}
			}
			if rnd.Intn(4) == 0 {
				a, b = b, a
			}
			switch rnd.Intn(3) {
			case 0:
				return pair{tt.Eq(a.t, b.t), func(m Model) uint64 {
					if a.f(m) == b.f(m) {
						return 1
					}
					return 0
				}}
			default:
				op := []string{"bvult", "bvule", "bvslt", "bvsle"}[rnd.Intn(4)]
				return pair{tt.Cmp(op, a.t, b.t), func(m Model) uint64 {
					if evalCmp(op, w, a.f(m), b.f(m)) {
						return 1
					}
					return 0
				}}
			}
		}
		p := boolT(1 + rnd.Intn(4))
		q := bv(1+rnd.Intn(4), w)
		for i := 0; i < 12; i++ {
			m := Model{}
			for _, v := range vs {
				switch rnd.Intn(3) {
				case 0:
					m[v] = 0
				case 1:
					m[v] = v.hi
				default:
					m[v] = rnd.Uint64()
					if v.hi != ^uint64(0) {
						m[v] %= v.hi + 1
					}
				}
			}
			if g, e := tt.Eval(p.t, m), p.f(m); g != e {
				t.Fatalf("round %d: %s is %d, not %d, for %v", round, p.t, g, e, m)
			}
			if g, e := tt.Eval(q.t, m), q.f(m); g != e {
				t.Fatalf("round %d: %s is %d, not %d, for %v", round, q.t, g, e, m)
			}
			for _, x := range []*Term{q.t} {
				if r, _ := rangeS(x); sext(tt.Eval(x, m), w) < r.lo || sext(tt.Eval(x, m), w) > r.hi {
					t.Fatalf("round %d: %s is outside its range", round, x)
				}
			}
		}
	}
}
