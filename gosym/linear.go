package main

import "math/big"

// Interval reasoning and linear forms. The ranges of variables (declared by vf.Int and the like, and asserted in the solver)
// bound the value of a term as a signed integer; where no operation on the way can wrap, comparisons, divisions and remainders
// of scaled values (times, above all) become comparisons of the variables themselves. Checked against plain evaluation by
// term_test.go.

type ival struct{ lo, hi int64 }

func wrapW(w int, lo, hi *big.Int) (ival, bool) {
	min := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(w-1)))
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w-1)), big.NewInt(1))
	if lo.Cmp(min) < 0 || hi.Cmp(max) > 0 {
		return ival{}, false
	}
	return ival{lo.Int64(), hi.Int64()}, true
}

func fullRange(w int) ival {
	return ival{-1 << uint(w-1), 1<<uint(w-1) - 1}
}

// rangeS bounds the signed value of a; exact is whether the operation at the top cannot wrap.
func rangeS(a *Term) (r ival, exact bool) {
	if a.rngOK != 0 {
		return a.srange, a.rngOK == 1
	}
	r, exact = rangeS1(a)
	a.srange = r
	a.rngOK = 2
	if exact {
		a.rngOK = 1
	}
	return
}

func rangeS1(a *Term) (ival, bool) {
	w := a.W
	full := fullRange(w)
	switch a.Op {
	case "const":
		v := sext(a.K, w)
		return ival{v, v}, true
	case "var":
		if a.rng && a.hi <= uint64(full.hi) {
			return ival{0, int64(a.hi)}, true
		}
		return full, true
	case "zero_extend":
		in := a.A[0]
		if r, _ := rangeS(in); r.lo >= 0 {
			return r, true
		}
		if in.W < 64 {
			return ival{0, int64(mask(in.W))}, true
		}
		return full, true
	case "sign_extend":
		r, _ := rangeS(a.A[0])
		return r, true
	case "extract":
		if a.K&255 == 0 {
			r, _ := rangeS(a.A[0])
			if r.lo >= full.lo && r.hi <= full.hi {
				return r, true
			}
		}
		return full, false
	case "ite":
		x, _ := rangeS(a.A[1])
		y, _ := rangeS(a.A[2])
		return ival{min(x.lo, y.lo), max(x.hi, y.hi)}, true
	case "bvadd", "bvsub", "bvmul":
		x, _ := rangeS(a.A[0])
		y, _ := rangeS(a.A[1])
		xl, xh, yl, yh := big.NewInt(x.lo), big.NewInt(x.hi), big.NewInt(y.lo), big.NewInt(y.hi)
		var lo, hi *big.Int
		switch a.Op {
		case "bvadd":
			lo, hi = new(big.Int).Add(xl, yl), new(big.Int).Add(xh, yh)
		case "bvsub":
			lo, hi = new(big.Int).Sub(xl, yh), new(big.Int).Sub(xh, yl)
		default:
			for i, p := range []*big.Int{new(big.Int).Mul(xl, yl), new(big.Int).Mul(xl, yh), new(big.Int).Mul(xh, yl), new(big.Int).Mul(xh, yh)} {
				if i == 0 || p.Cmp(lo) < 0 {
					lo = p
				}
				if i == 0 || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		if r, ok := wrapW(w, lo, hi); ok {
			return r, true
		}
		return full, false
	case "bvsdiv":
		if b := a.A[1]; b.isConst() && sext(b.K, w) > 0 {
			x, _ := rangeS(a.A[0])
			c := sext(b.K, w)
			return ival{x.lo / c, x.hi / c}, true
		}
	case "bvsrem":
		if b := a.A[1]; b.isConst() && sext(b.K, w) > 0 {
			x, _ := rangeS(a.A[0])
			c := sext(b.K, w)
			r := ival{-(c - 1), c - 1}
			if x.lo >= 0 {
				r.lo = 0
				r.hi = min(r.hi, x.hi)
			}
			if x.hi <= 0 {
				r.hi = 0
				r.lo = max(r.lo, x.lo)
			}
			return r, true
		}
	case "bvudiv":
		if b := a.A[1]; b.isConst() && sext(b.K, w) > 0 {
			if x, _ := rangeS(a.A[0]); x.lo >= 0 {
				c := sext(b.K, w)
				return ival{x.lo / c, x.hi / c}, true
			}
		}
	case "bvurem":
		if b := a.A[1]; b.isConst() && sext(b.K, w) > 0 {
			return ival{0, sext(b.K, w) - 1}, true
		}
	case "bvand":
		for i := 0; i < 2; i++ {
			if b := a.A[i]; b.isConst() && sext(b.K, w) >= 0 {
				return ival{0, sext(b.K, w)}, true
			}
		}
		x, _ := rangeS(a.A[0])
		y, _ := rangeS(a.A[1])
		if x.lo >= 0 {
			return ival{0, x.hi}, true
		}
		if y.lo >= 0 {
			return ival{0, y.hi}, true
		}
	case "bvlshr":
		if b := a.A[1]; b.isConst() && b.K >= 1 && b.K < uint64(w) {
			if x, _ := rangeS(a.A[0]); x.lo >= 0 {
				return ival{x.lo >> b.K, x.hi >> b.K}, true
			}
			return ival{0, int64(mask(w) >> b.K)}, true
		}
	case "bvashr":
		if b := a.A[1]; b.isConst() && b.K < uint64(w) {
			x, _ := rangeS(a.A[0])
			return ival{x.lo >> b.K, x.hi >> b.K}, true
		}
	}
	return full, false
}

// linear is k + sign*c*x, exact as integers.
type linear struct {
	x *Term
	c int64 // > 0
	s int64 // 1 or -1
	k int64
}

// linearOf takes a apart if none of its operations can wrap.
func linearOf(a *Term) (linear, bool) {
	w := a.W
	scaled := func(m *Term) (linear, bool) {
		if m.Op == "bvmul" && m.A[1].isConst() && sext(m.A[1].K, w) > 0 {
			if _, ok := rangeS(m); ok {
				return linear{m.A[0], sext(m.A[1].K, w), 1, 0}, true
			}
			return linear{}, false
		}
		return linear{m, 1, 1, 0}, true
	}
	_, exact := rangeS(a)
	switch {
	case a.isConst():
		return linear{}, false
	case a.Op == "bvadd" && a.A[1].isConst() && exact:
		l, ok := scaled(a.A[0])
		l.k = sext(a.A[1].K, w)
		return l, ok
	case a.Op == "bvsub" && a.A[0].isConst() && exact:
		l, ok := scaled(a.A[1])
		l.s, l.k = -1, sext(a.A[0].K, w)
		return l, ok
	case a.Op == "bvmul" && exact:
		return scaled(a)
	}
	return linear{a, 1, 1, 0}, true
}

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean: m >= 0
	return q
}

// divConst is a / c or a % c (c > 0, truncated), simplified.
func (t *TermTable) divConst(op string, a *Term, c int64) *Term {
	w := a.W
	r, _ := rangeS(a)
	rem := op == "bvsrem" || op == "bvurem"
	if (op == "bvudiv" || op == "bvurem") && r.lo < 0 {
		return nil
	}
	if r.lo >= 0 && r.hi < c || r.hi <= 0 && r.lo > -c {
		if rem {
			return a
		}
		return t.Const(w, 0)
	}
	if r.lo/c == r.hi/c && (r.lo >= 0 || r.hi < 0) { // one quotient
		q := r.lo / c
		if !rem {
			return t.Const(w, uint64(q))
		}
		return t.Bin("bvadd", a, t.Const(w, uint64(-q*c)))
	}
	l, ok := linearOf(a)
	if !ok || l.c%c != 0 {
		return nil
	}
	k1 := l.k / c
	rest := l.k % c
	if rest < 0 {
		k1--
		rest += c
	}
	// the value is c*(k1 + s*q*x) + rest
	f := t.Bin("bvmul", l.x, t.Const(w, uint64(l.c/c)))
	if l.s < 0 {
		f = t.Bin("bvsub", t.Const(w, uint64(k1)), f)
	} else {
		f = t.Bin("bvadd", f, t.Const(w, uint64(k1)))
	}
	switch {
	case rest == 0 || r.lo >= 0:
		if rem {
			return t.Const(w, uint64(rest))
		}
		return f
	case r.hi < 0:
		if rem {
			return t.Const(w, uint64(rest-c))
		}
		return t.Bin("bvadd", f, t.Const(w, 1))
	}
	neg := t.Cmp("bvslt", f, t.Const(w, 0))
	if rem {
		return t.Ite(neg, t.Const(w, uint64(rest-c)), t.Const(w, uint64(rest)))
	}
	return t.Ite(neg, t.Bin("bvadd", f, t.Const(w, 1)), f)
}

// cmpLinear decides or simplifies a < b (strict) or a <= b, signed; nil if it cannot.
func (t *TermTable) cmpLinear(op string, a, b *Term) *Term {
	w := a.W
	ra, _ := rangeS(a)
	rb, _ := rangeS(b)
	strict := op == "bvslt"
	if strict && ra.hi < rb.lo || !strict && ra.hi <= rb.lo {
		return t.T
	}
	if strict && ra.lo >= rb.hi || !strict && ra.lo > rb.hi {
		return t.F
	}
	full := fullRange(w)
	if a.isConst() || b.isConst() {
		x, k := a, b
		if a.isConst() {
			x, k = b, a
		}
		l, ok := linearOf(x)
		if !ok || l.x == x {
			return nil
		}
		// k0 + s*c*x  ?  K, for integers
		d := new(big.Int).Sub(big.NewInt(sext(k.K, w)), big.NewInt(l.k)) // s*c*x ? d
		c := big.NewInt(l.c)
		one := big.NewInt(1)
		// bring to: upper (s*c*x <= d) or lower (s*c*x >= d)
		upper := x == a
		if strict {
			if upper {
				d.Sub(d, one)
			} else {
				d.Add(d, one)
			}
		}
		if l.s < 0 {
			upper = !upper
			d.Neg(d)
		}
		if upper { // c*x <= d  <=>  x <= floor(d/c)
			q := floorDiv(d, c)
			if q.Cmp(big.NewInt(full.lo)) < 0 {
				return t.F
			}
			if q.Cmp(big.NewInt(full.hi)) >= 0 {
				return t.T
			}
			return t.Cmp("bvsle", l.x, t.Const(w, uint64(q.Int64())))
		}
		// c*x >= d  <=>  x >= ceil(d/c)
		q := new(big.Int).Neg(floorDiv(new(big.Int).Neg(d), c))
		if q.Cmp(big.NewInt(full.hi)) > 0 {
			return t.F
		}
		if q.Cmp(big.NewInt(full.lo)) <= 0 {
			return t.T
		}
		return t.Cmp("bvsle", t.Const(w, uint64(q.Int64())), l.x)
	}
	la, ok1 := linearOf(a)
	lb, ok2 := linearOf(b)
	if ok1 && ok2 && la.x == lb.x && la.c == lb.c && la.s == lb.s {
		if strict {
			return t.Bool(la.k < lb.k)
		}
		return t.Bool(la.k <= lb.k)
	}
	return nil
}

// eqLinear decides or simplifies a == b; nil if it cannot.
func (t *TermTable) eqLinear(a, b *Term) *Term {
	w := a.W
	ra, _ := rangeS(a)
	rb, _ := rangeS(b)
	if ra.hi < rb.lo || rb.hi < ra.lo {
		return t.F
	}
	if b.isConst() {
		l, ok := linearOf(a)
		if !ok || l.x == a {
			return nil
		}
		d := new(big.Int).Sub(big.NewInt(sext(b.K, w)), big.NewInt(l.k))
		if l.s < 0 {
			d.Neg(d)
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(d, big.NewInt(l.c), m)
		if m.Sign() != 0 || !q.IsInt64() || q.Int64() < fullRange(w).lo || q.Int64() > fullRange(w).hi {
			return t.F
		}
		return t.Eq(l.x, t.Const(w, uint64(q.Int64())))
	}
	la, ok1 := linearOf(a)
	lb, ok2 := linearOf(b)
	if ok1 && ok2 && la.x == lb.x && la.c == lb.c && la.s == lb.s {
		return t.Bool(la.k == lb.k)
	}
	return nil
}
