package symdb

import (
	"strings"
	"time"

	"verifharness/vf"
)

// tri is SQL's three-valued truth; v may be symbolic, null is not.
type tri struct{ v, null bool }

type env struct {
	t    *Table
	row  []any
	args []any
	ins  []any // the row to insert, for VALUES(col)
	grp  [][]any
}

func triOf(v any) tri {
	switch x := v.(type) {
	case tri:
		return x
	case nil:
		return tri{null: true}
	case int64:
		return tri{v: x != 0}
	case float64:
		return tri{v: x != 0}
	case string:
		return tri{v: x != "" && x != "0"}
	}
	vf.Unsupported("condition")
	return tri{}
}

// compare gives less and equal for two values that are not null.
func compare(a, b any) (lt, eq bool) {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return x < y, x == y
		case float64:
			return float64(x) < y, float64(x) == y
		case string:
			if n, ok := atoi(y); ok {
				return x < n, x == n
			}
		}
	case float64:
		switch y := b.(type) {
		case int64:
			return x < float64(y), x == float64(y)
		case float64:
			return x < y, x == y
		}
	case string:
		switch y := b.(type) {
		case string:
			return x < y, x == y
		case int64:
			if n, ok := atoi(x); ok {
				return n < y, n == y
			}
		case time.Time:
			if t, err := parseTime(x); err == nil {
				return cmpTime(t, y)
			}
		}
	case time.Time:
		switch y := b.(type) {
		case time.Time:
			return cmpTime(x, y)
		case string:
			if t, err := parseTime(y); err == nil {
				return cmpTime(x, t)
			}
		}
	case tri:
		return compare(boolInt(x), b)
	}
	if y, ok := b.(tri); ok {
		return compare(a, boolInt(y))
	}
	vf.Unsupported("comparison of different types")
	return false, false
}

// cmpTime compares without a decision on symbolic times.
func cmpTime(x, y time.Time) (lt, eq bool) {
	xs, ys := x.Unix(), y.Unix()
	xn, yn := x.Nanosecond(), y.Nanosecond()
	return vf.Or(xs < ys, vf.And(xs == ys, xn < yn)), vf.And(xs == ys, xn == yn)
}

func boolInt(t tri) any {
	if t.null {
		return nil
	}
	return int64(vf.IteInt(t.v, 1, 0))
}

func atoi(s string) (int64, bool) {
	if s == "" || len(s) > 18 {
		return 0, false
	}
	neg := s[0] == '-'
	if neg {
		s = s[1:]
	}
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func (x *env) eval(e expr) any {
	switch e := e.(type) {
	case *eCol:
		if x.t == nil {
			vf.Unsupported("column " + e.name)
		}
		i, ok := x.t.idx[e.name]
		if !ok {
			panic(unknownColumn(e.name))
		}
		return x.row[i]
	case *eParam:
		if e.n >= len(x.args) {
			vf.Unsupported("missing parameter")
		}
		return x.args[e.n]
	case *eLit:
		return e.v
	case *eNot:
		t := triOf(x.eval(e.e))
		return tri{vf.Not(t.v), t.null}
	case *eIsNull:
		n := x.eval(e.e)
		isNull := n == nil
		if t, ok := n.(tri); ok {
			isNull = t.null
		}
		return tri{v: isNull != e.not}
	case *eIn:
		l := x.eval(e.e)
		res := tri{}
		for _, y := range e.list {
			c := x.equal(l, x.eval(y))
			res = or(res, c)
		}
		if e.not {
			return tri{vf.Not(res.v), res.null}
		}
		return res
	case *eLike:
		a, b := x.eval(e.e), x.eval(e.p)
		if a == nil || b == nil {
			return tri{null: true}
		}
		s, ok1 := a.(string)
		p, ok2 := b.(string)
		if !ok1 || !ok2 {
			vf.Unsupported("LIKE")
		}
		return tri{v: like(s, p) != e.not}
	case *eBin:
		switch e.op {
		case "AND":
			l, r := triOf(x.eval(e.l)), triOf(x.eval(e.r))
			return and(l, r)
		case "OR":
			l, r := triOf(x.eval(e.l)), triOf(x.eval(e.r))
			return or(l, r)
		}
		l, r := x.eval(e.l), x.eval(e.r)
		switch e.op {
		case "+", "-", "*":
			if l == nil || r == nil {
				return nil
			}
			a, ok1 := l.(int64)
			b, ok2 := r.(int64)
			if !ok1 || !ok2 {
				vf.Unsupported("arithmetic")
			}
			switch e.op {
			case "+":
				return a + b
			case "-":
				return a - b
			}
			return a * b
		case "=":
			return x.equal(l, r)
		case "!=":
			t := x.equal(l, r)
			return tri{vf.Not(t.v), t.null}
		}
		if l == nil || r == nil {
			return tri{null: true}
		}
		lt, eq := compare(l, r)
		switch e.op {
		case "<":
			return tri{v: lt}
		case "<=":
			return tri{v: vf.Or(lt, eq)}
		case ">":
			return tri{v: vf.Not(vf.Or(lt, eq))}
		case ">=":
			return tri{v: vf.Not(lt)}
		}
	case *eFunc:
		return x.call(e)
	case *eTuple:
		var r []any
		for _, y := range e.list {
			r = append(r, x.eval(y))
		}
		return r
	}
	vf.Unsupported("expression")
	return nil
}

func (x *env) equal(l, r any) tri {
	if a, ok := l.([]any); ok {
		b, ok := r.([]any)
		if !ok || len(a) != len(b) {
			vf.Unsupported("row comparison")
		}
		t := tri{v: true}
		for i := range a {
			t = and(t, x.equal(a[i], b[i]))
		}
		return t
	}
	if l == nil || r == nil {
		return tri{null: true}
	}
	_, eq := compare(l, r)
	return tri{v: eq}
}

// A null operand decides nothing: with a symbolic other operand the result is null unless that one is decisive.
func and(a, b tri) tri {
	if !a.null && !b.null {
		return tri{v: vf.And(a.v, b.v)}
	}
	if a.null && b.null {
		return tri{null: true}
	}
	if a.null {
		a, b = b, a
	}
	if vf.ConcreteBool(a.v) {
		return tri{null: true}
	}
	return tri{}
}

func or(a, b tri) tri {
	if !a.null && !b.null {
		return tri{v: vf.Or(a.v, b.v)}
	}
	if a.null && b.null {
		return tri{null: true}
	}
	if a.null {
		a, b = b, a
	}
	if vf.ConcreteBool(a.v) {
		return tri{v: true}
	}
	return tri{null: true}
}

// holds forks on whether a condition is true.
func (x *env) holds(e expr) bool {
	if e == nil {
		return true
	}
	t := triOf(x.eval(e))
	return !t.null && vf.ConcreteBool(t.v)
}

func like(s, p string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && like(s[1:], p[1:])
	}
	return s != "" && s[0] == p[0] && like(s[1:], p[1:])
}

func isAgg(e expr) bool {
	f, ok := e.(*eFunc)
	if !ok {
		return false
	}
	switch f.name {
	case "COUNT", "MIN", "MAX", "SUM":
		return true
	}
	return false
}

func (x *env) call(f *eFunc) any {
	switch f.name {
	case "COUNT", "MIN", "MAX", "SUM":
		if f.star {
			return int64(len(x.grp))
		}
		n := int64(0)
		var best any
		sum := int64(0)
		for _, r := range x.grp {
			y := &env{t: x.t, row: r, args: x.args}
			v := y.eval(f.args[0])
			if v == nil {
				continue
			}
			n++
			if i, ok := v.(int64); ok {
				sum += i
			}
			if best == nil {
				best = v
				continue
			}
			lt, eq := compare(v, best)
			if f.name == "MIN" && vf.ConcreteBool(lt) || f.name == "MAX" && vf.ConcreteBool(vf.Not(vf.Or(lt, eq))) {
				best = v
			}
		}
		switch f.name {
		case "COUNT":
			return n
		case "SUM":
			if n == 0 {
				return nil
			}
			return sum
		}
		return best
	case "VALUES":
		if c, ok := f.args[0].(*eCol); ok && x.ins != nil {
			return x.ins[x.t.idx[c.name]]
		}
	case "NOW", "CURRENT_TIMESTAMP":
		return time.Now().Round(0).UTC()
	case "LOWER":
		if s, ok := x.eval(f.args[0]).(string); ok {
			return strings.ToLower(s)
		}
	case "COALESCE", "IFNULL":
		for _, a := range f.args {
			if v := x.eval(a); v != nil {
				return v
			}
		}
		return nil
	case "LENGTH", "CHAR_LENGTH":
		if s, ok := x.eval(f.args[0]).(string); ok {
			return int64(len(s))
		}
	}
	vf.Unsupported("function " + f.name)
	return nil
}
