// Package sqlx checks the SQL executor: model comparison and the statements it issues.
package sqlx

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/datatypes"

	"verifharness/vf"
)

type inner struct {
	A int
	B string
}

type DeepBase struct {
	DeepAt time.Time
	DeepN  int64
}

type Base struct {
	CreatedAt time.Time
	UpdatedAt time.Time
	DeepBase
}

type Price struct {
	Amount int
	Unit   string
}

type model struct {
	Base
	Cost  Price `gorm:"embedded;embeddedPrefix:cost_"`
	Value Price `gorm:"column:v;embedded"`
	ID    string
	Name  string
	On    bool
	I     int
	I8    int8
	U     uint64
	F     float64
	At    time.Time
	AtP   *time.Time
	P     *int
	PS    *string
	PB    *bool
	SS    []string
	SI    []int
	SP    []*inner
	M     map[string]int
	Raw   []byte
	JSON  datatypes.JSON
	Arr   [2]int
	In    inner  `gorm:"type:json;serializer:json"`
	InP   *inner `gorm:"type:json;serializer:json"`
	Any   any    `gorm:"type:json;serializer:json"`
}

func str(n string) string { return [...]string{"", "a", "b"}[vf.Choice(n, 3)] }

func tim(n string) time.Time {
	if vf.Bool(n + "_zero") {
		return time.Time{}
	}
	return time.Unix(int64(vf.Int(n, 0, 2000)), int64(vf.Int(n+"_ns", 0, 999))).UTC()
}

// A variant sets one field of a model to an arbitrary value and returns what that value is compared by;
// same tells whether two such values are equal; amb that the answer is a matter of taste (nil against empty).
type variant struct {
	name string
	set  func(m *model, n string) any
	same func(a, b any) (same, amb bool)
}

func cmp[T comparable](a, b any) (bool, bool) { return a.(T) == b.(T), false }

func ptr[T comparable](a, b any) (bool, bool) {
	x, y := a.(*T), b.(*T)
	if x == nil || y == nil {
		return x == nil && y == nil, false
	}
	return *x == *y, false
}

func slice[T comparable](a, b any) (bool, bool) {
	x, y := a.([]T), b.([]T)
	if len(x) != len(y) {
		return false, false
	}
	same := true
	for i := range x {
		same = vf.And(same, x[i] == y[i])
	}
	return same, len(x) == 0 && (x == nil) != (y == nil)
}

func when(a, b any) (bool, bool) { return a.(time.Time).Equal(b.(time.Time)), false }

var variants = []variant{
	{"CreatedAt", func(m *model, n string) any { m.CreatedAt = tim(n); return m.CreatedAt }, when},
	{"UpdatedAt", func(m *model, n string) any { m.UpdatedAt = tim(n); return m.UpdatedAt }, when},
	{"DeepAt", func(m *model, n string) any { m.DeepAt = tim(n); return m.DeepAt }, when},
	{"DeepN", func(m *model, n string) any { m.DeepN = int64(vf.Int(n, -1000, 1000)); return m.DeepN }, cmp[int64]},
	{"Amount", func(m *model, n string) any { m.Cost.Amount = vf.Int(n, -1000, 1000); return m.Cost.Amount }, cmp[int]},
	{"Unit", func(m *model, n string) any { m.Cost.Unit = str(n); return m.Cost.Unit }, cmp[string]},
	{"Amount/Value", func(m *model, n string) any { m.Value.Amount = vf.Int(n, -1000, 1000); return m.Value.Amount }, cmp[int]},
	{"ID", func(m *model, n string) any { m.ID = str(n); return m.ID }, cmp[string]},
	{"Name", func(m *model, n string) any { m.Name = str(n); return m.Name }, cmp[string]},
	{"On", func(m *model, n string) any { m.On = vf.Bool(n); return m.On }, cmp[bool]},
	{"I", func(m *model, n string) any { m.I = vf.Int(n, -1000, 1000); return m.I }, cmp[int]},
	{"I8", func(m *model, n string) any { m.I8 = int8(vf.Int(n, -128, 127)); return m.I8 }, cmp[int8]},
	{"U", func(m *model, n string) any { m.U = uint64(vf.Int(n, 0, 1000)); return m.U }, cmp[uint64]},
	{"F", func(m *model, n string) any { m.F = [...]float64{0, 0.5, 1, -1}[vf.Choice(n, 4)]; return m.F }, cmp[float64]},
	{"At", func(m *model, n string) any { m.At = tim(n); return m.At }, when},
	{"AtP", func(m *model, n string) any {
		if vf.Bool(n + "_set") {
			t := tim(n)
			m.AtP = &t
		}
		return m.AtP
	}, func(a, b any) (bool, bool) {
		x, y := a.(*time.Time), b.(*time.Time)
		if x == nil || y == nil {
			return x == nil && y == nil, false
		}
		// a pointer to the zero time against a pointer to another one
		return x.Equal(*y), false
	}},
	{"P", func(m *model, n string) any {
		if vf.Bool(n + "_set") {
			i := vf.Int(n, -1000, 1000)
			m.P = &i
		}
		return m.P
	}, ptr[int]},
	{"PS", func(m *model, n string) any {
		if vf.Bool(n + "_set") {
			i := str(n)
			m.PS = &i
		}
		return m.PS
	}, ptr[string]},
	{"PB", func(m *model, n string) any {
		if vf.Bool(n + "_set") {
			i := vf.Bool(n)
			m.PB = &i
		}
		return m.PB
	}, ptr[bool]},
	{"SS", func(m *model, n string) any {
		switch k := vf.Choice(n+"_len", 4); k {
		case 0:
		default:
			m.SS = make([]string, k-1)
			for i := range m.SS {
				m.SS[i] = str(n)
			}
		}
		return m.SS
	}, slice[string]},
	{"SI", func(m *model, n string) any {
		switch k := vf.Choice(n+"_len", 4); k {
		case 0:
		default:
			m.SI = make([]int, k-1)
			for i := range m.SI {
				m.SI[i] = vf.Int(n, -1000, 1000)
			}
		}
		return m.SI
	}, slice[int]},
	{"SP", func(m *model, n string) any {
		for k := vf.Choice(n+"_len", 3); k > 0; k-- {
			m.SP = append(m.SP, &inner{A: vf.Int(n, -1000, 1000)})
		}
		return m.SP
	}, func(a, b any) (bool, bool) {
		x, y := a.([]*inner), b.([]*inner)
		if len(x) != len(y) {
			return false, false
		}
		same := true
		for i := range x {
			same = vf.And(same, *x[i] == *y[i])
		}
		return same, false
	}},
	{"M", func(m *model, n string) any {
		for i, k := 0, vf.Choice(n+"_len", 3); i < k; i++ {
			if m.M == nil {
				m.M = map[string]int{}
			}
			m.M[str(n+"_key")] = vf.Int(n, -1000, 1000)
		}
		return m.M
	}, func(a, b any) (bool, bool) {
		x, y := a.(map[string]int), b.(map[string]int)
		if len(x) != len(y) {
			return false, false
		}
		same := true
		for k, v := range x {
			u, ok := y[k]
			if !ok {
				return false, false
			}
			same = vf.And(same, u == v)
		}
		return same, false
	}},
	{"Raw", func(m *model, n string) any {
		m.Raw = [][]byte{nil, {}, {1}, {2}, {1, 2}}[vf.Choice(n, 5)]
		return m.Raw
	}, func(a, b any) (bool, bool) {
		x, y := a.([]byte), b.([]byte)
		return bytes.Equal(x, y), len(x)+len(y) == 0 && (x == nil) != (y == nil)
	}},
	{"JSON", func(m *model, n string) any {
		m.JSON = []datatypes.JSON{nil, datatypes.JSON(`{"a":1}`), datatypes.JSON(`{"a":2}`), datatypes.JSON(`[]`)}[vf.Choice(n, 4)]
		return m.JSON
	}, func(a, b any) (bool, bool) { return bytes.Equal(a.(datatypes.JSON), b.(datatypes.JSON)), false }},
	{"Arr", func(m *model, n string) any {
		m.Arr = [2]int{vf.Int(n, -1000, 1000), vf.Int(n, -1000, 1000)}
		return m.Arr
	}, cmp[[2]int]},
	{"In", func(m *model, n string) any {
		m.In = inner{vf.Int(n, -1000, 1000), str(n + "_b")}
		return m.In
	}, cmp[inner]},
	{"InP", func(m *model, n string) any {
		if vf.Bool(n + "_set") {
			m.InP = &inner{vf.Int(n, -1000, 1000), str(n + "_b")}
		}
		return m.InP
	}, ptr[inner]},
	{"Any", func(m *model, n string) any {
		m.Any = []any{nil, 1, "a", "", inner{1, "a"}, inner{2, "a"}}[vf.Choice(n, 6)]
		return m.Any
	}, func(a, b any) (bool, bool) { return a == b, false }},
}

func init() {
	vf.Register("C14.fields", func() {
		// two fields vary freely, the others are the same in both models (all zero or all set)
		i := vf.Choice("field", len(variants))
		j := i
		if vf.Thorough() {
			j = i + vf.Choice("other", len(variants)-i)
		} else {
			j = (i + vf.Choice("other", 2)*7) % len(variants)
		}
		a, b := &model{}, &model{}
		if vf.Bool("filled") {
			one, t := 1, time.Unix(5, 0).UTC()
			for _, m := range []*model{a, b} {
				s, y := "s", true
				*m = model{ID: "id", Name: "n", On: true, I: 1, I8: 1, U: 1, F: 2, At: t, AtP: &t, P: &one, PS: &s, PB: &y, SS: []string{"s"}, SI: []int{1}, SP: []*inner{{1, ""}},
					M: map[string]int{"x": 1}, Raw: []byte{1}, JSON: datatypes.JSON(`{"a":1}`), Arr: [2]int{1, 2}, In: inner{1, ""}, InP: &inner{1, ""}, Any: "x"}
				m.CreatedAt, m.UpdatedAt, m.DeepAt, m.DeepN, m.Cost, m.Value = t, t, t, 4, Price{1, "u"}, Price{2, "v"}
			}
			for _, k := range []int{i, j} {
				n := strings.Split(variants[k].name, "/")[0]
				for _, m := range []*model{a, b} {
					switch n {
					case "AtP":
						m.AtP = nil
					case "P":
						m.P = nil
					case "PS":
						m.PS = nil
					case "PB":
						m.PB = nil
					case "SS":
						m.SS = nil
					case "SI":
						m.SI = nil
					case "SP":
						m.SP = nil
					case "M":
						m.M = nil
					case "InP":
						m.InP = nil
					}
				}
			}
		}
		want := map[string]bool{}
		maybe := map[string]bool{}
		for k, v := range []variant{variants[i], variants[j]} {
			if k == 1 && i == j {
				break
			}
			x, y := v.set(a, "a_"+v.name), v.set(b, "b_"+v.name)
			same, amb := v.same(x, y)
			n := strings.Split(v.name, "/")[0]
			if amb {
				maybe[n] = true
			} else if !vf.ConcreteBool(same) {
				want[n] = true
			}
		}
		var got []string
		if vf.Bool("by_value") {
			got = mysql.DiffModel(*a, *b)
		} else {
			got = mysql.DiffModel(a, b)
		}
		var g, w []string
		seen := map[string]bool{}
		for _, f := range got {
			if !maybe[f] && !seen[f] {
				seen[f] = true
				g = append(g, f)
			}
		}
		for f := range want {
			if !maybe[f] {
				w = append(w, f)
			}
		}
		sort.Strings(g)
		sort.Strings(w)
		vf.Assert(strings.Join(g, ",") == strings.Join(w, ","), fmt.Sprintf("changed: %v, reported: %v (fields %s, %s)", w, g, variants[i].name, variants[j].name))
		if len(w) == 2 {
			vf.Reach("two fields")
		}
		if len(w) == 0 {
			vf.Reach("no change")
		}
	})
}
