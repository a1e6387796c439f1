package sqlx

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/bytedance/dddfirework/executor/mysql"

	"verifharness/vf"
)

// amount keeps what it holds to itself.
type amount struct {
	neg    bool
	digits []uint
	unit   *unit
}

type unit struct {
	name string
	also []string
	set  map[string]int
}

type dated struct {
	On   time.Time
	Note string
}

type stamps struct {
	Made time.Time
	Due  *time.Time
}

type stamped struct {
	stamps
	ID    string
	At    time.Time
	AtP   *time.Time
	Price amount
	PrP   *amount
	In    dated  `gorm:"type:json;serializer:json"`
	Emb   dated  `gorm:"embedded;embeddedPrefix:emb_"`
	InP   *dated `gorm:"type:json;serializer:json"`
}

func init() {
	// values whose parts cannot be looked at, and times in any zone
	vf.Register("C14.opaque", func() {
		zones := []*time.Location{time.UTC, time.FixedZone("east", 8*3600), time.FixedZone("west", -12600), nil}
		moment := func(n string) time.Time {
			t := time.Unix(int64(vf.Int(n, 1, 2000)), int64(vf.Int(n+"_ns", 0, 999)))
			if z := zones[vf.Choice(n+"_zone", len(zones))]; z != nil {
				return t.In(z)
			}
			return t.UTC()
		}
		sum := func(n string) amount {
			u := &unit{name: "u", also: []string{"v"}, set: map[string]int{"w": 1}}
			a := amount{unit: u}
			switch vf.Choice(n, 5) {
			case 1:
				a.digits = []uint{uint(1 + vf.Choice(n+"_digit", 3))}
			case 2:
				a.neg, a.digits = true, []uint{1}
			case 3:
				u.name = "x"
			case 4:
				u.set["w"] = 2
			}
			return a
		}
		// what an amount is compared by
		key := func(a amount) string {
			d := 0
			if len(a.digits) > 0 {
				d = int(a.digits[0])
			}
			return fmt.Sprint(a.neg, d, a.unit.name, a.unit.set["w"])
		}
		a, b := &stamped{ID: "id"}, &stamped{ID: "id"}
		field := vf.Choice("field", 9)
		rest := vf.Bool("filled")
		if rest {
			t := time.Unix(5, 0).In(zones[1])
			u := time.Unix(5, 0).In(zones[2])
			for i, m := range []*stamped{a, b} {
				if i == 1 {
					t = u
				}
				m.Made, m.Due, m.At, m.AtP = t, &t, t, &t
				m.Price = amount{digits: []uint{3, 4}, unit: &unit{name: "u", also: []string{"v"}}}
				p := amount{digits: []uint{5}, unit: &unit{set: map[string]int{"w": 1}}}
				m.PrP = &p
				m.In, m.Emb = dated{t, "n"}, dated{t, "e"}
				m.InP = &dated{t, "p"}
			}
		}
		same, name := false, ""
		if field < 6 {
			x, y := moment("a"), moment("b")
			same = x.Equal(y)
			switch field {
			case 0:
				a.Made, b.Made, name = x, y, "Made"
			case 1:
				a.Due, b.Due, name = &x, &y, "Due"
			case 2:
				a.At, b.At, name = x, y, "At"
			case 3:
				a.AtP, b.AtP, name = &x, &y, "AtP"
			case 4:
				a.In.On, b.In.On, name = x, y, "In"
			case 5:
				a.Emb.On, b.Emb.On, name = x, y, "On"
			}
		} else {
			x, y := sum("a"), sum("b")
			switch field {
			case 6:
				a.Price, b.Price, name = x, y, "Price"
			case 7:
				a.PrP, b.PrP, name = &x, &y, "PrP"
			case 8:
				a.Price, b.Price, name = x, y, "Price"
				if vf.Bool("same_one") { // the very same
					b.Price = a.Price
					y = x
				}
			}
			same = key(x) == key(y)
		}
		got := mysql.DiffModel(a, b)
		if vf.ConcreteBool(same) {
			vf.Assert(len(got) == 0, fmt.Sprint("equal values are reported as changed: ", name, got))
			vf.Reach("same")
		} else {
			vf.Assert(len(got) == 1 && got[0] == name, "a change is not reported: "+name)
			vf.Reach("changed")
		}
	})

	// values of any length are compared as a whole
	vf.Register("C14.sizes", func() {
		lens := []int{1, 8, 33, 65}
		if vf.Thorough() {
			lens = append(lens, 2, 3, 129, 257)
		}
		n := lens[vf.Choice("length", len(lens))]
		x := vf.Int("x", 0, 200) // the element that may differ
		at := 0
		switch vf.Choice("at", 3) {
		case 1:
			at = n / 2
		case 2:
			at = n - 1
		}
		how := vf.Choice("how", 4) // 0 one element may differ, 1 the last is missing, 2 one more, 3 two have changed places
		field := vf.Choice("field", 6)
		seq := func(changed bool) []int {
			v := make([]int, n)
			for i := range v {
				v[i] = i % 100
			}
			if !changed {
				return v
			}
			switch how {
			case 0:
				v[at] = x
			case 1:
				v = v[:n-1]
			case 2:
				v = append(v, 0)
			case 3:
				j := (at + 1) % n
				v[at], v[j] = v[j], v[at]
			}
			return v
		}
		old, now := seq(false), seq(true)
		a, b := &model{}, &model{}
		name := ""
		for i, m := range []*model{a, b} {
			v := old
			if i == 1 {
				v = now
			}
			switch field {
			case 0:
				m.SI, name = append([]int{}, v...), "SI"
			case 1:
				m.Raw, name = []byte{}, "Raw"
				for _, y := range v {
					m.Raw = append(m.Raw, byte(y))
				}
			case 2:
				m.SS, name = []string{}, "SS"
				for _, y := range v {
					s := "same"
					if y >= 100 {
						s = "other"
					}
					m.SS = append(m.SS, s)
				}
			case 3:
				m.SP, name = []*inner{}, "SP"
				for _, y := range v {
					m.SP = append(m.SP, &inner{y, "s"})
				}
			case 4:
				m.M, name = map[string]int{}, "M"
				for k, y := range v {
					m.M[fmt.Sprint("k", k)] = y
				}
			case 5:
				var s strings.Builder
				for _, y := range v {
					if y < 100 {
						s.WriteByte('s')
					} else {
						s.WriteByte('t')
					}
				}
				m.Name, name = s.String(), "Name"
			}
		}
		same := len(old) == len(now)
		for i := 0; same && i < n; i++ {
			u, v := old[i], now[i]
			if field == 2 || field == 5 {
				if vf.ConcreteBool((u < 100) != (v < 100)) {
					same = false
				}
			} else if vf.ConcreteBool(u != v) {
				same = false
			}
		}
		if vf.Bool("swapped") {
			a, b = b, a
		}
		got := mysql.DiffModel(a, b)
		sort.Strings(got)
		if same {
			vf.Assert(len(got) == 0, "two equal values are reported as changed: "+name)
			vf.Reach("same")
		} else {
			vf.Assert(len(got) == 1 && got[0] == name, "a change of a long value is not reported: "+name)
			vf.Reach("changed")
		}
	})
}
