package sqlx

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/gorm"

	"verifharness/symdb"
	"verifharness/vf"
)

var bg = context.Background()

type keyPO struct {
	ID string `gorm:"primaryKey;column:uid"`
}

type money struct {
	Amount int
	Unit   string
}

type rowPO struct {
	Key   keyPO `gorm:"embedded"`
	Title string
	N     int
	On    bool
	P     *int
	At    time.Time `gorm:"type:datetime(3)"`
	Tags  []string  `gorm:"type:json;serializer:json"`
	Doc   *money    `gorm:"type:json;serializer:json"`
	Bill  money     `gorm:"embedded;embeddedPrefix:bill_"`
	Ship  money     `gorm:"embedded;embeddedPrefix:ship_"`
}

func (r *rowPO) GetID() string     { return r.Key.ID }
func (r *rowPO) TableName() string { return "row" }

// linkPO has two primary key columns.
type linkPO struct {
	Left  string `gorm:"primaryKey"`
	Right string `gorm:"primaryKey"`
	N     int
}

func (r *linkPO) GetID() string     { return r.Left }
func (r *linkPO) TableName() string { return "link" }

type db struct {
	st   *symdb.Store
	g    *gorm.DB
	rows *symdb.Table
	link *symdb.Table
	ex   *mysql.Executor
}

func newDB() *db {
	d := &db{st: symdb.New()}
	d.g = d.st.Open("main", nil)
	d.rows = d.st.CreateTable(d.g, &rowPO{})
	d.link = d.st.CreateTable(d.g, &linkPO{})
	d.ex = mysql.NewExecutor(d.g)
	return d
}

var epoch = time.Unix(946684800, 0).UTC()

func base(id string) *rowPO {
	return &rowPO{Key: keyPO{ID: id}, Title: "t", N: 7, On: true, At: epoch, Tags: []string{"x"}, Bill: money{1, "b"}, Ship: money{2, "s"}}
}

func text(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		vf.Fail("json: " + err.Error())
	}
	return string(b)
}

func (d *db) put(m *rowPO) {
	v := map[string]any{"uid": m.Key.ID, "title": m.Title, "n": int64(m.N), "on": boolInt(m.On), "p": nil, "at": m.At, "tags": text(m.Tags), "doc": nil,
		"bill_amount": int64(m.Bill.Amount), "bill_unit": m.Bill.Unit, "ship_amount": int64(m.Ship.Amount), "ship_unit": m.Ship.Unit}
	if m.P != nil {
		v["p"] = int64(*m.P)
	}
	if m.Doc != nil {
		v["doc"] = text(m.Doc)
	}
	d.rows.Put(v)
}

func boolInt(b bool) int64 { return int64(vf.IteInt(b, 1, 0)) }

func find(t *symdb.Table, id string) map[string]any {
	for _, r := range t.Rows() {
		if r["uid"] == id {
			return r
		}
	}
	return nil
}

// differs names the first column in which the row is not what the model says, "" if there is none.
func differs(r map[string]any, m *rowPO) string {
	if r == nil {
		return "the row is missing"
	}
	num := func(c string, n int64) bool { x, ok := r[c].(int64); return ok && x == n }
	txt := func(c, s string) bool { x, ok := r[c].(string); return ok && x == s }
	jsn := func(c string, v any) bool {
		x, ok := r[c].(string)
		if !ok {
			return r[c] == nil && text(v) == "null"
		}
		return x == text(v)
	}
	at, _ := r["at"].(time.Time)
	p := false
	if m.P == nil {
		p = r["p"] == nil
	} else {
		p = num("p", int64(*m.P))
	}
	for _, c := range []struct {
		name string
		ok   bool
	}{
		{"title", txt("title", m.Title)}, {"n", num("n", int64(m.N))}, {"on", num("on", boolInt(m.On))}, {"p", p},
		{"at", at.Equal(m.At)}, {"tags", jsn("tags", m.Tags)}, {"doc", jsn("doc", m.Doc)},
		{"bill_amount", num("bill_amount", int64(m.Bill.Amount))}, {"bill_unit", txt("bill_unit", m.Bill.Unit)},
		{"ship_amount", num("ship_amount", int64(m.Ship.Amount))}, {"ship_unit", txt("ship_unit", m.Ship.Unit)},
	} {
		if !vf.ConcreteBool(c.ok) {
			return c.name
		}
	}
	return ""
}

// change sets a field of the model to an arbitrary value.
var changes = []struct {
	col string
	set func(m *rowPO, n string)
}{
	{"title", func(m *rowPO, n string) { m.Title = [...]string{"", "t", "u"}[vf.Choice(n, 3)] }},
	{"n", func(m *rowPO, n string) { m.N = vf.Int(n, -100, 100) }},
	{"on", func(m *rowPO, n string) { m.On = vf.Bool(n) }},
	{"p", func(m *rowPO, n string) {
		m.P = nil
		if vf.Bool(n + "_set") {
			i := vf.Int(n, -100, 100)
			m.P = &i
		}
	}},
	{"at", func(m *rowPO, n string) { m.At = time.Unix(946684800+int64(vf.Int(n, 0, 100)), 0).UTC() }},
	{"tags", func(m *rowPO, n string) { m.Tags = [][]string{nil, {"x"}, {"x", "y"}, {"z"}}[vf.Choice(n, 4)] }},
	{"doc", func(m *rowPO, n string) { m.Doc = []*money{nil, {}, {1, "a"}, {2, "a"}}[vf.Choice(n, 4)] }},
	{"bill_amount", func(m *rowPO, n string) { m.Bill.Amount = vf.Int(n, -100, 100) }},
	{"bill_unit", func(m *rowPO, n string) { m.Bill.Unit = [...]string{"", "b", "c"}[vf.Choice(n, 3)] }},
	{"ship_amount", func(m *rowPO, n string) { m.Ship.Amount = vf.Int(n, -100, 100) }},
	{"ship_unit", func(m *rowPO, n string) { m.Ship.Unit = [...]string{"", "s", "c"}[vf.Choice(n, 3)] }},
}

func (d *db) trace() string {
	var s []string
	for _, o := range d.st.Ops {
		k := o.Kind
		if o.SQL != "" {
			k = o.SQL
		}
		if o.Err != nil {
			k += " !" + o.Err.Error()
		}
		s = append(s, k)
	}
	return strings.Join(s, "; ")
}

// finish ends the transaction and tells whether its changes stay.
func (d *db) finish(c context.Context, tx bool) bool {
	if !tx {
		return true
	}
	if vf.Bool("commit") {
		vf.Assert(d.ex.Commit(c) == nil, "commit fails")
		return true
	}
	vf.Assert(d.ex.RollBack(c) == nil, "rollback fails")
	return false
}

func init() {
	// an update of one row: two columns at once, everything else stays, also what somebody else changed meanwhile
	vf.Register("C15.update", func() {
		d := newDB()
		prev, other := base("a"), base("b")
		i := vf.Choice("field", len(changes))
		j := (i + 1 + vf.Choice("other", 2)*5) % len(changes)
		if vf.Thorough() {
			j = vf.Choice("second", len(changes))
		}
		changes[i].set(prev, "prev1")
		if i != j {
			changes[j].set(prev, "prev2")
		}
		cur := *prev
		changes[i].set(&cur, "cur1")
		if i != j {
			changes[j].set(&cur, "cur2")
		}
		d.put(prev)
		d.put(other)
		// somebody else has changed a column that this update has nothing to do with
		want := cur
		mode := vf.Choice("mode", 4) // alone, with foreign changes, in a transaction, in one with foreign changes before it
		foreign := mode % 2
		k := (i + 3) % len(changes)
		if foreign == 1 && k != j {
			n := *prev
			changes[k].set(&n, "theirs")
			d.overwrite(&n, changes[k].col)
			copyCol(&want, &n, changes[k].col)
		}
		c, tx := bg, mode >= 2
		if tx {
			var err error
			c, err = d.ex.Begin(bg)
			vf.Assert(err == nil, "begin fails")
		}
		err := d.ex.Exec(c, &ddd.Action{Op: ddd.OpUpdate, Models: []ddd.IModel{&cur}, PrevModels: []ddd.IModel{prev}})
		vf.Assert(err == nil, fmt.Sprintf("an update fails: %v", err))
		if tx {
			vf.Assert(differs(find(d.rows, "b"), other) == "", "another row is changed")
		}
		kept := d.finish(c, tx)
		if kept {
			if x := differs(find(d.rows, "a"), &want); x != "" {
				vf.Fail(fmt.Sprintf("after an update of %s and %s %s is not what it should be: %s", changes[i].col, changes[j].col, x, d.trace()))
			}
			vf.Reach("updated")
		} else {
			back := *prev
			copyCol(&back, &want, changes[k].col)
			if foreign == 0 || k == j {
				back = *prev
			}
			if x := differs(find(d.rows, "a"), &back); x != "" {
				vf.Fail("after a rollback " + x + " is not what it was: " + d.trace())
			}
			vf.Reach("rolled back")
		}
		vf.Assert(differs(find(d.rows, "b"), other) == "" && d.rows.Len() == 2, "another row is changed by an update: "+d.trace())
	})
}

// set gives a field of the model its zero value or another one that base does not have.
func set(m *rowPO, k int, zero bool) {
	n := 9
	o := rowPO{Title: "new", N: 9, On: true, P: &n, At: epoch.Add(time.Hour), Tags: []string{"new"}, Doc: &money{9, "new"}, Bill: money{9, "new"}, Ship: money{8, "new"}}
	if zero {
		o = rowPO{At: time.Unix(0, 0).UTC()}
	}
	copyCol(m, &o, changes[k].col)
}

func init() {
	// many columns of a row at once, any of them to its zero value, beside another row
	vf.Register("C15.wide", func() {
		d := newDB()
		m, other := base("a"), base("b")
		all := len(changes)
		for k := 0; k < all; k++ {
			if k%2 == 0 && k != 2 || k == 3 {
				set(m, k, false)
			}
		}
		m.On = !vf.Bool("from")
		d.put(m)
		d.put(other)
		prev := *m
		start, n := vf.Choice("first", 4)*3, []int{1, 4, 6, all}[vf.Choice("number", 4)]
		if vf.Thorough() {
			start, n = vf.Choice("start", all), 1+vf.Choice("columns", all)
		}
		zero := vf.Choice("zero", 3) // every column, or two of them
		z := 0
		if zero > 0 {
			z = vf.Choice("which", n)
		}
		for i := 0; i < n; i++ {
			toZero := zero == 0 || zero == 1 && i == z || zero == 2 && i != z
			k := (start + i) % all
			if !toZero && k%2 == 0 { // these have the new values already
				copyCol(m, base("x"), changes[k].col)
				continue
			}
			set(m, k, toZero)
		}
		m2 := *other
		set(&m2, (start+n)%all, true)
		models, before := []ddd.IModel{m, &m2}, []ddd.IModel{&prev, other}
		if (start+n+z)%2 == 0 {
			models, before = []ddd.IModel{&m2, m}, []ddd.IModel{other, &prev}
		}
		want, want2 := *m, m2
		vf.Assert(d.ex.Exec(bg, &ddd.Action{Op: ddd.OpUpdate, Models: models, PrevModels: before}) == nil, "an update fails")
		if x := differs(find(d.rows, "a"), &want); x != "" {
			vf.Fail(fmt.Sprintf("after an update of %d columns %s is not what it should be: %s", n, x, d.trace()))
		}
		if x := differs(find(d.rows, "b"), &want2); x != "" {
			vf.Fail("after an update " + x + " of the other row is not what it should be: " + d.trace())
		}
		if n > 3 {
			vf.Reach("many")
		}
	})
}

func copyCol(to, from *rowPO, col string) {
	switch col {
	case "title":
		to.Title = from.Title
	case "n":
		to.N = from.N
	case "on":
		to.On = from.On
	case "p":
		to.P = from.P
	case "at":
		to.At = from.At
	case "tags":
		to.Tags = from.Tags
	case "doc":
		to.Doc = from.Doc
	case "bill_amount":
		to.Bill.Amount = from.Bill.Amount
	case "bill_unit":
		to.Bill.Unit = from.Bill.Unit
	case "ship_amount":
		to.Ship.Amount = from.Ship.Amount
	case "ship_unit":
		to.Ship.Unit = from.Ship.Unit
	}
}

// overwrite stores one column of the model directly.
func (d *db) overwrite(m *rowPO, col string) {
	var v any
	switch col {
	case "title":
		v = m.Title
	case "n":
		v = int64(m.N)
	case "on":
		v = boolInt(m.On)
	case "p":
		if m.P != nil {
			v = int64(*m.P)
		}
	case "at":
		v = m.At
	case "tags":
		v = text(m.Tags)
	case "doc":
		if m.Doc != nil {
			v = text(m.Doc)
		}
	case "bill_amount":
		v = int64(m.Bill.Amount)
	case "bill_unit":
		v = m.Bill.Unit
	case "ship_amount":
		v = int64(m.Ship.Amount)
	case "ship_unit":
		v = m.Ship.Unit
	}
	d.rows.Set("uid", m.Key.ID, col, v)
}

// model is what the tables should hold.
type state struct {
	rows  map[string]rowPO
	links map[string]int
}

func (s *state) copy() *state {
	n := &state{map[string]rowPO{}, map[string]int{}}
	for k, v := range s.rows {
		n.rows[k] = v
	}
	for k, v := range s.links {
		n.links[k] = v
	}
	return n
}

func (d *db) check(s *state, stage string) {
	for _, id := range ids {
		m, ok := s.rows[id]
		r := find(d.rows, id)
		if !ok {
			vf.Assert(r == nil, "row "+id+" is there "+stage+": "+d.trace())
			continue
		}
		if x := differs(r, &m); x != "" {
			vf.Fail("row " + id + ": " + x + " is wrong " + stage + ": " + d.trace())
		}
	}
	vf.Assert(d.rows.Len() == len(s.rows), fmt.Sprintf("%d rows instead of %d %s: %s", d.rows.Len(), len(s.rows), stage, d.trace()))
	for k, n := range s.links {
		ok := false
		for _, r := range d.link.Rows() {
			if r["left"].(string)+r["right"].(string) == k {
				ok = r["n"] == int64(n)
			}
		}
		vf.Assert(ok, "row "+k+" is wrong "+stage+": "+d.trace())
	}
	vf.Assert(d.link.Len() == len(s.links), fmt.Sprintf("%d rows instead of %d %s: %s", d.link.Len(), len(s.links), stage, d.trace()))
}

var ids = []string{"a", "b", "c", "d"}

// subset is any nonempty subset of the ids, of at most n.
func subset(name string, of []string, n int) []string {
	var r []string
	m := 1 + vf.Choice(name, 1<<len(of)-1)
	for i, id := range of {
		if m>>i&1 == 1 && len(r) < n {
			r = append(r, id)
		}
	}
	return r
}

func init() {
	// any sequence of actions, in a transaction that is committed or rolled back or in none, against what they mean
	vf.Register("C15.actions", func() {
		d := newDB()
		steps := 2
		if vf.Thorough() {
			steps = 3
		}
		s := &state{map[string]rowPO{}, map[string]int{}}
		for _, id := range []string{"a", "b"} {
			m := base(id)
			d.put(m)
			s.rows[id] = *m
		}
		for i, k := range []string{"lx", "ly", "mx"} {
			d.link.Put(map[string]any{"left": k[:1], "right": k[1:], "n": int64(i)})
			s.links[k] = i
		}
		old := s.copy()
		c, tx := bg, vf.Bool("in_transaction")
		if tx {
			var err error
			c, err = d.ex.Begin(bg)
			vf.Assert(err == nil, "begin fails")
		}
		failed := false
		for n := 0; n < steps && !failed; n++ {
			var err error
			switch vf.Choice("action", 6) {
			case 0: // insert
				var ms []ddd.IModel
				dup := false
				for _, id := range subset("insert", ids[1:], 2) {
					m := base(id)
					m.N, m.Title = vf.Int("n", 8, 100), ""
					ms = append(ms, m)
					if _, ok := s.rows[id]; ok {
						dup = true
					}
				}
				err = d.ex.Exec(c, &ddd.Action{Op: ddd.OpInsert, Models: ms})
				vf.Assert((err != nil) == dup, fmt.Sprintf("insert of existing rows %v: %v", dup, err))
				if err == nil {
					for _, m := range ms {
						s.rows[m.GetID()] = *m.(*rowPO)
					}
					vf.Reach("inserted")
				}
			case 1: // update, with what the rows were
				var ms, ps []ddd.IModel
				for i, id := range subset("update", ids[:3], 2) {
					m, ok := s.rows[id]
					if !ok {
						m = *base(id)
					}
					p := m
					if i == 0 {
						m.N = vf.Int("n", 8, 100)
					} else {
						m.Title, m.On = "", false
					}
					ms, ps = append(ms, &m), append(ps, &p)
					if ok {
						s.rows[id] = m
					}
				}
				err = d.ex.Exec(c, &ddd.Action{Op: ddd.OpUpdate, Models: ms, PrevModels: ps})
				vf.Assert(err == nil, fmt.Sprintf("an update fails: %v", err))
				vf.Reach("updated")
			case 2: // update without: everything is stored
				var ms []ddd.IModel
				for _, id := range subset("save", ids[:3], 2) {
					m := base(id)
					m.N, m.Tags, m.On = vf.Int("n", 8, 100), nil, false
					ms = append(ms, m)
					s.rows[id] = *m
				}
				err = d.ex.Exec(c, &ddd.Action{Op: ddd.OpUpdate, Models: ms})
				vf.Assert(err == nil, fmt.Sprintf("an update fails: %v", err))
				vf.Reach("saved")
			case 3: // delete
				var ms []ddd.IModel
				for _, id := range subset("delete", ids[:3], 3) {
					ms = append(ms, &rowPO{Key: keyPO{ID: id}})
					delete(s.rows, id)
				}
				err = d.ex.Exec(c, &ddd.Action{Op: ddd.OpDelete, Models: ms})
				vf.Assert(err == nil, fmt.Sprintf("a delete fails: %v", err))
				vf.Reach("deleted")
			case 4: // of rows with two key columns
				var ms []ddd.IModel
				for _, k := range subset("unlink", []string{"lx", "ly", "my"}, 3) {
					ms = append(ms, &linkPO{Left: k[:1], Right: k[1:]})
					delete(s.links, k)
				}
				err = d.ex.Exec(c, &ddd.Action{Op: ddd.OpDelete, Models: ms})
				vf.Assert(err == nil, fmt.Sprintf("a delete fails: %v", err))
				vf.Reach("unlinked")
			case 5:
				d.query(c, s)
			}
			failed = err != nil
			if tx {
				d.check(old, "outside before the commit")
			}
		}
		kept := !tx
		switch {
		case !tx:
		case !failed && vf.Bool("commit"):
			vf.Assert(d.ex.Commit(c) == nil, "commit fails")
			kept = true
		default:
			vf.Assert(d.ex.RollBack(c) == nil, "rollback fails")
		}
		if kept {
			d.check(s, "at the end")
		} else {
			d.check(old, "after a rollback")
			vf.Reach("rolled back")
		}
	})
}

// query asks for rows and compares the answer with the state.
func (d *db) query(c context.Context, s *state) {
	q := &rowPO{}
	by := vf.Choice("query", 5)
	match := func(m *rowPO) bool { return true }
	switch by {
	case 0:
		q.Key.ID = ids[vf.Choice("id", 3)]
		match = func(m *rowPO) bool { return m.Key.ID == q.Key.ID }
	case 1:
		q.N = vf.Int("query_n", 1, 8)
		match = func(m *rowPO) bool { return m.N == q.N }
	case 2:
		q.Ship.Unit, q.On = "s", true
		match = func(m *rowPO) bool { return vf.And(m.On, m.Ship.Unit == "s") }
	case 3:
		q.Bill.Amount = 2
		match = func(m *rowPO) bool { return m.Bill.Amount == 2 }
	}
	var got []*rowPO
	err := d.ex.Exec(c, &ddd.Action{Op: ddd.OpQuery, Models: nil, Query: q, QueryResult: &got})
	vf.Assert(err == nil, fmt.Sprintf("a query fails: %v", err))
	seen := map[string]int{}
	for i, g := range got {
		seen[g.Key.ID] = i + 1
	}
	vf.Assert(len(seen) == len(got), "a row is found twice: "+d.trace())
	for _, id := range ids {
		m, ok := s.rows[id]
		want := ok && vf.ConcreteBool(match(&m))
		i := seen[id]
		vf.Assert(want == (i > 0), fmt.Sprintf("row %s is found %v: %s", id, i > 0, d.trace()))
		if i > 0 {
			g := got[i-1]
			same := vf.And(vf.And(g.N == m.N, g.On == m.On), g.At.Equal(m.At))
			vf.Assert(same && g.Title == m.Title && g.Bill == m.Bill && g.Ship == m.Ship && text(g.Tags) == text(m.Tags) && (g.P == nil) == (m.P == nil), "a row is found with other contents: "+d.trace())
			vf.Reach("found")
		}
	}
}

type thing struct {
	ddd.BaseEntity
	N int
}

func init() {
	// failures are reported, and nothing stays of a transaction with one
	vf.Register("C15.faults", func() {
		d := newDB()
		s := &state{map[string]rowPO{}, map[string]int{}}
		for _, id := range []string{"a", "b", "c"} {
			m := base(id)
			d.put(m)
			s.rows[id] = *m
		}
		for i, k := range []string{"lx", "ly"} {
			d.link.Put(map[string]any{"left": k[:1], "right": k[1:], "n": int64(i)})
			s.links[k] = i
		}
		old := s.copy()
		fail, n, failed := vf.Int("failAt", 0, 9), 0, ""
		d.st.Before = func(o *symdb.Op) error {
			if o.Kind == "rollback" {
				return nil
			}
			if n++; n == fail {
				failed = o.Kind
				return symdb.ErrInjected
			}
			return nil
		}
		c, err := d.ex.Begin(bg)
		if err != nil {
			vf.Assert(failed == "begin", "begin fails")
			_, has := c.Deadline()
			vf.Assert(c != nil && !has && errors.Is(d.ex.Commit(c), mysql.ErrNoTransaction), "a transaction that was not begun can be committed")
			vf.Reach("begin failed")
			return
		}
		vf.Assert(failed == "", "a failing begin is not reported")
		up := func(id string) (ddd.IModel, ddd.IModel) {
			m, p := s.rows[id], s.rows[id]
			m.N = 99
			s.rows[id] = m
			return &m, &p
		}
		a, pa := up("a")
		b, pb := up("b")
		var got []*rowPO
		for _, act := range []*ddd.Action{
			{Op: ddd.OpInsert, Models: []ddd.IModel{base("d")}},
			{Op: ddd.OpUpdate, Models: []ddd.IModel{a, b}, PrevModels: []ddd.IModel{pa, pb}},
			{Op: ddd.OpDelete, Models: []ddd.IModel{base("c")}},
			{Op: ddd.OpDelete, Models: []ddd.IModel{&linkPO{Left: "l", Right: "x"}, &linkPO{Left: "l", Right: "y"}}},
			{Op: ddd.OpQuery, Query: &rowPO{Title: "t"}, QueryResult: &got},
		} {
			err := d.ex.Exec(c, act)
			vf.Assert((err != nil) == (failed != ""), fmt.Sprintf("failure of a %s is reported as %v: %s", failed, err, d.trace()))
			if err != nil {
				vf.Assert(d.ex.RollBack(c) == nil, "rollback fails")
				d.check(old, "after a failure and a rollback")
				vf.Reach("failed")
				return
			}
		}
		s.rows["d"] = *base("d")
		delete(s.rows, "c")
		delete(s.links, "lx")
		delete(s.links, "ly")
		vf.Assert(len(got) == 3, "a query in a transaction does not see its changes")
		err = d.ex.Commit(c)
		vf.Assert((err != nil) == (failed != ""), fmt.Sprintf("failure of a %s is reported as %v: %s", failed, err, d.trace()))
		if err == nil {
			d.check(s, "at the end")
			vf.Reach("committed")
		} else {
			d.check(old, "after a failed commit")
		}
	})

	// what cannot be done is refused
	vf.Register("C15.refused", func() {
		d := newDB()
		mysql.RegisterEntity2Model(&thing{}, func(e, parent ddd.IEntity, op ddd.OpType) (mysql.IModel, error) {
			m := base(e.GetID())
			m.N = e.(*thing).N
			return m, nil
		}, func(m mysql.IModel, e ddd.IEntity) error {
			e.SetID(m.GetID())
			e.(*thing).N = m.(*rowPO).N
			return nil
		})
		type stranger struct{ ddd.BaseEntity }
		t := &thing{N: vf.Int("n", -100, 100)}
		t.SetID("a")
		m, err := d.ex.Entity2Model(t, nil, ddd.OpInsert)
		vf.Assert(err == nil && m.GetID() == "a" && m.(*rowPO).N == t.N, "a registered entity is not converted")
		u := &thing{}
		vf.Assert(d.ex.Model2Entity(m, u) == nil && u.GetID() == "a" && u.N == t.N, "a model is not converted")
		_, err = d.ex.Entity2Model(&stranger{}, nil, ddd.OpInsert)
		vf.Assert(errors.Is(err, ddd.ErrEntityNotRegister), "an unknown entity is accepted")
		vf.Assert(errors.Is(d.ex.Model2Entity(m, &stranger{}), ddd.ErrEntityNotRegister), "an unknown entity is accepted")
		vf.Assert(errors.Is(d.ex.Commit(bg), mysql.ErrNoTransaction), "commit without a transaction succeeds")
		vf.Assert(errors.Is(d.ex.RollBack(bg), mysql.ErrNoTransaction), "rollback without a transaction succeeds")
		op := vf.Int("op", -128, 127)
		if vf.ConcreteBool(vf.Or(op < 1, op > 4)) {
			vf.Assert(d.ex.Exec(bg, &ddd.Action{Op: ddd.OpType(op), Models: []ddd.IModel{base("a")}, Query: base("a")}) != nil, "an unknown operation succeeds")
			vf.Assert(len(d.st.Ops) == 0, "an unknown operation does something")
			vf.Reach("unknown operation")
		}
		n := mysql.NewExecutor(nil)
		_, err = n.Begin(bg)
		vf.Assert(err != nil && n.Commit(bg) != nil && n.RollBack(bg) != nil, "an executor without database begins transactions")
		vf.Reach("refused")
	})

	// two executors, and two transactions of one executor, do not get in each other's way
	vf.Register("C15.apart", func() {
		d := newDB()
		if vf.Bool("later") {
			time.Sleep(time.Duration(1+vf.Choice("pause", 2)) * time.Second / 2)
		}
		e := &db{st: symdb.New()}
		e.g = e.st.Open("second", nil)
		e.rows = e.st.CreateTable(e.g, &rowPO{})
		e.link = e.st.CreateTable(e.g, &linkPO{})
		e.ex = mysql.NewExecutor(e.g)
		same := vf.Bool("same_database")
		if same {
			e = &db{st: d.st, g: d.g, rows: d.rows, link: d.link, ex: mysql.NewExecutor(d.g)}
		}
		one := vf.Bool("one_executor")
		if one {
			e = d
		}
		c1, err := d.ex.Begin(bg)
		vf.Assert(err == nil, "begin fails")
		c2 := c1
		nested := vf.Bool("second_transaction")
		if nested {
			parent := bg
			if vf.Bool("nested") {
				parent = c1
			}
			c2, err = e.ex.Begin(parent)
			vf.Assert(err == nil, "begin fails")
		}
		vf.Assert(d.ex.Exec(c1, &ddd.Action{Op: ddd.OpInsert, Models: []ddd.IModel{base("a")}}) == nil, "an insert fails")
		vf.Assert(e.ex.Exec(c2, &ddd.Action{Op: ddd.OpInsert, Models: []ddd.IModel{base("b")}}) == nil, "an insert fails")
		joined := one && !nested
		vf.Assert((find(e.rows, "b") != nil) == (!nested && !one), "where an executor works depends on the transactions of others: "+d.trace())
		vf.Assert(find(d.rows, "a") == nil, "an insert is visible before the commit")
		end := func(x *db, c context.Context, name string) bool {
			if vf.Bool(name) {
				vf.Assert(x.ex.Commit(c) == nil, "commit fails")
				return true
			}
			vf.Assert(x.ex.RollBack(c) == nil, "rollback fails")
			return false
		}
		a := end(d, c1, "commit1")
		vf.Assert((find(d.rows, "a") != nil) == a, "the outcome of a transaction is not what was asked for: "+d.trace())
		b := true
		if joined {
			b = a
		}
		if nested {
			b = end(e, c2, "commit2")
		} else if !one {
			vf.Assert(e.ex.Commit(c1) != nil && e.ex.RollBack(c1) != nil, "an executor ends the transaction of another")
		}
		vf.Assert((find(e.rows, "b") != nil) == b, "the outcome of a transaction is not what was asked for: "+d.trace())
		vf.Assert((find(d.rows, "a") != nil) == a, "a transaction changes the outcome of another: "+d.trace())
		vf.Reach("apart")
	})
}
