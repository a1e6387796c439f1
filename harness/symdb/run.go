package symdb

import (
	"database/sql/driver"
	"strings"

	"github.com/go-sql-driver/mysql"

	"verifharness/vf"
)

type unknownColumn string

// retry says that the statement has to wait for another transaction.
type waitErr struct{ tx *txn }

func (waitErr) Error() string { return "wait" }

type result struct {
	cols     []string
	goInt    []bool // columns given as int rather than int64: saves database/sql a detour over strings
	rows     [][]driver.Value
	lastID   int64
	affected int64
}

func errNoTable(n string) error {
	return &mysql.MySQLError{Number: 1146, Message: "Table '" + n + "' doesn't exist"}
}

// run executes one statement in the transaction.
func (s *Store) run(tx *txn, st *stmt, args []any) (res *result, err error) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(unknownColumn); ok {
				res, err = nil, &mysql.MySQLError{Number: 1054, Message: "Unknown column '" + string(c) + "'"}
				return
			}
			panic(r)
		}
	}()
	switch st.kind {
	case "savepoint":
		tx.saves = append(tx.saves, st.name)
		tx.saveAt = append(tx.saveAt, len(tx.undos))
		return &result{}, nil
	case "rollbackto", "release":
		for i := len(tx.saves) - 1; i >= 0; i-- {
			if tx.saves[i] == st.name {
				if st.kind == "rollbackto" {
					tx.undoTo(tx.saveAt[i])
				}
				return &result{}, nil
			}
		}
		return nil, &mysql.MySQLError{Number: 1305, Message: "SAVEPOINT " + st.name + " does not exist"}
	}
	if st.table == "" {
		if st.kind == "select" {
			x := &env{args: args}
			r := &result{}
			var out []driver.Value
			for _, it := range st.items {
				r.cols = append(r.cols, it.as)
				out = append(out, norm(x.eval(it.e)))
			}
			r.rows = append(r.rows, out)
			return r, nil
		}
		vf.Unsupported("statement without table")
	}
	t := s.tables[st.table]
	if t == nil {
		return nil, errNoTable(st.table)
	}
	for _, c := range st.cols {
		if _, ok := t.idx[c]; !ok {
			return nil, &mysql.MySQLError{Number: 1054, Message: "Unknown column '" + c + "' in 'field list'"}
		}
	}
	for _, a := range st.sets {
		if _, ok := t.idx[a.col]; !ok {
			return nil, &mysql.MySQLError{Number: 1054, Message: "Unknown column '" + a.col + "' in 'field list'"}
		}
	}
	switch st.kind {
	case "select":
		return s.sel(tx, t, st, args)
	case "insert":
		return s.insert(tx, t, st, args)
	case "update", "delete":
		return s.change(tx, t, st, args)
	}
	vf.Unsupported("statement " + st.kind)
	return nil, nil
}

// current collects the rows a locking statement works on. Rows of other transactions that may match have to be waited for.
func (s *Store) current(tx *txn, t *Table, st *stmt, args []any) ([]*row, error) {
	var r []*row
	for _, x := range t.rows {
		if x.owner != nil && x.owner != tx {
			hit := false
			if x.cur != nil {
				hit = (&env{t: t, row: x.cur, args: args}).holds(st.where)
			}
			if !hit && x.wrote && x.pend != nil {
				hit = (&env{t: t, row: x.pend, args: args}).holds(st.where)
			}
			if !hit {
				continue
			}
			switch st.wait {
			case "NOWAIT":
				return nil, &mysql.MySQLError{Number: 3572, Message: "Statement aborted because lock(s) could not be acquired immediately and NOWAIT is set."}
			case "SKIP LOCKED":
				continue
			}
			return nil, waitErr{x.owner}
		}
		v := x.latest(tx)
		if v == nil || !(&env{t: t, row: v, args: args}).holds(st.where) {
			continue
		}
		r = append(r, x)
	}
	return r, nil
}

func (s *Store) sortRows(t *Table, st *stmt, args []any, rows []*row, val func(*row) []any) {
	if s.Backwards { // what the statement leaves open comes the other way round
		for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	}
	if len(st.order) == 0 {
		return
	}
	keys := map[*row][]any{}
	for _, r := range rows {
		x := &env{t: t, row: val(r), args: args}
		for _, o := range st.order {
			keys[r] = append(keys[r], x.eval(o.e))
		}
	}
	less := func(a, b *row) bool {
		for i, o := range st.order {
			x, y := keys[a][i], keys[b][i]
			if o.desc {
				x, y = y, x
			}
			if x == nil || y == nil {
				if x == nil && y == nil {
					continue
				}
				return x == nil
			}
			lt, eq := compare(x, y)
			if vf.ConcreteBool(lt) {
				return true
			}
			if !vf.ConcreteBool(eq) {
				return false
			}
		}
		return false
	}
	for i := 1; i < len(rows); i++ {
		for j := i; j > 0 && less(rows[j], rows[j-1]); j-- {
			rows[j], rows[j-1] = rows[j-1], rows[j]
		}
	}
}

func limits(st *stmt, args []any) (off, n int) {
	n = -1
	x := &env{args: args}
	if st.limit != nil {
		if k, ok := x.eval(st.limit).(int64); ok {
			n = vf.Concrete(int(k))
		}
	}
	if st.offset != nil {
		if k, ok := x.eval(st.offset).(int64); ok {
			off = vf.Concrete(int(k))
		}
	}
	return
}

func cut(rows []*row, off, n int) []*row {
	if off > len(rows) {
		off = len(rows)
	}
	rows = rows[off:]
	if n >= 0 && n < len(rows) {
		rows = rows[:n]
	}
	return rows
}

func (s *Store) sel(tx *txn, t *Table, st *stmt, args []any) (*result, error) {
	var rows []*row
	val := func(r *row) []any { return r.read(tx) }
	if st.lock != "" {
		var err error
		if rows, err = s.current(tx, t, st, args); err != nil {
			return nil, err
		}
		val = func(r *row) []any { return r.latest(tx) }
	} else {
		if tx.begun {
			s.snapshot(tx)
		}
		for _, r := range s.readable(tx, t) {
			if v := val(r); v != nil && (&env{t: t, row: v, args: args}).holds(st.where) {
				rows = append(rows, r)
			}
		}
	}
	agg := len(st.group) > 0
	for _, it := range st.items {
		if !it.star && isAgg(it.e) {
			agg = true
		}
	}
	res := &result{}
	if agg {
		return s.selAgg(t, st, args, rows, val)
	}
	s.sortRows(t, st, args, rows, val)
	off, n := limits(st, args)
	rows = cut(rows, off, n)
	for _, it := range st.items {
		if it.star {
			for _, c := range t.cols {
				res.cols = append(res.cols, c.name)
				res.goInt = append(res.goInt, c.goInt)
			}
		} else {
			res.goInt = append(res.goInt, false)
			res.cols = append(res.cols, it.as)
		}
	}
	for _, r := range rows {
		v := val(r)
		var o []driver.Value
		for _, it := range st.items {
			if it.star {
				for i := range t.cols {
					o = append(o, t.cols[i].out(v[i]))
				}
				continue
			}
			x := (&env{t: t, row: v, args: args}).eval(it.e)
			if tr, ok := x.(tri); ok {
				x = boolInt(tr)
			}
			if c, ok := x.(string); ok {
				o = append(o, []byte(c))
			} else {
				o = append(o, x)
			}
		}
		if st.dist {
			for _, p := range res.rows {
				if sameRow(p, o) {
					o = nil
					break
				}
			}
			if o == nil {
				continue
			}
		}
		res.rows = append(res.rows, o)
		if st.lock == "UPDATE" {
			tx.lock(r)
		}
	}
	if st.lock == "SHARE" {
		vf.Unsupported("shared row locks")
	}
	return res, nil
}

func sameRow(a, b []driver.Value) bool {
	for i := range a {
		x, y := norm(a[i]), norm(b[i])
		if x == nil || y == nil {
			if x != y {
				return false
			}
			continue
		}
		if _, eq := compare(x, y); !vf.ConcreteBool(eq) {
			return false
		}
	}
	return true
}

func (s *Store) selAgg(t *Table, st *stmt, args []any, rows []*row, val func(*row) []any) (*result, error) {
	type group struct {
		key  []any
		rows [][]any
	}
	var groups []*group
	for _, r := range rows {
		x := &env{t: t, row: val(r), args: args}
		var key []any
		for _, g := range st.group {
			key = append(key, x.eval(g))
		}
		var in *group
		for _, g := range groups {
			same := true
			for i := range key {
				if key[i] == nil || g.key[i] == nil {
					same = same && key[i] == nil && g.key[i] == nil
				} else {
					_, eq := compare(key[i], g.key[i])
					same = same && vf.ConcreteBool(eq)
				}
			}
			if same {
				in = g
				break
			}
		}
		if in == nil {
			in = &group{key: key}
			groups = append(groups, in)
		}
		in.rows = append(in.rows, val(r))
	}
	if len(st.group) == 0 && len(groups) == 0 {
		groups = append(groups, &group{})
	}
	res := &result{}
	for _, it := range st.items {
		res.cols = append(res.cols, it.as)
	}
	for _, g := range groups {
		first := make([]any, len(t.cols))
		if len(g.rows) > 0 {
			first = g.rows[0]
		}
		x := &env{t: t, row: first, args: args, grp: g.rows}
		if st.having != nil && !x.holds(st.having) {
			continue
		}
		var o []driver.Value
		for _, it := range st.items {
			if it.star {
				vf.Unsupported("select * with group by")
			}
			v := x.eval(it.e)
			if c, ok := v.(string); ok {
				o = append(o, []byte(c))
			} else {
				o = append(o, v)
			}
		}
		res.rows = append(res.rows, o)
	}
	if len(st.order) > 0 && len(res.rows) > 1 {
		vf.Unsupported("order of groups")
	}
	off, n := limits(st, args)
	if off > 0 {
		vf.Unsupported("offset of groups")
	}
	if n >= 0 && n < len(res.rows) {
		res.rows = res.rows[:n]
	}
	return res, nil
}

// clash finds a row other than self with the same unique key.
func (s *Store) clash(tx *txn, t *Table, v []any, self *row) (*row, int, error) {
	for ui, u := range t.unique {
		for _, r := range t.rows {
			if r == self {
				continue
			}
			match := func(w []any) bool {
				if w == nil {
					return false
				}
				for _, i := range u {
					if v[i] == nil || w[i] == nil {
						return false
					}
					if _, eq := compare(v[i], w[i]); !vf.ConcreteBool(eq) {
						return false
					}
				}
				return true
			}
			if r.owner != nil && r.owner != tx {
				if match(r.cur) || r.wrote && match(r.pend) {
					return nil, 0, waitErr{r.owner}
				}
				continue
			}
			if match(r.latest(tx)) {
				return r, ui, nil
			}
		}
	}
	return nil, 0, nil
}

func dupErr(t *Table, u int) error {
	var n []string
	for _, i := range t.unique[u] {
		n = append(n, t.cols[i].name)
	}
	return &mysql.MySQLError{Number: 1062, Message: "Duplicate entry for key '" + t.Name + "." + strings.Join(n, "_") + "'"}
}

func (s *Store) insert(tx *txn, t *Table, st *stmt, args []any) (*result, error) {
	res := &result{}
	mark := len(tx.undos)
	nrows := len(t.rows)
	auto := t.auto
	fail := func(err error) (*result, error) {
		tx.undoTo(mark)
		if _, wait := err.(waitErr); wait {
			t.auto = auto
			for _, r := range t.rows[nrows:] {
				r.owner = nil
			}
			t.rows = t.rows[:nrows]
		}
		return nil, err
	}
	for _, vals := range st.rows {
		if len(vals) != len(st.cols) {
			return fail(&mysql.MySQLError{Number: 1136, Message: "Column count doesn't match value count"})
		}
		v := make([]any, len(t.cols))
		set := make([]bool, len(t.cols))
		for k, c := range st.cols {
			i := t.idx[c]
			if _, def := vals[k].(*eDefault); def {
				continue
			}
			x := (&env{args: args}).eval(vals[k])
			y, err := t.cols[i].coerce(x)
			if err != nil {
				return fail(err)
			}
			v[i], set[i] = y, true
		}
		for i := range t.cols {
			c := &t.cols[i]
			if c.auto {
				n, _ := v[i].(int64)
				if !set[i] || v[i] == nil || n == 0 {
					t.auto++
					v[i] = t.auto
					if res.lastID == 0 {
						res.lastID = t.auto
					}
				} else if n > t.auto {
					t.auto = n
				}
				continue
			}
			if !set[i] {
				switch {
				case c.def != nil:
					y, err := c.coerce(c.def)
					if err != nil {
						return fail(err)
					}
					v[i] = y
				case c.notNull:
					return fail(&mysql.MySQLError{Number: 1364, Message: "Field '" + c.name + "' doesn't have a default value"})
				}
			}
		}
		old, u, err := s.clash(tx, t, v, nil)
		if err != nil {
			return fail(err)
		}
		if old != nil {
			switch {
			case st.dup != nil:
				w := append([]any(nil), old.latest(tx)...)
				changed := false
				for _, a := range st.dup {
					i := t.idx[a.col]
					y, err := t.cols[i].coerce((&env{t: t, row: w, args: args, ins: v}).eval(a.e))
					if err != nil {
						return fail(err)
					}
					changed = changed || differs(w[i], y)
					w[i] = y
				}
				if changed {
					if c, u, err := s.clash(tx, t, w, old); err != nil {
						return fail(err)
					} else if c != nil {
						return fail(dupErr(t, u))
					}
					tx.write(old, w)
					res.affected += 2
				}
				continue
			case st.ignore:
				continue
			}
			return fail(dupErr(t, u))
		}
		r := &row{}
		t.rows = append(t.rows, r)
		tx.write(r, v)
		res.affected++
	}
	return res, nil
}

func differs(a, b any) bool {
	if a == nil || b == nil {
		return !(a == nil && b == nil)
	}
	_, eq := compare(a, b)
	return !vf.ConcreteBool(eq)
}

func (s *Store) change(tx *txn, t *Table, st *stmt, args []any) (*result, error) {
	rows, err := s.current(tx, t, st, args)
	if err != nil {
		return nil, err
	}
	s.sortRows(t, st, args, rows, func(r *row) []any { return r.latest(tx) })
	off, n := limits(st, args)
	rows = cut(rows, off, n)
	res := &result{}
	mark := len(tx.undos)
	for _, r := range rows {
		if st.kind == "delete" {
			tx.write(r, nil)
			res.affected++
			continue
		}
		v := append([]any(nil), r.latest(tx)...)
		changed := false
		for _, a := range st.sets {
			i := t.idx[a.col]
			y, err := t.cols[i].coerce((&env{t: t, row: v, args: args}).eval(a.e))
			if err != nil {
				tx.undoTo(mark)
				return nil, err
			}
			changed = differs(v[i], y) || changed
			v[i] = y
		}
		tx.lock(r)
		if !changed {
			continue
		}
		if c, u, err := s.clash(tx, t, v, r); err != nil {
			tx.undoTo(mark)
			return nil, err
		} else if c != nil {
			tx.undoTo(mark)
			return nil, dupErr(t, u)
		}
		tx.write(r, v)
		res.affected++
	}
	return res, nil
}
