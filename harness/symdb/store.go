// Package symdb is a small transactional SQL store, enough of MySQL/InnoDB for the statements gorm issues against single
// tables: it runs below database/sql, gorm and gorm's MySQL dialect, which are all executed as they are. Column values may be
// symbolic. Transactions are repeatable-read with row locks held to the end; each statement is atomic.
package symdb

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/go-sql-driver/mysql"
	"gorm.io/gorm"
	"gorm.io/gorm/schema"

	"verifharness/vf"
)

// ErrInjected is the error of an injected fault.
var ErrInjected = errors.New("injected database failure")

type column struct {
	name    string
	kind    byte // i(nt) f(loat) s(tring) b(ytes) t(ime)
	isBool  bool
	goInt   bool // the model's field is an int
	prec    int  // digits of fractional seconds
	size    int  // runes, 0 any
	auto    bool
	notNull bool
	def     any
}

type row struct {
	cur   []any // committed, nil if it does not exist
	pend  []any // written by owner, nil if deleted by it
	wrote bool
	owner *txn
}

// Table is one table.
type Table struct {
	Name   string
	cols   []column
	idx    map[string]int
	unique [][]int
	rows   []*row
	auto   int64
}

type undo struct {
	r     *row
	pend  []any
	wrote bool
}

type txn struct {
	begun    bool // by the client, not for one statement
	rc       bool // read committed
	snap     map[*row][]any
	snapRows map[*Table][]*row
	undos    []undo
	locked   []*row
	saves    []string
	saveAt   []int
	done     bool
	dead     bool
	waits    *txn
	doneCh   chan struct{}
	inst     string
}

// Op is one statement (or begin, commit, rollback) as the store executed it.
type Op struct {
	Inst string
	Kind string // begin commit rollback select insert update delete savepoint ...
	SQL  string
	Args []any
	Err  error
	InTx bool
}

// Store is the database.
type Store struct {
	mu     sync.Mutex
	tables map[string]*Table
	parsed map[string]*stmt
	// Before is asked before each operation; an error makes it fail without effect.
	Before func(op *Op) error
	After  func(inst, kind string) // called when a statement or a commit is done
	Sched  *Sched
	Ops    []*Op
	// Backwards lets queries without an order, and rows that are equal in it, come in reverse order of insertion.
	Backwards bool
	open      int
}

// New makes an empty store.
func New() *Store {
	return &Store{tables: map[string]*Table{}, parsed: map[string]*stmt{}}
}

func tagSize(typ string) int {
	i := strings.IndexByte(typ, '(')
	j := strings.IndexByte(typ, ')')
	if i < 0 || j < i {
		return 0
	}
	n, _ := strconv.Atoi(typ[i+1 : j])
	return n
}

// CreateTable makes a table for the model, from its gorm schema.
func (s *Store) CreateTable(db *gorm.DB, model any) *Table {
	st := &gorm.Statement{DB: db}
	if err := st.Parse(model); err != nil {
		vf.Unsupported("schema: " + err.Error())
	}
	sc := st.Schema
	t := &Table{Name: sc.Table, idx: map[string]int{}}
	for _, f := range sc.Fields {
		if f.DBName == "" {
			continue
		}
		typ := strings.ToLower(db.Dialector.DataTypeOf(f))
		c := column{name: f.DBName, auto: f.AutoIncrement, notNull: f.NotNull || f.PrimaryKey}
		switch {
		case strings.HasPrefix(typ, "datetime"), strings.HasPrefix(typ, "timestamp"):
			c.kind = 't'
			c.prec = tagSize(typ)
		case strings.HasPrefix(typ, "varchar"), strings.HasPrefix(typ, "char"):
			c.kind = 's'
			c.size = tagSize(typ)
		case strings.HasPrefix(typ, "longtext"), strings.HasPrefix(typ, "mediumtext"), strings.HasPrefix(typ, "json"):
			c.kind = 's'
		case strings.HasPrefix(typ, "text"):
			c.kind = 's'
			c.size = 65535
		case strings.Contains(typ, "blob"), strings.Contains(typ, "binary"):
			c.kind = 'b'
		case strings.HasPrefix(typ, "float"), strings.HasPrefix(typ, "double"), strings.HasPrefix(typ, "decimal"):
			c.kind = 'f'
		case strings.Contains(typ, "int"), strings.HasPrefix(typ, "bool"):
			c.kind = 'i'
			c.isBool = f.GORMDataType == schema.Bool
			c.goInt = f.FieldType.Kind() == reflect.Int
		default:
			vf.Unsupported("column type " + typ)
		}
		if f.HasDefaultValue && f.DefaultValue != "" && !f.AutoIncrement {
			d := strings.Trim(f.DefaultValue, "'")
			c.def = d
			if c.kind == 't' {
				if v, err := parseTime(d); err == nil {
					c.def = v
				}
			}
			if c.kind == 'i' {
				n, _ := strconv.ParseInt(d, 10, 64)
				c.def = n
			}
		}
		t.idx[c.name] = len(t.cols)
		t.cols = append(t.cols, c)
	}
	var pk []int
	for _, f := range sc.PrimaryFields {
		pk = append(pk, t.idx[f.DBName])
	}
	if len(pk) > 0 {
		t.unique = append(t.unique, pk)
	}
	for _, f := range sc.Fields {
		if f.DBName != "" && f.Unique {
			t.unique = append(t.unique, []int{t.idx[f.DBName]})
		}
	}
	names := []string{}
	ixs := sc.ParseIndexes()
	for n, ix := range ixs {
		if ix.Class == "UNIQUE" {
			names = append(names, n)
		}
	}
	sortStrings(names)
	for _, n := range names {
		var u []int
		for _, o := range ixs[n].Fields {
			u = append(u, t.idx[o.DBName])
		}
		t.unique = append(t.unique, u)
	}
	s.tables[t.Name] = t
	return t
}

func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func parseTime(s string) (time.Time, error) {
	for _, l := range []string{"2006-01-02 15:04:05-07:00", "2006-01-02 15:04:05", "2006-01-02 15:04:05.999999", "2006-01-02", time.RFC3339} {
		if t, err := time.Parse(l, s); err == nil {
			return t.UTC(), nil
		}
	}
	return time.Time{}, fmt.Errorf("not a time: %s", s)
}

// StartAt makes the next generated id of the table n.
func (t *Table) StartAt(n int64) { t.auto = n - 1 }

// Rows gives the committed rows as maps, in order of insertion.
func (t *Table) Rows() []map[string]any {
	var r []map[string]any
	for _, x := range t.rows {
		if x.cur == nil {
			continue
		}
		m := map[string]any{}
		for i, c := range t.cols {
			m[c.name] = x.cur[i]
		}
		r = append(r, m)
	}
	return r
}

// Len is the number of committed rows.
func (t *Table) Len() int {
	n := 0
	for _, x := range t.rows {
		if x.cur != nil {
			n++
		}
	}
	return n
}

// Put stores a committed row directly; missing columns take their default or zero value.
func (t *Table) Put(vals map[string]any) {
	v := make([]any, len(t.cols))
	for i, c := range t.cols {
		x, ok := vals[c.name]
		if !ok {
			switch {
			case c.auto:
				t.auto++
				x = t.auto
			case c.def != nil:
				x = c.def
			case c.kind == 'i':
				x = int64(0)
			case c.kind == 's':
				x = ""
			}
		} else if c.auto {
			if n, ok := x.(int64); ok && n > t.auto {
				t.auto = n
			}
		}
		y, err := c.coerce(x)
		if err != nil {
			panic(err)
		}
		v[i] = y
	}
	t.rows = append(t.rows, &row{cur: v})
}

func (c *column) coerce(v any) (any, error) {
	if v == nil {
		if c.notNull && !c.auto {
			return nil, &mysql.MySQLError{Number: 1048, Message: "Column '" + c.name + "' cannot be null"}
		}
		return nil, nil
	}
	v = norm(v)
	switch c.kind {
	case 'i':
		switch x := v.(type) {
		case int64:
			return x, nil
		case string:
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return nil, &mysql.MySQLError{Number: 1366, Message: "Incorrect integer value: '" + x + "' for column '" + c.name + "'"}
			}
			return n, nil
		case float64:
			return int64(x), nil
		}
	case 'f':
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case float64:
			return x, nil
		}
	case 's':
		switch x := v.(type) {
		case string:
			if c.size > 0 && len(x) > c.size && (c.size >= 65535 || utf8.RuneCountInString(x) > c.size) {
				return nil, &mysql.MySQLError{Number: 1406, Message: "Data too long for column '" + c.name + "'"}
			}
			if !utf8.ValidString(x) {
				return nil, &mysql.MySQLError{Number: 1366, Message: "Incorrect string value for column '" + c.name + "'"}
			}
			return x, nil
		case int64:
			return strconv.FormatInt(x, 10), nil
		}
	case 'b':
		if x, ok := v.(string); ok {
			return x, nil
		}
	case 't':
		switch x := v.(type) {
		case time.Time:
			if x.IsZero() {
				// the driver writes it as a date that the strict mode refuses
				return nil, &mysql.MySQLError{Number: 1292, Message: "Incorrect datetime value: '0000-00-00' for column '" + c.name + "'"}
			}
			return roundTime(x, c.prec), nil
		case string:
			t, err := parseTime(x)
			if err != nil {
				return nil, &mysql.MySQLError{Number: 1292, Message: "Incorrect datetime value: '" + x + "' for column '" + c.name + "'"}
			}
			return roundTime(t, c.prec), nil
		}
	}
	vf.Unsupported(fmt.Sprintf("value of type %T for column %s", v, c.name))
	return nil, nil
}

// roundTime rounds to the precision of a column.
func roundTime(t time.Time, prec int) time.Time {
	unit := 1000000000
	for i := 0; i < prec; i++ {
		unit /= 10
	}
	ns := t.Nanosecond()
	if rest := ns % unit; rest != 0 {
		t = t.Add(-time.Duration(rest))
		if 2*rest >= unit {
			t = t.Add(time.Duration(unit))
		}
	}
	return t.Round(0).UTC()
}

// norm brings a parameter into the form in which values are stored.
func norm(v any) any {
	switch x := v.(type) {
	case bool:
		return int64(vf.IteInt(x, 1, 0))
	case []byte:
		return string(x)
	case int:
		return int64(x)
	case int32:
		return int64(x)
	case uint:
		return int64(x)
	case uint64:
		return int64(x)
	case time.Time:
		return x.Round(0).UTC()
	}
	return v
}

// out brings a stored value into the form the driver returns.
func (c *column) out(v any) driver.Value {
	switch x := v.(type) {
	case string:
		return []byte(x)
	}
	return v
}

// ---- visibility

func (s *Store) begin(inst string, rc bool) *txn {
	return &txn{begun: true, rc: rc, doneCh: make(chan struct{}), inst: inst}
}

// read gives the values of a row as a plain select sees them.
func (r *row) read(tx *txn) []any {
	if tx != nil && r.owner == tx && r.wrote {
		return r.pend
	}
	if tx != nil && tx.snap != nil {
		return tx.snap[r]
	}
	return r.cur
}

// latest gives the newest values of a row as its owner, or anybody if it is not locked, sees them.
func (r *row) latest(tx *txn) []any {
	if r.owner == tx && r.wrote {
		return r.pend
	}
	return r.cur
}

func (tx *txn) lock(r *row) {
	if r.owner == nil {
		r.owner = tx
		tx.locked = append(tx.locked, r)
	}
}

func (tx *txn) write(r *row, v []any) {
	tx.lock(r)
	tx.undos = append(tx.undos, undo{r, r.pend, r.wrote})
	r.pend, r.wrote = v, true
}

func (tx *txn) undoTo(n int) {
	for len(tx.undos) > n {
		u := tx.undos[len(tx.undos)-1]
		tx.undos = tx.undos[:len(tx.undos)-1]
		u.r.pend, u.r.wrote = u.pend, u.wrote
	}
}

func (s *Store) end(tx *txn, commit bool) {
	if tx.done {
		return
	}
	if !commit {
		tx.undoTo(0)
	}
	for _, r := range tx.locked {
		if r.wrote {
			r.cur = r.pend
		}
		r.pend, r.wrote, r.owner = nil, false, nil
	}
	for _, t := range s.tables {
		gone := false
		for _, r := range t.rows {
			gone = gone || r.cur == nil && r.owner == nil
		}
		if !gone {
			continue
		}
		var keep []*row
		for _, r := range t.rows {
			if r.cur != nil || r.owner != nil {
				keep = append(keep, r)
			}
		}
		t.rows = keep
	}
	tx.done = true
	close(tx.doneCh)
}

func (s *Store) snapshot(tx *txn) {
	if tx.snap != nil || tx.rc {
		return
	}
	tx.snap = map[*row][]any{}
	tx.snapRows = map[*Table][]*row{}
	for _, t := range s.tables {
		for _, r := range t.rows {
			if r.cur != nil {
				tx.snap[r] = r.cur
				tx.snapRows[t] = append(tx.snapRows[t], r)
			}
		}
	}
}

// readable lists the rows a plain select of the transaction looks at.
func (s *Store) readable(tx *txn, t *Table) []*row {
	if tx.snap == nil {
		return t.rows
	}
	rs := tx.snapRows[t]
	for _, r := range t.rows {
		if r.owner == tx && r.wrote {
			if _, old := tx.snap[r]; !old {
				rs = append(rs[:len(rs):len(rs)], r)
			}
		}
	}
	return rs
}

// Set changes one column of the committed rows that have the key.
func (t *Table) Set(key string, k any, col string, v any) {
	for _, r := range t.rows {
		if r.cur != nil && r.cur[t.idx[key]] == k {
			w := append([]any(nil), r.cur...)
			w[t.idx[col]] = v
			r.cur = w
		}
	}
}
