package symdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"time"

	"github.com/go-sql-driver/mysql"
	gmysql "gorm.io/driver/mysql"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"verifharness/vf"
)

// Open gives a gorm handle of the store, for one process (instance).
func (s *Store) Open(inst string, conf *gorm.Config) *gorm.DB {
	if conf == nil {
		conf = &gorm.Config{}
	}
	conf.Logger = logger.Discard
	db, err := gorm.Open(gmysql.New(gmysql.Config{Conn: sql.OpenDB(&connector{s, inst}), SkipInitializeWithVersion: true}), conf)
	if err != nil {
		vf.Unsupported("gorm.Open: " + err.Error())
	}
	return db
}

type connector struct {
	s    *Store
	inst string
}

func (c *connector) Connect(context.Context) (driver.Conn, error) {
	return &conn{s: c.s, inst: c.inst}, nil
}
func (c *connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("not supported") }

type conn struct {
	s    *Store
	inst string
	tx   *txn
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	vf.Unsupported("prepared statements")
	return nil, nil
}
func (c *conn) Close() error {
	if c.tx != nil {
		c.s.mu.Lock()
		c.s.end(c.tx, false)
		c.s.mu.Unlock()
		c.tx = nil
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

// CheckNamedValue lets every value pass that the store understands.
func (c *conn) CheckNamedValue(v *driver.NamedValue) error {
	switch v.Value.(type) {
	case nil, int64, float64, bool, string, []byte, time.Time:
		return nil
	}
	x, err := driver.DefaultParameterConverter.ConvertValue(v.Value)
	v.Value = x
	return err
}

func (c *conn) op(kind, q string, args []any) (*Op, error) {
	o := &Op{Inst: c.inst, Kind: kind, SQL: q, Args: args, InTx: c.tx != nil}
	if c.s.Sched != nil {
		c.s.Sched.yield(kind, c.tx, nil)
	}
	if c.s.Before != nil {
		o.Err = c.s.Before(o)
	}
	c.s.mu.Lock()
	c.s.Ops = append(c.s.Ops, o)
	c.s.mu.Unlock()
	return o, o.Err
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if _, err := c.op("begin", "", nil); err != nil {
		return nil, err
	}
	c.tx = c.s.begin(c.inst, sql.IsolationLevel(o.Isolation) == sql.LevelReadCommitted)
	return c, nil
}

func (c *conn) Commit() error {
	tx := c.tx
	_, err := c.op("commit", "", nil)
	c.tx = nil
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if tx != nil {
		c.s.end(tx, err == nil)
	}
	if c.s.After != nil {
		c.s.mu.Unlock()
		c.s.After(c.inst, "commit")
		c.s.mu.Lock()
	}
	return err
}

func (c *conn) Rollback() error {
	tx := c.tx
	_, err := c.op("rollback", "", nil)
	c.tx = nil
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if tx != nil {
		c.s.end(tx, false)
	}
	return err
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.do(q, args)
	if err != nil {
		return nil, err
	}
	return res{r}, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.do(q, args)
	if err != nil {
		return nil, err
	}
	return &rows{r: r}, nil
}

func (c *conn) do(q string, nargs []driver.NamedValue) (*result, error) {
	s := c.s
	s.mu.Lock()
	st := s.parsed[q]
	if st == nil {
		st = parseOrEnd(q)
		s.parsed[q] = st
	}
	s.mu.Unlock()
	args := make([]any, len(nargs))
	for i, a := range nargs {
		args[i] = norm(a.Value)
	}
	o, err := c.op(st.kind, q, args)
	if err != nil {
		return nil, err
	}
	for {
		s.mu.Lock()
		tx := c.tx
		if tx == nil || tx.dead {
			tx = &txn{doneCh: make(chan struct{}), inst: c.inst}
		}
		r, err := s.run(tx, st, args)
		if !tx.begun {
			s.end(tx, err == nil)
		}
		w, wait := err.(waitErr)
		if !wait {
			s.mu.Unlock()
			o.Err = err
			if s.After != nil {
				s.After(c.inst, st.kind)
			}
			return r, err
		}
		// a cycle of waiting transactions: this one is the victim
		for b := w.tx; b != nil; b = b.waits {
			if b == tx {
				s.end(tx, false)
				tx.dead = true
				s.mu.Unlock()
				o.Err = &mysql.MySQLError{Number: 1213, Message: "Deadlock found when trying to get lock; try restarting transaction"}
				return nil, o.Err
			}
		}
		tx.waits = w.tx
		s.mu.Unlock()
		timeout := false
		if s.Sched != nil {
			s.Sched.yield("wait", tx, w.tx)
		} else {
			select {
			case <-w.tx.doneCh:
			case <-time.After(50 * time.Second):
				timeout = true
			}
		}
		s.mu.Lock()
		tx.waits = nil
		s.mu.Unlock()
		if timeout {
			o.Err = &mysql.MySQLError{Number: 1205, Message: "Lock wait timeout exceeded; try restarting transaction"}
			return nil, o.Err
		}
	}
}

func parseOrEnd(q string) (st *stmt) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(parseError); ok {
				vf.Unsupported(e.msg)
			}
			panic(r)
		}
	}()
	return parse(q)
}

type res struct{ r *result }

func (r res) LastInsertId() (int64, error) { return r.r.lastID, nil }
func (r res) RowsAffected() (int64, error) { return r.r.affected, nil }

type rows struct {
	r *result
	i int
}

func (r *rows) Columns() []string { return r.r.cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	copy(dest, r.r.rows[r.i])
	for i, g := range r.r.goInt {
		if n, ok := dest[i].(int64); ok && g {
			dest[i] = int(n)
		}
	}
	r.i++
	return nil
}
