// Package integ checks the parts of the repository working together.
package integ

import (
	"context"
	"errors"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"

	"verifharness/symdb"
	"verifharness/vf"
)

type noExec struct{ ended bool }

func (e *noExec) Begin(ctx context.Context) (context.Context, error) { return ctx, nil }
func (e *noExec) Commit(ctx context.Context) error                   { e.ended = true; return nil }
func (e *noExec) RollBack(ctx context.Context) error                 { e.ended = true; return nil }
func (e *noExec) Exec(ctx context.Context, a *ddd.Action) error      { return nil }
func (e *noExec) Entity2Model(x, p ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return nil, ddd.ErrEntityNotRegister
}
func (e *noExec) Model2Entity(m ddd.IModel, x ddd.IEntity) error { return ddd.ErrEntityNotRegister }

type lockedCmd struct {
	keys []string
	f    func(ctx context.Context) error
}

func (c *lockedCmd) Init(ctx context.Context) ([]string, error) { return c.keys, nil }
func (c *lockedCmd) Main(ctx context.Context, r *ddd.Repository) error {
	return c.f(ctx)
}

func init() {
	// a command under the database lock, whose caller may go away at any time
	vf.Register("C02.dblock", func() {
		st := symdb.New()
		g := st.Open("main", nil)
		tab := st.CreateTable(g, &db.ResourceLock{})
		lk := db.NewDBLock(g, 10*time.Second, func(o *db.Options) { o.Logger = logr.Discard(); o.Retry = vf.Bool("retry") })
		ex := &noExec{}
		eng := ddd.NewEngine(lk, ex, ddd.WithLogger(logr.Discard()))
		keys := [][]string{{"a"}, {"b", "a"}, {"c", "a", "b"}}[vf.Choice("keys", 3)]
		held := -1
		if vf.Bool("contended") {
			held = vf.Choice("held", len(keys))
			now := time.Now()
			tab.Put(map[string]any{"resource": "ddd_engine_" + keys[held], "locker_id": "other", "updated_at": now, "created_at": now})
		}
		caller, cancel := context.WithCancel(context.Background())
		defer cancel()
		ran := false
		end := vf.Choice("end", 4)
		gone := vf.Bool("caller_goes_away")
		boom := errors.New("business")
		var res *ddd.Result
		var pan any
		func() {
			defer func() { pan = recover() }()
			res = eng.Run(caller, &lockedCmd{keys: append([]string(nil), keys...), f: func(ctx context.Context) error {
				ran = true
				vf.Assert(tab.Len() == len(keys), "the body runs without all of its locks")
				if gone {
					cancel()
				}
				switch end {
				case 1:
					return boom
				case 2:
					return ddd.ErrBreak
				case 3:
					panic(boom)
				}
				return nil
			}})
		}()
		if held >= 0 {
			vf.Assert(!ran && res.Error != nil && errors.Is(res.Error, ddd.ErrEntityLocked), fmt.Sprintf("contended, ran %v: %v", ran, res.Error))
			vf.Assert(tab.Len() == 1 && tab.Rows()[0]["locker_id"] == "other", "locks are left behind, or the holder is disturbed")
			vf.Reach("refused")
			return
		}
		vf.Assert(ran, "the body does not run")
		vf.Assert((pan != nil) == (end == 3), "the panic is lost")
		if pan == nil {
			vf.Assert((res.Error != nil) == (end == 1), fmt.Sprintf("the result is %v", res.Error))
		}
		vf.Assert(tab.Len() == 0, fmt.Sprintf("%d locks are left behind (caller gone: %v)", tab.Len(), gone))
		vf.Assert(ex.ended, "the transaction is left open")
		vf.Reach("released")
	})
}
