// Package bus checks the SQL event bus against the symbolic store.
package bus

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/go-logr/logr"
	"gorm.io/gorm"

	"verifharness/symdb"
	"verifharness/vf"
)

const (
	tEvent = "ddd_domain_event"
	tServ  = "ddd_eventbus_service"
	tSE    = "ddd_domain_service_event"
	tTx    = "ddd_event_transaction"
)

type world struct {
	st     *symdb.Store
	db     *gorm.DB
	events *symdb.Table
	servs  *symdb.Table
	ses    *symdb.Table
	txs    *symdb.Table
}

func newWorld() *world {
	w := &world{st: symdb.New()}
	w.db = w.st.Open("main", nil)
	w.events = w.st.CreateTable(w.db, &eb.EventPO{})
	w.servs = w.st.CreateTable(w.db, &eb.ServicePO{})
	w.ses = w.st.CreateTable(w.db, &eb.ServiceEventPO{})
	w.txs = w.st.CreateTable(w.db, &eb.Transaction{})
	// ids of different tables never agree by accident
	w.ses.StartAt(1001)
	w.txs.StartAt(501)
	return w
}

func (w *world) bus(service string, db *gorm.DB, f func(o *eb.Options)) *eb.EventBus {
	return eb.NewEventBus(service, db, func(o *eb.Options) {
		o.Logger = logr.Discard()
		o.CleanCron = "0 0 0 1 1 *" // once a year, unless a harness wants it
		if f != nil {
			f(o)
		}
	})
}

func (w *world) service(names ...string) {
	for _, n := range names {
		w.servs.Put(map[string]any{"name": n})
	}
}

type payload struct {
	N int
	S string
}

func (p *payload) GetType() ddd.EventType { return "t" }
func (p *payload) GetSender() string      { return p.S }

// event makes a domain event as the engine does, with a fixed id and time.
func event(n int, sender string, at time.Time, typ ddd.SendType) *ddd.DomainEvent {
	e := ddd.NewDomainEvent(&payload{N: n, S: sender}, ddd.WithSendType(typ))
	e.ID = fmt.Sprintf("e%d", n)
	e.CreatedAt = at
	return e
}

// storedEvent puts an event into the table directly.
func (w *world) storedEvent(id int64, e *ddd.DomainEvent) {
	b, err := json.Marshal(e)
	if err != nil {
		vf.Fail("json: " + err.Error())
	}
	w.events.Put(map[string]any{"id": id, "event_id": e.ID, "sender": e.Sender, "event": string(b), "event_created_at": e.CreatedAt, "created_at": e.CreatedAt})
}

// injection makes the operation number at fail; at is symbolic.
type injection struct {
	at, n  int
	failed string
}

func (w *world) inject(name string, max int) *injection {
	in := &injection{at: vf.Int(name, 0, max)}
	w.st.Before = func(o *symdb.Op) error {
		if o.Kind == "rollback" {
			return nil
		}
		in.n++
		if in.failed == "" && in.at == in.n {
			in.failed = o.Kind
			return symdb.ErrInjected
		}
		return nil
	}
	return in
}

func (w *world) trace() string {
	var s []string
	for _, o := range w.st.Ops {
		k := o.Kind
		if o.Kind != "begin" && o.Kind != "commit" && o.Kind != "rollback" {
			k = strings.SplitN(o.SQL, " WHERE", 2)[0]
			if len(k) > 40 {
				k = k[:40]
			}
		}
		if o.Err != nil {
			k += "!"
		}
		s = append(s, k)
	}
	return strings.Join(s, "; ")
}

func asTime(v any) time.Time {
	t, ok := v.(time.Time)
	if !ok {
		vf.Fail("not a time")
	}
	return t
}

func toInt(v any) int64 {
	n, ok := v.(int64)
	if !ok {
		vf.Fail("not a number")
	}
	return n
}

var background = context.Background()

// setEventTime changes the creation time in the column (the copy in the event's text stays).
func (w *world) setEventTime(id int64, at time.Time) {
	w.events.Set("id", id, "event_created_at", at)
}
