package integ

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/bytedance/dddfirework/executor/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
	"gorm.io/gorm"

	"verifharness/symdb"
	"verifharness/vf"
)

// An order and its items, kept in two tables.
type order struct {
	ddd.BaseEntity
	Title string
	N     int
	On    bool
	Addr  addr
	Items []*item
}

type addr struct{ City, Zip string }

type item struct {
	ddd.BaseEntity
	Name string
	Qty  int
	Tags []string
}

type orderPO struct {
	ID      string `gorm:"primaryKey"`
	Title   string
	N       int
	On      bool
	Addr    addr `gorm:"embedded;embeddedPrefix:addr_"`
	Comment string
}

func (o *orderPO) GetID() string     { return o.ID }
func (o *orderPO) TableName() string { return "order" }

type itemPO struct {
	UID     string `gorm:"primaryKey;column:uid"`
	OrderID string
	Name    string
	Qty     int
	Tags    []string `gorm:"type:json;serializer:json"`
}

func (i *itemPO) GetID() string     { return i.UID }
func (i *itemPO) TableName() string { return "item" }

type itemConv struct{}

func (itemConv) Entity2Model(e, p ddd.IEntity, op ddd.OpType) (mysql.IModel, error) {
	x := e.(*item)
	m := &itemPO{UID: x.GetID(), Name: x.Name, Qty: x.Qty, Tags: x.Tags}
	if o, ok := p.(*order); ok {
		m.OrderID = o.GetID()
	}
	return m, nil
}

func (itemConv) Model2Entity(m mysql.IModel, e ddd.IEntity) error {
	p, x := m.(*itemPO), e.(*item)
	x.SetID(p.UID)
	x.Name, x.Qty, x.Tags = p.Name, p.Qty, p.Tags
	return nil
}

func register() {
	mysql.RegisterEntity2Model(&order{}, func(e, p ddd.IEntity, op ddd.OpType) (mysql.IModel, error) {
		x := e.(*order)
		return &orderPO{ID: x.GetID(), Title: x.Title, N: x.N, On: x.On, Addr: x.Addr}, nil
	}, func(m mysql.IModel, e ddd.IEntity) error {
		p, x := m.(*orderPO), e.(*order)
		x.SetID(p.ID)
		x.Title, x.N, x.On, x.Addr = p.Title, p.N, p.On, p.Addr
		return nil
	})
	mysql.RegisterConverter(&item{}, itemConv{})
}

type seqID struct{ n int }

func (s *seqID) NewID() (string, error) { s.n++; return fmt.Sprint("new", s.n), nil }

// what should be stored
type wantOrder struct {
	title string
	n     int
	on    bool
	addr  addr
}
type wantItem struct {
	order, name string
	qty         int
	tags        string
}
type wanted struct {
	orders map[string]wantOrder
	items  map[string]wantItem
}

func (w *wanted) copy() *wanted {
	c := &wanted{map[string]wantOrder{}, map[string]wantItem{}}
	for k, v := range w.orders {
		c.orders[k] = v
	}
	for k, v := range w.items {
		c.items[k] = v
	}
	return c
}

type place struct {
	st            *symdb.Store
	g             *gorm.DB
	orders, items *symdb.Table
	did           []string
}

func newPlace() *place {
	p := &place{st: symdb.New()}
	p.g = p.st.Open("main", nil)
	p.orders = p.st.CreateTable(p.g, &orderPO{})
	p.items = p.st.CreateTable(p.g, &itemPO{})
	register()
	return p
}

func (p *place) String() string { return strings.Join(p.did, "; ") }

// stored compares the tables with what should be in them.
func (p *place) stored(w *wanted, when string) {
	rows := p.orders.Rows()
	vf.Assert(len(rows) == len(w.orders), fmt.Sprintf("%s: %d orders are stored instead of %d: %s", when, len(rows), len(w.orders), p))
	for _, r := range rows {
		o, ok := w.orders[r["id"].(string)]
		vf.Assert(ok, when+": an order is stored that should not be: "+p.String())
		on := int64(0)
		if o.on {
			on = 1
		}
		vf.Assert(r["title"] == o.title && r["on"] == on && r["addr_city"] == o.addr.City && r["addr_zip"] == o.addr.Zip, when+": an order is stored with other contents: "+p.String())
		vf.Assert(r["n"].(int64) == int64(o.n), when+": an order is stored with another number: "+p.String())
		vf.Assert(r["comment"] == "" || r["comment"] == "of somebody else", when+": a foreign column is changed: "+p.String())
	}
	rows = p.items.Rows()
	vf.Assert(len(rows) == len(w.items), fmt.Sprintf("%s: %d items are stored instead of %d: %s", when, len(rows), len(w.items), p))
	for _, r := range rows {
		i, ok := w.items[r["uid"].(string)]
		vf.Assert(ok, when+": an item is stored that should not be: "+p.String())
		vf.Assert(r["order_id"] == i.order && r["name"] == i.name && tagsOf(r) == i.tags, when+": an item is stored with other contents: "+p.String())
		vf.Assert(r["qty"].(int64) == int64(i.qty), when+": an item is stored with another quantity: "+p.String())
	}
}

func tagsOf(r map[string]any) string {
	if s, ok := r["tags"].(string); ok {
		return s
	}
	return "null"
}

// loads reads every order through the engine and compares.
func (p *place) loads(eng *ddd.Engine, w *wanted) {
	for _, id := range []string{"A", "B", "C"} {
		o := &order{}
		o.SetID(id)
		res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			return repo.Get(ctx, o, &o.Items)
		})
		x, ok := w.orders[id]
		if !ok {
			vf.Assert(errors.Is(res.Error, ddd.ErrEntityNotFound), "an order that is not stored is not reported as missing: "+p.String())
			continue
		}
		vf.Assert(res.Error == nil, "a stored order cannot be loaded: "+p.String())
		vf.Assert(o.GetID() == id && o.Title == x.title && o.On == x.on && o.Addr == x.addr && o.N == x.n, "an order is loaded with other contents: "+p.String())
		n := 0
		for k, i := range w.items {
			if i.order != id {
				continue
			}
			n++
			found := 0
			for _, y := range o.Items {
				if y.GetID() == k {
					found++
					vf.Assert(y.Name == i.name && y.Qty == i.qty, "an item is loaded with other contents: "+p.String())
				}
			}
			vf.Assert(found == 1, "an item is not loaded once: "+p.String())
		}
		vf.Assert(len(o.Items) == n, "another number of items is loaded: "+p.String())
	}
}

var errBusiness = errors.New("business")

func (p *place) seed(eng *ddd.Engine) *wanted {
	w := &wanted{map[string]wantOrder{}, map[string]wantItem{}}
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		for _, id := range []string{"A", "B"} {
			o := &order{Title: "t" + id, N: 1, On: id == "A", Addr: addr{"c", "z"}}
			o.SetID(id)
			for i := 0; i < 2; i++ {
				x := &item{Name: fmt.Sprint("i", i), Qty: i, Tags: []string{"x"}}
				x.SetID(fmt.Sprint(id, i))
				o.Items = append(o.Items, x)
				w.items[x.GetID()] = wantItem{id, x.Name, x.Qty, `["x"]`}
			}
			repo.Add(o)
			w.orders[id] = wantOrder{o.Title, o.N, o.On, o.Addr}
		}
		return nil
	})
	if res.Error != nil {
		vf.Fail("creating orders fails: " + res.Error.Error())
	}
	return w
}

func init() {
	// commands one after the other, each loading, changing and saving; what is stored follows their outcomes
	vf.Register("C29.commands", func() {
		p := newPlace()
		rec := vf.Bool("recursive")
		opts := []ddd.Option{ddd.WithLogger(logr.Discard()), ddd.WithIDGenerator(&seqID{})}
		if rec {
			opts = append(opts, ddd.WithRecursiveDelete)
		}
		eng := ddd.NewEngine(nil, mysql.NewExecutor(p.g), opts...)
		w := p.seed(eng)
		p.stored(w, "after creation")
		cmds, steps := 2, 1
		nn := 0
		for c := 0; c < cmds; c++ {
			next := w.copy()
			// another column of the row belongs to somebody else
			p.orders.Set("id", "A", "comment", "of somebody else")
			calm := c > 0 && !vf.Thorough() // the second one meets no trouble
			end := 0
			if !calm {
				end = vf.Choice("end", 4)
			}
			failAt, n, failed := 0, 0, false
			if end == 0 && !calm {
				failAt = vf.Int("failAt", 0, 9)
			}
			p.st.Before = func(o *symdb.Op) error {
				if o.Kind == "rollback" {
					return nil
				}
				if n++; n == failAt {
					failed = true
					return symdb.ErrInjected
				}
				return nil
			}
			var created []*item
			var pan any
			var res *ddd.Result
			func() {
				defer func() { pan = recover() }()
				res = eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
					a, b := &order{}, &order{}
					a.SetID("A")
					b.SetID("B")
					_, hasA := next.orders["A"]
					_, hasB := next.orders["B"]
					if hasA {
						if err := repo.Get(ctx, a, &a.Items); err != nil {
							return err
						}
					}
					if hasB {
						if err := repo.Get(ctx, b, &b.Items); err != nil {
							return err
						}
					}
					ofA := func(i int) *item {
						if !hasA || len(a.Items) <= i {
							vf.End()
						}
						return a.Items[i]
					}
					for s := 0; s < steps; s++ {
						nn++
						do := vf.Choice("do", 9)
						p.did = append(p.did, fmt.Sprint("step ", do))
						switch do {
						case 0: // the order itself
							if !hasA {
								vf.End()
							}
							a.N = vf.Int("n", 0, 100)
							a.Title, a.On, a.Addr.Zip = "", false, ""
							a.Dirty()
							x := next.orders["A"]
							x.n, x.title, x.on, x.addr.Zip = a.N, "", false, ""
							next.orders["A"] = x
						case 1: // an item
							i := ofA(0)
							i.Qty = vf.Int("qty", 0, 100)
							i.Tags = append(i.Tags, "y")
							i.Dirty()
							x := next.items[i.GetID()]
							x.qty = i.Qty
							if x.tags == "null" {
								x.tags = `["y"]`
							} else {
								x.tags = strings.TrimSuffix(x.tags, "]") + `,"y"]`
							}
							next.items[i.GetID()] = x
						case 2: // a new item
							if !hasA {
								vf.End()
							}
							i := &item{Name: fmt.Sprint("fresh", nn), Qty: vf.Int("qty", 0, 100)}
							a.Items = append(a.Items, i)
							created = append(created, i)
						case 3: // an item goes
							i := ofA(0)
							a.Items = append([]*item{}, a.Items[1:]...)
							delete(next.items, i.GetID())
						case 4: // an item goes to the other order
							i := ofA(0)
							if !hasB {
								vf.End()
							}
							a.Items = append([]*item{}, a.Items[1:]...)
							b.Items = append(b.Items, i)
							x := next.items[i.GetID()]
							x.order = "B"
							next.items[i.GetID()] = x
						case 5: // an order goes, and its items with it if so configured
							if !hasB || s > 0 {
								vf.End()
							}
							hasB = false
							repo.Remove(b)
							delete(next.orders, "B")
							if rec {
								for k, i := range next.items {
									if i.order == "B" {
										delete(next.items, k)
									}
								}
							}
						case 6: // a new order
							if _, ok := next.orders["C"]; ok {
								vf.End()
							}
							o := &order{N: vf.Int("n", 0, 100), On: true}
							o.SetID("C")
							i := &item{Name: "c0", Qty: 3}
							i.SetID("C0")
							o.Items = append(o.Items, i)
							repo.Add(o)
							next.orders["C"] = wantOrder{"", o.N, true, addr{}}
							next.items["C0"] = wantItem{"C", "c0", 3, "null"}
						case 7: // changed and changed back
							if !hasA {
								vf.End()
							}
							a.Dirty()
						case 8: // nothing
						}
						if !calm && vf.Bool("save") {
							p.did = append(p.did, "save")
							if err := repo.Save(ctx); err != nil {
								return err
							}
						}
					}
					switch end {
					case 1:
						return errBusiness
					case 2:
						return ddd.ErrBreak
					case 3:
						panic(errBusiness)
					}
					return nil
				})
			}()
			p.st.Before = nil
			p.did = append(p.did, fmt.Sprint("end ", end, " failed ", failed))
			if end == 3 {
				vf.Assert(pan == any(errBusiness), "a panic is lost: "+p.String())
				p.stored(w, "after a panic")
				vf.Reach("panic")
				continue
			}
			vf.Assert(pan == nil, "the engine panics: "+p.String())
			switch {
			case failed:
				vf.Assert(res.Error != nil, "a failing statement is not reported: "+p.String())
				p.stored(w, "after a failing statement")
				vf.Reach("failed")
			case end == 0:
				if res.Error != nil {
					vf.Fail("the command fails: " + res.Error.Error() + ": " + p.String())
				}
				for _, i := range created {
					vf.Assert(i.GetID() != "", "a new item has no id")
					next.items[i.GetID()] = wantItem{"A", i.Name, i.Qty, "null"}
				}
				w = next
				p.stored(w, "after a command")
				vf.Reach("saved")
			default:
				vf.Assert((res.Error != nil) == (end == 1) && res.Break == (end == 2), "the outcome is misreported: "+p.String())
				p.stored(w, "after a command that gave up")
				vf.Reach("gave up")
			}
		}
		p.loads(eng, w)
	})

	// commands at once on one order, under the database lock: what was reported as done is done
	vf.Register("C29.locked", func() {
		p := newPlace()
		locks := p.st.CreateTable(p.g, &dblock.ResourceLock{})
		newEngine := func(inst string) *ddd.Engine {
			g := p.st.Open(inst, nil)
			lk := dblock.NewDBLock(g, time.Minute, func(o *dblock.Options) { o.Logger = logr.Discard(); o.Retry = false })
			return ddd.NewEngine(lk, mysql.NewExecutor(g), ddd.WithLogger(logr.Discard()), ddd.WithIDGenerator(&seqID{}))
		}
		p.seed(newEngine("first"))
		n, pre := 2, 2
		if vf.Thorough() {
			pre = 3
		}
		var engs []*ddd.Engine
		for i := 0; i < n; i++ {
			engs = append(engs, newEngine(fmt.Sprint("c", i)))
		}
		p.st.Sched = symdb.NewSched(pre)
		done, added := 0, 0
		for i := 0; i < n; i++ {
			eng := engs[i]
			go func() {
				res := eng.Run(context.Background(), &orderCmd{key: "A", f: func(ctx context.Context, repo *ddd.Repository) error {
					a := &order{}
					a.SetID("A")
					if err := repo.Get(ctx, a, &a.Items); err != nil {
						return err
					}
					a.N++
					a.Dirty()
					x := &item{Name: "more"}
					x.SetID(fmt.Sprint("more", len(a.Items)))
					a.Items = append(a.Items, x)
					return nil
				}})
				if res.Error == nil {
					done++
					added++
				} else if !errors.Is(res.Error, ddd.ErrEntityLocked) {
					vf.Fail("a command that meets another fails with: " + res.Error.Error())
				}
			}()
		}
		vf.Assert(p.st.Sched.Run(), "the commands wait for each other")
		p.st.Sched = nil
		vf.Assert(done >= 1, "no command gets through")
		for _, r := range p.orders.Rows() {
			if r["id"] == "A" {
				vf.Assert(r["n"].(int64) == int64(1+done), fmt.Sprintf("%d commands report success and the order is counted up by %d", done, r["n"].(int64)-1))
			}
		}
		vf.Assert(p.items.Len() == 4+added, "an item of a command that reports success is missing")
		vf.Assert(locks.Len() == 0, "a lock is left behind")
		vf.Reach(fmt.Sprint("done ", done))
	})

	// events on the SQL bus, with a statement failing anywhere: the transactional event is delivered exactly if the
	// order is stored, the others if the command succeeded
	vf.Register("C29.events", func() {
		p := newPlace()
		p.st.CreateTable(p.g, &eb.EventPO{})
		p.st.CreateTable(p.g, &eb.ServicePO{})
		p.st.CreateTable(p.g, &eb.ServiceEventPO{})
		txs := p.st.CreateTable(p.g, &eb.Transaction{})
		bus := eb.NewEventBus("svc", p.g, func(o *eb.Options) {
			o.Logger = logr.Discard()
			o.CleanCron = "0 0 0 1 1 *"
			o.RunInterval = time.Second
			o.TXCheckTimeout = 10 * time.Second
		})
		eng := ddd.NewEngine(nil, mysql.NewExecutor(p.g), ddd.WithLogger(logr.Discard()), ddd.WithIDGenerator(&seqID{}), ddd.WithEventBus(bus))
		got := map[string]int{}
		ddd.RegisterEventHandler("made", func(ctx context.Context, e *made) error {
			got[e.What]++
			return nil
		})
		isStored := func() bool {
			for _, r := range p.orders.Rows() {
				if r["id"] == "C" {
					return true
				}
			}
			return false
		}
		ddd.RegisterEventTXChecker("made", func(e *made) ddd.TXStatus {
			if isStored() {
				return ddd.TXCommit
			}
			return ddd.TXRollBack
		})
		n, failed := 0, ""
		failAt := vf.Int("failAt", 0, 24)
		p.st.Before = func(o *symdb.Op) error {
			if o.Kind == "rollback" {
				return nil
			}
			if n++; n == failAt {
				failed = o.Kind
				return symdb.ErrInjected
			}
			return nil
		}
		end := vf.Choice("end", 4)
		plain, tx := vf.Bool("plain"), vf.Bool("transactional")
		var res *ddd.Result
		func() {
			defer func() { recover() }()
			res = eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
				o := &order{N: 3, Items: []*item{{Name: "x"}}}
				o.SetID("C")
				if plain {
					o.AddEvent(&made{What: "plain"})
				}
				if tx {
					o.Items[0].AddEvent(&made{What: "tx"}, ddd.WithSendType(ddd.SendTypeTransaction))
				}
				repo.Add(o)
				switch end {
				case 1:
					return errBusiness
				case 2:
					return ddd.ErrBreak
				case 3:
					panic(errBusiness)
				}
				return nil
			})
		}()
		p.st.Before = nil
		ok := res != nil && res.Error == nil && !res.Break
		what := fmt.Sprintf("end %d, failing %q (statement %d), plain %v, transactional %v", end, failed, failAt, plain, tx)
		vf.Assert(ok == isStored(), "the outcome is not that of the storage: "+what)
		vf.Assert(!ok || p.items.Len() == 1, "half an order is stored: "+what)
		vf.Assert(ok || p.items.Len() == 0, "a part of a failed command is stored: "+what)
		bus.Start(context.Background())
		time.Sleep(30 * time.Second)
		vf.Settle()
		vf.Assert(txs.Len() == 0, "a transactional event stays undecided: "+what)
		if tx {
			want := 0
			if ok {
				want = 1
			}
			vf.Assert(got["tx"] == want, fmt.Sprintf("the transactional event is delivered %d times, the order is stored %v: %s", got["tx"], ok, what))
			vf.Reach("transactional")
		}
		if ok && plain {
			vf.Assert(got["plain"] == 1, fmt.Sprintf("the event of a successful command is delivered %d times: %s", got["plain"], what))
			vf.Reach("plain")
		}
		if end != 0 {
			vf.Assert(got["plain"] == 0, "an event of a command that gave up is delivered: "+what)
		}
		var keys []string
		for k := range got {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		vf.Assert((plain || got["plain"] == 0) && (tx || got["tx"] == 0), "an event is delivered that was not raised: "+strings.Join(keys, ","))
	})
}

type made struct{ What string }

func (m *made) GetType() ddd.EventType { return "made" }
func (m *made) GetSender() string      { return "C" }

type orderCmd struct {
	key string
	f   func(ctx context.Context, repo *ddd.Repository) error
}

func (c *orderCmd) Init(ctx context.Context) ([]string, error) { return []string{c.key}, nil }
func (c *orderCmd) Main(ctx context.Context, r *ddd.Repository) error {
	return c.f(ctx, r)
}
