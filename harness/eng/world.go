// Package eng decides the properties of the command engine (root package of dddfirework): aggregates, saves,
// transactions, locks, events. The engine is the real code; storage, locks, bus and clock are recording stand-ins
// whose answers are symbolic.
package eng

import (
	"context"
	"errors"
	"fmt"
	"strconv"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// Op is one observed call on the environment.
type Op struct {
	Kind   string // lock unlock begin commit rollback exec query dispatch txbegin txcommit txrollback hook post body
	Key    string
	OK     bool
	InTx   bool
	Action *ddd.Action
	Events []*ddd.DomainEvent
	Res    *ddd.Result
}

// W is the recorded environment of one path.
type W struct {
	ops        []Op
	calls      int // fallible calls so far
	failAt     int // the call that fails (0: none), symbolic
	failAt2    int
	failPanics bool   // a failing hook or write panics instead
	cancel     func() // not nil: the caller's context is cancelled at the failing call
	cancelOnly bool   // and the call itself succeeds
	tx         int    // open transactions
	txSeq      int
	ids        int
	rows       map[string][]ddd.IModel // answers of queries, by model type and id/parent
	now        int
	silent     bool // hooks are not recorded
	bump       bool // before-hooks change the entity
	kinds      map[string]bool
	failed     []string // kinds of the calls that failed
	found      bool     // no failure says that something was not found
	errs       bool     // failures may have causes the framework knows
	tokens     int      // what the locker hands out: 0 one for each lock, 1 nil, 2 always the same
	plain      bool     // errors and panics of bodies are always the same
}

var cur *W

var (
	errInjected = errors.New("injected failure")
	errHeld     = errors.New("lock is held by another")
)

func newW() *W { cur = &W{kinds: map[string]bool{}}; return cur }

// infraErr is a failure of the environment that has a cause known to the framework.
type infraErr struct{ cause error }

func (e *infraErr) Error() string        { return "injected failure, of another" }
func (e *infraErr) Is(target error) bool { return target == errInjected }
func (e *infraErr) Unwrap() error        { return e.cause }

// heldErr is the answer of a locker that gives up for a known reason.
type heldErr struct{ cause error }

func (e *heldErr) Error() string        { return "lock is held by another, or so" }
func (e *heldErr) Is(target error) bool { return target == errHeld }
func (e *heldErr) Unwrap() error        { return e.cause }

// err is what a failing call returns.
func (w *W) err() error {
	if w.cancel != nil {
		return context.Canceled
	}
	if w.errs {
		switch vf.Choice("failure", 5) {
		case 1:
			if w.found { // a failure that says "not found" has a meaning of its own here
				vf.End()
			}
			return &infraErr{ddd.ErrEntityNotFound}
		case 2:
			return &infraErr{ddd.ErrEntityLocked}
		case 3:
			return &infraErr{context.Canceled}
		case 4:
			if w.found {
				vf.End()
			}
			return &infraErr{ddd.ErrEntityNotRegister}
		}
	}
	return errInjected
}

// caller is the context of the run, which may be cancelled at the call that would fail.
func (w *W) caller(ctx context.Context) context.Context {
	switch vf.Choice("cancelled", 3) {
	case 0:
		return ctx
	case 1:
		w.cancelOnly = true
	}
	c, cancel := context.WithCancel(ctx)
	w.cancel = cancel
	return c
}

func (w *W) add(o Op) { w.ops = append(w.ops, o) }

// fallible decides whether this call fails.
func (w *W) fallible(kind string) bool {
	w.calls++
	if w.failAt == w.calls || w.failAt2 == w.calls {
		if w.cancel != nil {
			w.cancel()
			if w.cancelOnly {
				return false
			}
		}
		w.failed = append(w.failed, kind)
		switch kind {
		case "hook", "exec", "query", "dispatch", "newid":
			if w.failPanics {
				w.add(Op{Kind: kind, InTx: true, Key: "panics", Action: &ddd.Action{}})
				panic(errInjected)
			}
		}
		return true
	}
	return false
}

func (w *W) count(kind string) int {
	n := 0
	for _, o := range w.ops {
		if o.Kind == kind {
			n++
		}
	}
	return n
}

func (w *W) index(kind string) int {
	for i, o := range w.ops {
		if o.Kind == kind {
			return i
		}
	}
	return -1
}

func (w *W) lastIndex(kind string) int {
	for i := len(w.ops) - 1; i >= 0; i-- {
		if w.ops[i].Kind == kind {
			return i
		}
	}
	return -1
}

// ---- entities

type Root struct {
	ddd.BaseEntity
	Name string
	Val  int
	Kids []*Kid
	Alt  []*Kid
	One  *Kid
	Map  map[string]*Kid
	IMap map[int]*Kid
	Any  []ddd.IEntity
	Sole ddd.IEntity
	Gh   []*Ghost
}

type Kid struct {
	ddd.BaseEntity
	Name string
	Val  int
	Subs []*Sub
}

type Sub struct {
	ddd.BaseEntity
	Name string
	Val  int
}

// Ghost is a type the executor does not know.
type Ghost struct {
	ddd.BaseEntity
	Name string
}

// Own lists its children itself.
type Own struct {
	ddd.BaseEntity
	Name string
	Val  int
	Hide []*Kid // exported, but not among GetChildren
	list []ddd.IEntity
}

func (o *Own) GetChildren() map[string][]ddd.IEntity {
	return map[string][]ddd.IEntity{"list": o.list}
}

func nameOf(e ddd.IEntity) string {
	switch x := e.(type) {
	case *Root:
		return x.Name
	case *Kid:
		return x.Name
	case *Sub:
		return x.Name
	case *Ghost:
		return x.Name
	case *Own:
		return x.Name
	case *Shy:
		return "shy"
	case nil:
		return "-"
	}
	return fmt.Sprintf("?%T", e)
}

func hook(e ddd.IEntity, which string) error {
	w := cur
	if w.silent {
		return nil
	}
	bad := w.kinds["hook"] && w.fallible("hook")
	if w.bump && which[0] == 'b' {
		x := &ent{e: e}
		x.set(x.val() + 5000)
	}
	w.add(Op{Kind: "hook", Key: which + " " + nameOf(e), OK: !bad, InTx: w.tx > 0})
	if bad {
		return w.err()
	}
	return nil
}

func (e *Root) BeforeCreate(ctx context.Context) error { return hook(e, "bc") }
func (e *Root) AfterCreate(ctx context.Context) error  { return hook(e, "ac") }
func (e *Root) BeforeUpdate(ctx context.Context) error { return hook(e, "bu") }
func (e *Root) AfterUpdate(ctx context.Context) error  { return hook(e, "au") }
func (e *Root) BeforeDelete(ctx context.Context) error { return hook(e, "bd") }
func (e *Root) AfterDelete(ctx context.Context) error  { return hook(e, "ad") }
func (e *Kid) BeforeCreate(ctx context.Context) error  { return hook(e, "bc") }
func (e *Kid) AfterCreate(ctx context.Context) error   { return hook(e, "ac") }
func (e *Kid) BeforeUpdate(ctx context.Context) error  { return hook(e, "bu") }
func (e *Kid) AfterUpdate(ctx context.Context) error   { return hook(e, "au") }
func (e *Kid) BeforeDelete(ctx context.Context) error  { return hook(e, "bd") }
func (e *Kid) AfterDelete(ctx context.Context) error   { return hook(e, "ad") }
func (e *Sub) BeforeCreate(ctx context.Context) error  { return hook(e, "bc") }
func (e *Sub) AfterCreate(ctx context.Context) error   { return hook(e, "ac") }
func (e *Sub) BeforeUpdate(ctx context.Context) error  { return hook(e, "bu") }
func (e *Sub) AfterUpdate(ctx context.Context) error   { return hook(e, "au") }
func (e *Sub) BeforeDelete(ctx context.Context) error  { return hook(e, "bd") }
func (e *Sub) AfterDelete(ctx context.Context) error   { return hook(e, "ad") }

// A ghost is not stored, but it is created, changed and removed all the same.
func (e *Ghost) BeforeCreate(ctx context.Context) error { return hook(e, "bc") }
func (e *Ghost) AfterCreate(ctx context.Context) error  { return hook(e, "ac") }
func (e *Ghost) BeforeUpdate(ctx context.Context) error { return hook(e, "bu") }
func (e *Ghost) AfterUpdate(ctx context.Context) error  { return hook(e, "au") }
func (e *Ghost) BeforeDelete(ctx context.Context) error { return hook(e, "bd") }
func (e *Ghost) AfterDelete(ctx context.Context) error  { return hook(e, "ad") }

// ---- models: one type per entity type

type PO struct {
	ID       string
	Parent   string // id of the parent when the model was built
	ParentOf string // name of the parent
	Of       string // name of the entity
	Ent      ddd.IEntity
	Op       ddd.OpType
	Val      int
}

func (p *PO) GetID() string { return p.ID }
func (p *PO) po() *PO       { return p }

type RootPO struct{ PO }
type KidPO struct{ PO }
type SubPO struct{ PO }
type OwnPO struct{ PO }
type EventPO struct {
	ID  string
	Evt *ddd.DomainEvent
}

func (p *EventPO) GetID() string { return p.ID }

type poer interface{ po() *PO }

func poOf(m ddd.IModel) *PO {
	if p, ok := m.(poer); ok {
		return p.po()
	}
	return nil
}

// ---- executor

type Ex struct{ w *W }

type txKey struct{}

func (x *Ex) Begin(ctx context.Context) (context.Context, error) {
	bad := x.w.fallible("begin")
	x.w.add(Op{Kind: "begin", OK: !bad, InTx: x.w.tx > 0})
	if bad {
		return ctx, cur.err()
	}
	x.w.tx++
	x.w.txSeq++
	return context.WithValue(ctx, txKey{}, x.w.txSeq), nil
}

func (x *Ex) in(ctx context.Context) bool {
	v, _ := ctx.Value(txKey{}).(int)
	return x.w.tx > 0 && v == x.w.txSeq
}

func (x *Ex) Commit(ctx context.Context) error {
	bad := x.w.fallible("commit")
	x.w.add(Op{Kind: "commit", OK: !bad, InTx: x.in(ctx)})
	x.w.tx--
	if bad {
		return cur.err()
	}
	return nil
}

func (x *Ex) RollBack(ctx context.Context) error {
	bad := x.w.fallible("rollback")
	x.w.add(Op{Kind: "rollback", OK: !bad, InTx: x.in(ctx)})
	x.w.tx--
	if bad {
		return cur.err()
	}
	return nil
}

func (x *Ex) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	if x.w.kinds["convert"] && x.w.fallible("convert") {
		return nil, cur.err()
	}
	p := PO{ID: entity.GetID(), Of: nameOf(entity), Ent: entity, Op: op, ParentOf: "-"}
	switch par := parent.(type) {
	case *Root, *Kid, *Sub, *Own, *Shy:
		p.Parent = par.GetID()
		p.ParentOf = nameOf(par)
	}
	switch e := entity.(type) {
	case *Root:
		p.Val = e.Val
		return &RootPO{p}, nil
	case *Kid:
		p.Val = e.Val
		return &KidPO{p}, nil
	case *Sub:
		p.Val = e.Val
		return &SubPO{p}, nil
	case *Own:
		p.Val = e.Val
		return &OwnPO{p}, nil
	case *Shy:
		return &OwnPO{p}, nil
	}
	if x.w.kinds["wrapghost"] {
		return nil, fmt.Errorf("%T: %w", entity, ddd.ErrEntityNotRegister)
	}
	return nil, ddd.ErrEntityNotRegister
}

func (x *Ex) Model2Entity(m ddd.IModel, entity ddd.IEntity) error {
	if x.w.kinds["convert"] && x.w.fallible("convert") {
		return cur.err()
	}
	p := poOf(m)
	entity.SetID(p.ID)
	switch e := entity.(type) {
	case *Root:
		e.Name, e.Val = p.Of, p.Val
	case *Kid:
		e.Name, e.Val = p.Of, p.Val
	case *Sub:
		e.Name, e.Val = p.Of, p.Val
	case *Own:
		e.Name, e.Val = p.Of, p.Val
	}
	return nil
}

func (x *Ex) Exec(ctx context.Context, a *ddd.Action) error {
	kind := "exec"
	if a.Op == ddd.OpQuery {
		kind = "query"
	}
	bad := x.w.fallible(kind)
	// the models as they are at this moment
	c := &ddd.Action{Op: a.Op, Query: a.Query, QueryResult: a.QueryResult}
	c.Models = append(c.Models, a.Models...)
	c.PrevModels = append(c.PrevModels, a.PrevModels...)
	x.w.add(Op{Kind: kind, OK: !bad, InTx: x.in(ctx), Action: c})
	if bad {
		return cur.err()
	}
	if a.Op == ddd.OpQuery {
		x.answer(a)
	}
	return nil
}

func (x *Ex) answer(a *ddd.Action) {
	q := poOf(a.Query)
	match := func(p *PO) bool {
		return (q.ID == "" || q.ID == p.ID) && (q.Parent == "" || q.Parent == p.Parent)
	}
	switch r := a.QueryResult.(type) {
	case *[]*RootPO:
		for _, m := range x.w.rows["root"] {
			if match(poOf(m)) {
				*r = append(*r, m.(*RootPO))
			}
		}
	case *[]*KidPO:
		for _, m := range x.w.rows["kid"] {
			if match(poOf(m)) {
				*r = append(*r, m.(*KidPO))
			}
		}
	case *[]*SubPO:
		for _, m := range x.w.rows["sub"] {
			if match(poOf(m)) {
				*r = append(*r, m.(*SubPO))
			}
		}
	}
}

// ---- locker

type Lk struct{ w *W }

type lockTok struct{ key string }

func (l *Lk) Lock(ctx context.Context, key string) (interface{}, error) {
	bad := l.w.fallible("lock")
	l.w.add(Op{Kind: "lock", Key: key, OK: !bad, InTx: l.w.tx > 0})
	if bad {
		if l.w.errs {
			switch vf.Choice("refusal", 4) {
			case 1:
				return nil, &heldErr{context.Canceled}
			case 2:
				return nil, &heldErr{context.DeadlineExceeded}
			case 3:
				return nil, &heldErr{ddd.ErrEntityLocked}
			}
		}
		return nil, errHeld
	}
	switch l.w.tokens {
	case 1:
		return nil, nil
	case 2:
		return "held", nil
	}
	return &lockTok{key}, nil
}

func (l *Lk) UnLock(ctx context.Context, tok interface{}) error {
	bad := l.w.fallible("unlock")
	t, _ := tok.(*lockTok)
	k := "?"
	if t != nil {
		k = t.key
	}
	l.w.add(Op{Kind: "unlock", Key: k, OK: !bad, InTx: l.w.tx > 0})
	if bad {
		return cur.err()
	}
	return nil
}

// ---- buses

type Bus struct {
	w  *W
	cb ddd.DomainEventHandler
}

func (b *Bus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	bad := b.w.fallible("dispatch")
	b.w.add(Op{Kind: "dispatch", OK: !bad, InTx: b.w.tx > 0, Events: append([]*ddd.DomainEvent(nil), evts...)})
	if bad {
		return cur.err()
	}
	return nil
}

func (b *Bus) RegisterEventHandler(cb ddd.DomainEventHandler) { b.cb = cb }

type TxBus struct {
	Bus
	check ddd.DomainEventTXChecker
}

type busKey struct{}

func (b *TxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) { b.check = cb }

func (b *TxBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	bad := b.w.fallible("txbegin")
	b.w.add(Op{Kind: "txbegin", OK: !bad, InTx: b.w.tx > 0, Events: append([]*ddd.DomainEvent(nil), evts...)})
	if bad {
		return ctx, cur.err()
	}
	return context.WithValue(ctx, busKey{}, b), nil
}

func (b *TxBus) end(ctx context.Context, kind string) error {
	bad := b.w.fallible(kind)
	v, _ := ctx.Value(busKey{}).(*TxBus)
	key := "own"
	if v != b {
		key = "foreign"
	}
	b.w.add(Op{Kind: kind, Key: key, OK: !bad, InTx: b.w.tx > 0})
	if bad {
		return cur.err()
	}
	return nil
}

func (b *TxBus) Commit(ctx context.Context) error   { return b.end(ctx, "txcommit") }
func (b *TxBus) Rollback(ctx context.Context) error { return b.end(ctx, "txrollback") }

// ---- ids

type IDs struct{ w *W }

func (g *IDs) NewID() (string, error) {
	bad := g.w.fallible("newid")
	g.w.add(Op{Kind: "newid", OK: !bad})
	if bad {
		return "", cur.err()
	}
	g.w.ids++
	return "gen" + strconv.Itoa(g.w.ids), nil
}

// ---- events

type Evt struct {
	Typ  string
	N    int
	From string
}

func (e *Evt) GetType() ddd.EventType { return ddd.EventType(e.Typ) }
func (e *Evt) GetSender() string {
	if e.From == "" {
		return "s"
	}
	return e.From
}

func (w *W) engine(bus ddd.IEventBus, opts ...ddd.Option) *ddd.Engine {
	opts = append([]ddd.Option{ddd.WithEventBus(bus), ddd.WithIDGenerator(&IDs{w})}, opts...)
	return ddd.NewEngine(&Lk{w}, &Ex{w}, opts...)
}

// guarded runs f and tells whether it panicked.
func guarded(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// reg keeps package vf used here.
var _ = vf.Symbolic
