package eng

import (
	"context"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// pos is a place an entity can be in: the repository itself (parent nil) or a child field of an entity.
type pos struct {
	parent *ent
	field  string
}

type ent struct {
	e      ddd.IEntity
	name   string
	loaded bool
	old    pos
	now    []pos
	dirty  bool
	ghost  bool
}

// shape is an aggregate before and after an edit.
type shape struct {
	ents []*ent
	ctr  map[string]int
}

func (s *shape) root(name string, loaded bool) *ent {
	r := &Root{Name: name}
	return s.put(&ent{e: r, name: name, loaded: loaded}, pos{})
}

func (s *shape) own(name string, loaded bool) *ent {
	return s.put(&ent{e: &Own{Name: name}, name: name, loaded: loaded}, pos{})
}

func (s *shape) put(x *ent, p pos) *ent {
	if x.loaded {
		x.e.SetID("id-" + x.name)
		x.old = p
	}
	s.ents = append(s.ents, x)
	return x
}

func (s *shape) kid(name string, loadedAt *pos) *ent {
	x := &ent{e: &Kid{Name: name}, name: name, loaded: loadedAt != nil}
	if loadedAt == nil {
		return s.put(x, pos{})
	}
	return s.put(x, *loadedAt)
}

func (s *shape) sub(name string, loadedAt *pos) *ent {
	x := &ent{e: &Sub{Name: name}, name: name, loaded: loadedAt != nil}
	if loadedAt == nil {
		return s.put(x, pos{})
	}
	return s.put(x, *loadedAt)
}

func (s *shape) gho(name string, loadedAt *pos) *ent {
	x := &ent{e: &Ghost{Name: name}, name: name, loaded: loadedAt != nil, ghost: true}
	if loadedAt == nil {
		return s.put(x, pos{})
	}
	return s.put(x, *loadedAt)
}

func at(p *ent, field string) *pos { return &pos{p, field} }

// build fills the child fields from the positions (old or new).
func (s *shape) build(old bool) {
	for _, x := range s.ents {
		switch r := x.e.(type) {
		case *Root:
			// some fields are edited in place, others replaced
			clear(r.Map)
			r.Kids, r.Any = r.Kids[:0], r.Any[:0]
			r.Alt, r.One, r.Gh, r.IMap, r.Sole = nil, nil, nil, nil, nil
		case *Kid:
			r.Subs = nil
		case *Own:
			r.list = r.list[:0]
		}
	}
	put := func(x *ent, p pos) {
		if p.parent == nil {
			return
		}
		switch r := p.parent.e.(type) {
		case *Root:
			switch p.field {
			case "Kids":
				r.Kids = append(r.Kids, x.e.(*Kid))
			case "Alt":
				r.Alt = append(r.Alt, x.e.(*Kid))
			case "One":
				r.One = x.e.(*Kid)
			case "Map":
				if r.Map == nil {
					r.Map = map[string]*Kid{}
				}
				r.Map[x.name] = x.e.(*Kid)
			case "IMap":
				if r.IMap == nil {
					r.IMap = map[int]*Kid{}
				}
				r.IMap[len(r.IMap)] = x.e.(*Kid)
			case "Any":
				r.Any = append(r.Any, x.e)
			case "Sole":
				r.Sole = x.e
			case "Gh":
				r.Gh = append(r.Gh, x.e.(*Ghost))
			}
		case *Kid:
			r.Subs = append(r.Subs, x.e.(*Sub))
		case *Own:
			r.list = append(r.list, x.e)
		}
	}
	for _, x := range s.ents {
		if old {
			if x.loaded {
				put(x, x.old)
			}
		} else {
			for _, p := range x.now {
				put(x, p)
			}
		}
	}
}

func (x *ent) isRoot() bool {
	switch x.e.(type) {
	case *Root, *Own:
		return true
	}
	return false
}

// live tells whether an entity hangs in the repository at the end.
func (s *shape) live(x *ent) bool {
	for _, p := range x.now {
		if p.parent == nil || s.live(p.parent) {
			return true
		}
	}
	return false
}

// under tells whether x is below an entity of the set, by the final positions.
func (s *shape) under(x *ent, set map[*ent]bool) bool {
	for _, p := range x.now {
		if p.parent != nil && (set[p.parent] || s.under(p.parent, set)) {
			return true
		}
	}
	return false
}

type want struct {
	ins, upd, del map[string]bool
	parent        map[string]string
	fail          bool
	unclear       bool // the statement does not say
}

// expect derives what a save has to write from the two states alone.
func (s *shape) expect(recursive bool) want {
	w := want{ins: map[string]bool{}, upd: map[string]bool{}, del: map[string]bool{}, parent: map[string]string{}}
	gone := map[*ent]bool{}
	for _, x := range s.ents {
		livePos, deadPos, keeps := 0, 0, false
		var p0 pos
		for _, p := range x.now {
			if p.parent == nil || s.live(p.parent) {
				livePos++
				p0 = p
			} else {
				deadPos++
			}
			if x.loaded && p == x.old {
				keeps = true
			}
		}
		if p0.parent != nil {
			w.parent[x.name] = p0.parent.name
		} else {
			w.parent[x.name] = "-"
		}
		if x.loaded && x.old.parent != nil && !x.old.parent.loaded {
			panic("bad shape")
		}
		switch {
		case livePos >= 2:
			w.fail = true
		case livePos == 1 && deadPos > 0 && !(x.loaded && keeps && p0 == x.old):
			if x.loaded && keeps {
				w.fail = true // still claimed by its old, removed, parent and by a new one
			} else {
				w.unclear = true
			}
		case livePos == 1 && x.loaded && p0 == x.old:
			if x.dirty {
				w.upd[x.name] = true
			}
			if deadPos > 0 {
				w.unclear = true
			}
		case livePos == 1 && x.loaded:
			w.upd[x.name] = true
		case livePos == 1:
			w.ins[x.name] = true
		case x.loaded && !keeps: // taken out
			w.del[x.name] = true
			gone[x] = true
		case x.loaded && keeps: // its parent went
		}
	}
	if recursive {
		for _, x := range s.ents {
			if s.live(x) || gone[x] {
				continue
			}
			if s.under(x, gone) {
				if x.loaded {
					w.del[x.name] = true
				} else {
					w.unclear = true // new, and put below something removed
				}
			}
		}
	}
	for _, x := range s.ents {
		if x.ghost {
			delete(w.ins, x.name)
			delete(w.upd, x.name)
			delete(w.del, x.name)
		}
	}
	return w
}

// got is what a save wrote.
type got struct {
	ins, upd, del map[string]int
	parent        map[string]string
	actions       []*ddd.Action
	err           error
}

func names(m map[string]int) string {
	var s []string
	for k, n := range m {
		if n == 1 {
			s = append(s, k)
		} else {
			s = append(s, fmt.Sprintf("%s(x%d)", k, n))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func want2(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func collect(w *W, from int) got {
	g := got{ins: map[string]int{}, upd: map[string]int{}, del: map[string]int{}, parent: map[string]string{}}
	for _, o := range w.ops[from:] {
		if o.Kind != "exec" {
			continue
		}
		g.actions = append(g.actions, o.Action)
		for _, m := range o.Action.Models {
			p := poOf(m)
			if p == nil {
				continue
			}
			switch o.Action.Op {
			case ddd.OpInsert:
				g.ins[p.Of]++
				g.parent[p.Of] = p.ParentOf
			case ddd.OpUpdate:
				g.upd[p.Of]++
				g.parent[p.Of] = p.ParentOf
			case ddd.OpDelete:
				g.del[p.Of]++
			}
		}
	}
	return g
}

// apply makes the edit inside a command.
func (s *shape) apply(ctx context.Context, repo *ddd.Repository) {
	s.applyTo(func(e ddd.IEntity) { repo.Add(e) }, func(e ddd.IEntity) { repo.Remove(e) })
}

func (s *shape) applyTo(add, remove func(e ddd.IEntity)) {
	s.build(false)
	for _, x := range s.ents {
		if !x.isRoot() {
			if x.dirty {
				x.e.Dirty()
			}
			continue
		}
		switch {
		case x.loaded && len(x.now) == 0:
			remove(x.e)
		case !x.loaded && len(x.now) > 0:
			add(x.e)
		}
		if x.dirty {
			x.e.Dirty()
		}
	}
}

func (s *shape) load(ctx context.Context, repo *ddd.Repository) error {
	// the getter fills the roots, which have only their ids before
	roots := s.loadedRoots()
	full := make([]func(), len(roots))
	for i, e := range roots {
		switch r := e.(type) {
		case *Root:
			c := *r
			*r = Root{}
			r.SetID(c.GetID())
			full[i] = func() { *r = c }
		default:
			full[i] = func() {}
		}
	}
	called := false
	err := repo.CustomGet(ctx, func(ctx context.Context, given ...ddd.IEntity) {
		vf.Assert(!called && len(given) == len(roots), "the getter is not called with the roots once")
		called = true
		for i, e := range given {
			vf.Assert(e == roots[i], "the getter is called with another root")
			full[i]()
		}
	}, roots...)
	vf.Assert(called, "the getter is not called")
	return err
}

func (s *shape) loadedRoots() []ddd.IEntity {
	s.build(true)
	var roots []ddd.IEntity
	for _, x := range s.ents {
		if x.isRoot() && x.loaded {
			roots = append(roots, x.e)
		}
	}
	return roots
}

// choose picks the final position of x among the candidates, 0 meaning none.
func (x *ent) choose(c ...pos) {
	if k := vf.Choice("pos_"+x.name, len(c)+1); k > 0 {
		x.now = append(x.now, c[k-1])
	}
}

func (x *ent) touch() {
	if x.loaded && vf.Bool("dirty_"+x.name) {
		x.dirty = true
	}
}

// mode tells what is looked at.
type mode struct {
	recursive bool
	wrapped   bool
	hooks     bool
	byCommand bool // run as an ICommand
	failing   bool // the executor may refuse
}

// run performs the edit as one command and gives back what was written.
func (s *shape) run(w *W, m mode) (got, *ddd.Result) {
	w.silent = !m.hooks
	if m.wrapped {
		w.kinds["wrapghost"] = true
	}
	var opts []ddd.Option
	if m.recursive {
		opts = append(opts, ddd.WithRecursiveDelete)
	}
	eng := w.engine(&Bus{w: w}, opts...)
	start := 0
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		if err := s.load(ctx, repo); err != nil {
			return err
		}
		start = len(w.ops)
		s.apply(ctx, repo)
		return nil
	})
	g := collect(w, start)
	g.err = res.Error
	return g, res
}

func (s *shape) describe() string {
	var b strings.Builder
	for _, x := range s.ents {
		fmt.Fprintf(&b, "%s:", x.name)
		if x.loaded {
			fmt.Fprintf(&b, " loaded")
			if x.old.parent != nil {
				fmt.Fprintf(&b, " under %s.%s", x.old.parent.name, x.old.field)
			}
		} else {
			fmt.Fprintf(&b, " new")
		}
		for _, p := range x.now {
			if p.parent == nil {
				fmt.Fprintf(&b, ", kept in repository")
			} else {
				fmt.Fprintf(&b, ", finally under %s.%s", p.parent.name, p.field)
			}
		}
		if len(x.now) == 0 {
			fmt.Fprintf(&b, ", finally removed")
		}
		if x.dirty {
			fmt.Fprintf(&b, ", dirty")
		}
		b.WriteString("; ")
	}
	return b.String()
}

// judgeSets compares the entities written with the expectation.
func judgeSets(s *shape, w want, g got) {
	if w.unclear {
		vf.End()
		return
	}
	desc := s.describe()
	if w.fail {
		vf.Assert(g.err != nil, "ambiguous ownership is accepted: "+desc)
		vf.Assert(len(g.actions) == 0, "a save that must fail writes: "+desc)
		vf.Reach("ambiguous")
		return
	}
	if g.err != nil {
		vf.Fail("the save fails with " + g.err.Error() + ": " + desc)
	}
	vf.Assert(names(g.ins) == want2(w.ins), "inserted "+names(g.ins)+" instead of "+want2(w.ins)+": "+desc)
	vf.Assert(names(g.upd) == want2(w.upd), "updated "+names(g.upd)+" instead of "+want2(w.upd)+": "+desc)
	vf.Assert(names(g.del) == want2(w.del), "deleted "+names(g.del)+" instead of "+want2(w.del)+": "+desc)
	for _, m := range []map[string]bool{w.ins, w.upd} {
		for n := range m {
			vf.Assert(g.parent[n] == w.parent[n], n+" is written with parent "+g.parent[n]+" instead of "+w.parent[n]+": "+desc)
		}
	}
	if len(w.ins) > 0 {
		vf.Reach("insert")
	}
	if len(w.upd) > 0 {
		vf.Reach("update")
	}
	if len(w.del) > 0 {
		vf.Reach("delete")
	}
}

// judgeOrder checks the order of the writes and that entities of a kind are written together.
func judgeOrder(g got) {
	last := ddd.OpType(0)
	seen := map[string]bool{}
	for _, a := range g.actions {
		vf.Assert(a.Op >= last, "writes are out of order: inserts first, then updates, then deletes")
		last = a.Op
		vf.Assert(len(a.Models) > 0, "an empty write")
		for _, m := range a.Models {
			vf.Assert(fmt.Sprintf("%T", m) == fmt.Sprintf("%T", a.Models[0]), "models of different kinds in one write")
		}
		k := fmt.Sprintf("%d %T", a.Op, a.Models[0])
		vf.Assert(!seen[k], "entities of one kind and operation are written apart")
		seen[k] = true
	}
}

func init() {
	keepDrop := func(x *ent) {
		if !vf.Bool("remove_" + x.name) {
			x.now = []pos{{}}
		}
	}
	addOrNot := func(x *ent) {
		if vf.Bool("add_" + x.name) {
			x.now = []pos{{}}
		}
	}
	// kids of two roots, freely moved, added and removed; roots kept or removed
	moves := func(nLoaded, nNew int) *shape {
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", true)
		keepDrop(r0)
		keepDrop(r1)
		r0.touch()
		cand := []pos{{r0, "Kids"}, {r1, "Kids"}, {r0, "Alt"}}
		for i := 0; i < nLoaded; i++ {
			k := s.kid(fmt.Sprint("k", i), at(r0, "Kids"))
			k.choose(cand...)
			k.touch()
		}
		for i := 0; i < nNew; i++ {
			k := s.kid(fmt.Sprint("n", i), nil)
			k.choose(cand...)
		}
		return s
	}
	// grandchildren too
	depth := func(big bool) *shape {
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", false)
		keepDrop(r0)
		addOrNot(r1)
		k0 := s.kid("k0", at(r0, "Kids"))
		k0.choose(pos{r0, "Kids"}, pos{r1, "Kids"}, pos{r0, "Alt"})
		k0.touch()
		k1 := s.kid("k1", at(r0, "Kids"))
		k1.choose(pos{r0, "Kids"}, pos{r1, "Kids"})
		n0 := s.kid("n0", nil)
		n0.choose(pos{r0, "Kids"}, pos{r1, "Kids"})
		s0 := s.sub("s0", at(k0, "Subs"))
		s0.choose(pos{k0, "Subs"}, pos{k1, "Subs"}, pos{n0, "Subs"})
		s0.touch()
		s1 := s.sub("s1", nil)
		s1.choose(pos{k0, "Subs"}, pos{n0, "Subs"})
		if big {
			k1.touch()
			s2 := s.sub("s2", at(k1, "Subs"))
			s2.choose(pos{k0, "Subs"}, pos{k1, "Subs"}, pos{n0, "Subs"})
			s2.touch()
		}
		return s
	}
	// every kind of child field, own child lists, unknown entity types
	fields := func(big bool) *shape {
		s := &shape{}
		r0 := s.root("r0", true)
		r0.now = []pos{{}}
		o := s.own("o", true)
		keepDrop(o)
		o.touch()
		all := []pos{{r0, "One"}, {r0, "Map"}, {o, "list"}}
		k0 := s.kid("k0", at(r0, "One"))
		k0.choose(all...)
		k0.touch()
		k1 := s.kid("k1", at(r0, "Map"))
		k1.choose(all...)
		k1.touch()
		k2 := s.kid("k2", at(o, "list"))
		k2.choose(all...)
		n := s.kid("n", nil)
		n.choose(pos{r0, "Kids"}, pos{r0, "Map"}, pos{o, "list"})
		if n := len(s.at(pos{r0, "One"})); n > 1 {
			vf.End() // a single field holds one
		}
		g0 := s.gho("g0", at(r0, "Gh"))
		g0.choose(pos{r0, "Gh"})
		g0.touch()
		if big {
			k2.touch()
			g1 := s.gho("g1", nil)
			g1.choose(pos{r0, "Gh"})
			s0 := s.sub("s0", at(k0, "Subs"))
			s0.choose(pos{k0, "Subs"}, pos{k1, "Subs"}, pos{n, "Subs"})
		}
		return s
	}
	// an entity in a field of any kind, moved to a field of any kind, with a child of its own
	kinds := func(big bool) *shape {
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", true)
		r0.now = []pos{{}}
		r1.now = []pos{{}}
		o := s.own("o", true)
		o.now = []pos{{}}
		fields := []string{"Kids", "One", "Map", "IMap", "Any", "Sole"}
		var all, other []pos
		for _, f := range fields {
			all = append(all, pos{r0, f})
			other = append(other, pos{r1, f})
		}
		all = append(all, pos{o, "list"})
		old := all[vf.Choice("from", len(all))]
		k := s.kid("k", &old)
		if big {
			k.choose(append(append([]pos{}, all...), other...)...)
		} else {
			k.choose(all...)
		}
		k.touch()
		s0 := s.sub("s0", at(k, "Subs"))
		s0.choose(pos{k, "Subs"})
		s0.touch()
		n := s.kid("n", nil)
		n.choose(other...)
		if len(n.now) == 1 && len(k.now) == 1 && n.now[0] == k.now[0] && (n.now[0].field == "One" || n.now[0].field == "Sole") {
			vf.End() // a single field holds one
		}
		s1 := s.sub("s1", nil)
		s1.choose(pos{n, "Subs"})
		return s
	}
	// one entity placed twice
	double := func(big bool) *shape {
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", true)
		keepDrop(r0)
		keepDrop(r1)
		cand := []pos{{r0, "Kids"}, {r1, "Kids"}, {r0, "Alt"}}
		k0 := s.kid("k0", at(r0, "Kids"))
		k1 := s.kid("k1", at(r0, "Kids"))
		n0 := s.kid("n0", nil)
		k0.choose(cand...)
		k0.touch()
		k1.choose(cand...)
		if big {
			k1.touch()
		}
		n0.choose(cand...)
		s0 := s.sub("s0", at(k0, "Subs"))
		s0.choose(pos{k0, "Subs"}, pos{n0, "Subs"})
		second := []*ent{k0, k1, n0}[vf.Choice("twice", 3)]
		p := cand[vf.Choice("twice_pos", len(cand))]
		for _, q := range second.now {
			if q == p {
				vf.End()
			}
		}
		if len(second.now) == 0 {
			vf.End()
		}
		second.now = append(second.now, p)
		return s
	}
	setsOnly := func(name string, mk func(big bool) *shape, m func() mode) {
		vf.Register(name, func() {
			w := newW()
			s := mk(vf.Thorough())
			md := m()
			g, res := s.run(w, md)
			exp := s.expect(md.recursive)
			judgeSets(s, exp, g)
			if !exp.fail && !exp.unclear {
				judgeOrder(g)
				vf.Assert(len(res.Actions) == len(g.actions), "the result lists other actions than were executed")
			}
		})
	}
	movesMk := func(big bool) *shape {
		if big {
			return moves(3, 2)
		}
		return moves(3, 1)
	}
	plain := func() mode { return mode{} }
	setsOnly("C03.fields", fields, func() mode { return mode{wrapped: vf.Bool("wrapped")} })
	setsOnly("C03.depth", depth, plain)
	setsOnly("C03.moves", func(big bool) *shape {
		if big {
			return moves(2, 2)
		}
		return moves(2, 1)
	}, plain)
	setsOnly("C04.moves", movesMk, plain)
	setsOnly("C04.depth", depth, plain)
	setsOnly("C04.double", double, plain)
	rec := func() mode { return mode{recursive: vf.Bool("recursive")} }
	setsOnly("C03.kinds", kinds, plain)
	setsOnly("C04.kinds", kinds, plain)
	setsOnly("C05.kinds", kinds, rec)
	setsOnly("C05.depth", depth, rec)
	setsOnly("C05.fields", fields, rec)
	setsOnly("C05.moves", func(big bool) *shape {
		if big {
			return moves(3, 1)
		}
		return moves(2, 1)
	}, rec)
}

func (s *shape) at(p pos) []*ent {
	var r []*ent
	for _, x := range s.ents {
		for _, q := range x.now {
			if q == p {
				r = append(r, x)
			}
		}
	}
	return r
}
