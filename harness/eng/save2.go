package eng

import (
	"context"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// advance makes the final state the state before the next edit.
func (s *shape) advance() {
	type st struct {
		live bool
		p    pos
	}
	next := map[*ent]st{}
	for _, x := range s.ents {
		for _, p := range x.now {
			if p.parent == nil || s.live(p.parent) {
				next[x] = st{true, p}
			}
		}
	}
	for _, x := range s.ents {
		x.loaded = next[x].live
		x.old = next[x].p
		x.now = nil
		x.dirty = false
	}
}

func (x *ent) val() int {
	switch e := x.e.(type) {
	case *Root:
		return e.Val
	case *Kid:
		return e.Val
	case *Sub:
		return e.Val
	case *Own:
		return e.Val
	}
	return 0
}

func (x *ent) set(v int) {
	switch e := x.e.(type) {
	case *Root:
		e.Val = v
	case *Kid:
		e.Val = v
	case *Sub:
		e.Val = v
	case *Own:
		e.Val = v
	}
}

// values gives every entity an arbitrary value and remembers it as stored.
func (s *shape) values(tag string) map[string]int {
	m := map[string]int{}
	for _, x := range s.ents {
		x.set(vf.Int("val_"+x.name+tag, -1000, 1000))
		m[x.name] = x.val()
	}
	return m
}

// judgeModels checks the contents of the models written: own id, id of the parent, old state of updates.
func judgeModels(s *shape, g got, prev, now map[string]int) {
	by := map[string]*ent{}
	for _, x := range s.ents {
		by[x.name] = x
	}
	for _, a := range g.actions {
		if a.Op == ddd.OpUpdate {
			vf.Assert(len(a.PrevModels) == len(a.Models), "an update does not carry one old state for each model")
		}
		for i, m := range a.Models {
			p := poOf(m)
			if p == nil {
				continue
			}
			x := by[p.Of]
			vf.Assert(p.ID != "" && p.ID == x.e.GetID(), "model of "+p.Of+" is written with id '"+p.ID+"'")
			vf.Assert(p.Op == a.Op, "model of "+p.Of+" was built for another operation")
			if a.Op == ddd.OpDelete {
				continue
			}
			if len(x.now) == 1 && x.now[0].parent != nil {
				vf.Assert(p.Parent == x.now[0].parent.e.GetID() && p.Parent != "", "model of "+p.Of+" is written with parent id '"+p.Parent+"'")
			}
			vf.Assert(p.Val == now[p.Of], "model of "+p.Of+" has another value than the entity")
			if a.Op == ddd.OpUpdate {
				q := poOf(a.PrevModels[i])
				vf.Assert(q != nil && q.Of == p.Of && q.ID == p.ID, "the old state of "+p.Of+" is that of another entity")
				vf.Assert(q.Val == prev[p.Of], "the old state of "+p.Of+" is not the state last loaded or saved")
				vf.Reach("prev")
			}
		}
	}
}

func init() {
	// C06: several saves in one command
	repeated := func(name string, mayRec bool, phases func() int, mk func() (*shape, func(s *shape, phase int))) {
		vf.Register(name, func() {
			w := newW()
			w.silent = true
			s, edit := mk()
			var opts []ddd.Option
			rec := mayRec && vf.Bool("recursive")
			if rec {
				opts = append(opts, ddd.WithRecursiveDelete)
			}
			eng := w.engine(&Bus{w: w}, opts...)
			stored := s.values("")
			n := phases()
			start := 0
			judge := func(phase int, exp want, now map[string]int) {
				g := collect(w, start)
				judgeSets(s, exp, g)
				judgeOrder(g)
				judgeModels(s, g, stored, now)
				for k := range exp.ins {
					stored[k] = now[k]
				}
				for k := range exp.upd {
					stored[k] = now[k]
				}
				// what is saved without being dirty still becomes the state compared against
				for k, v := range now {
					stored[k] = v
				}
				start = len(w.ops)
			}
			var exp want
			var now map[string]int
			commit := vf.Choice("how", 2)
			step := func(ctx context.Context, add, remove func(e ddd.IEntity), save func(ctx context.Context) error) error {
				start = len(w.ops)
				for ph := 0; ph < n; ph++ {
					if ph > 0 {
						s.advance()
					}
					edit(s, ph)
					s.applyTo(add, remove)
					now = map[string]int{}
					for _, x := range s.ents {
						now[x.name] = x.val()
					}
					exp = s.expect(rec)
					if exp.unclear || exp.fail {
						vf.End()
					}
					if ph == n-1 {
						break
					}
					if err := save(ctx); err != nil {
						return err
					}
					judge(ph, exp, now)
					for _, x := range s.ents {
						if s.live(x) {
							vf.Assert(!x.e.IsDirty(), x.name+" is dirty after a save")
							vf.Assert(x.e.GetID() != "", x.name+" has no id after a save")
						}
					}
				}
				return nil
			}
			var res *ddd.Result
			if commit == 0 {
				res = eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
					if err := s.load(ctx, repo); err != nil {
						return err
					}
					return step(ctx, func(e ddd.IEntity) { repo.Add(e) }, func(e ddd.IEntity) { repo.Remove(e) }, repo.Save)
				})
			} else {
				c := &committer{}
				c.roots = s.loadedRoots()
				c.f = func(ctx context.Context, con ddd.RootContainer) error {
					return step(ctx, con.Add, con.Remove, c.Commit)
				}
				res = eng.Run(context.Background(), c)
			}
			if res.Error != nil {
				vf.Fail("the command fails: " + res.Error.Error() + ": " + s.describe())
			}
			judge(n-1, exp, now)
			total := 0
			for _, o := range w.ops {
				if o.Kind == "exec" {
					total++
				}
			}
			vf.Assert(len(res.Actions) == total, "the result does not list the actions of every save")
			vf.Reach("all saved")
		})
	}
	fresh := func(x *ent, ph int) {
		if (x.loaded || len(x.now) == 0) && vf.Bool(fmt.Sprintf("dirty_%s_%d", x.name, ph)) {
			x.dirty = true
			x.set(vf.Int(fmt.Sprintf("val_%s_%d", x.name, ph), -1000, 1000))
		}
	}
	repeated("C06.kids", false, func() int {
		if vf.Thorough() {
			return 3
		}
		return 2
	}, func() (*shape, func(s *shape, ph int)) {
		s := &shape{}
		r0 := s.root("r0", true)
		r1 := s.root("r1", false)
		k0 := s.kid("k0", at(r0, "Kids"))
		k1 := s.kid("k1", at(r0, "Alt"))
		n0 := s.kid("n0", nil)
		return s, func(s *shape, ph int) {
			r0.now = []pos{{}}
			fresh(r0, ph)
			if r1.loaded || vf.Bool("add_r1") {
				r1.now = []pos{{}}
			}
			for _, k := range []*ent{k0, k1, n0} {
				if k.everGone() {
					continue // once removed it stays away
				}
				if k == k0 || vf.Thorough() {
					k.choose(pos{r0, "Kids"}, pos{r0, "Alt"}, pos{r1, "Kids"})
				} else {
					k.choose(pos{r0, "Alt"}, pos{r1, "Kids"})
				}
				if k == k0 || vf.Thorough() {
					fresh(k, ph)
				}
			}
		}
	})
	repeated("C06.deep", true, func() int {
		if vf.Thorough() {
			return 3
		}
		return 2
	}, func() (*shape, func(s *shape, ph int)) {
		s := &shape{}
		r0 := s.root("r0", true)
		r1 := s.root("r1", true)
		k0 := s.kid("k0", at(r0, "Kids"))
		s0 := s.sub("s0", at(k0, "Subs"))
		s1 := s.sub("s1", nil)
		return s, func(s *shape, ph int) {
			for _, r := range []*ent{r0, r1} {
				if !r.everGone() && !vf.Bool(fmt.Sprint("remove_", r.name, ph)) {
					r.now = []pos{{}}
				}
			}
			for _, k := range []*ent{k0} {
				if !k.everGone() {
					k.choose(pos{r0, "Kids"}, pos{r1, "Kids"})
				}
			}
			for _, k := range []*ent{s0, s1} {
				if !k.everGone() {
					k.choose(pos{k0, "Subs"})
				}
			}
			fresh(s0, ph)
			fresh(r0, ph)
		}
	})

	// C07: ids and old states
	vf.Register("C07.ids", func() {
		w := newW()
		w.silent = true
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", false)
		r0.now = []pos{{}}
		if vf.Bool("add_r1") {
			r1.now = []pos{{}}
		}
		r0.touch()
		k0 := s.kid("k0", at(r0, "Kids"))
		k0.choose(pos{r0, "Kids"}, pos{r1, "Kids"})
		k0.touch()
		n0 := s.kid("n0", nil)
		n0.choose(pos{r0, "Kids"}, pos{r1, "Kids"}, pos{r1, "One"}, pos{r0, "Map"})
		s0 := s.sub("s0", at(k0, "Subs"))
		s0.choose(pos{k0, "Subs"}, pos{n0, "Subs"})
		s0.touch()
		s1 := s.sub("s1", nil)
		s1.choose(pos{k0, "Subs"}, pos{n0, "Subs"})
		own := map[string]string{}
		for _, x := range []*ent{r1, n0, s1} {
			if vf.Bool("ownid_" + x.name) {
				x.e.SetID("own-" + x.name)
			}
			own[x.name] = x.e.GetID()
		}
		prev := s.values("")
		w.failAt = vf.Int("failAt", 0, 6)
		w.errs = own["r1"] != "" && own["n0"] == "" && own["s1"] == ""
		eng := w.engine(&Bus{w: w}, ddd.WithoutTransaction)
		start := 0
		now := map[string]int{}
		res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			if err := s.load(ctx, repo); err != nil {
				return err
			}
			start = len(w.ops)
			s.apply(ctx, repo)
			for _, x := range s.ents {
				if x.dirty {
					x.set(vf.Int("new_"+x.name, -1000, 1000))
				}
				now[x.name] = x.val()
			}
			return nil
		})
		g := collect(w, start)
		exp := s.expect(false)
		if exp.unclear || exp.fail {
			vf.End()
		}
		for _, f := range w.failed {
			if f == "newid" {
				vf.Assert(res.Error != nil, "the id generator failed and the save did not")
				vf.Assert(len(g.actions) == 0, "something is written although the id generator failed")
				vf.Reach("generator failure")
				return
			}
		}
		if len(w.failed) > 0 {
			vf.Assert(res.Error != nil, "a failing write is not reported")
			return
		}
		if res.Error != nil {
			vf.Fail("the save fails: " + res.Error.Error())
		}
		fresh := 0
		ids := map[string]bool{}
		for _, x := range s.ents {
			id := x.e.GetID()
			if !exp.ins[x.name] {
				continue
			}
			if own[x.name] != "" {
				vf.Assert(id == own[x.name], "an id that was set is replaced")
			} else {
				fresh++
				vf.Assert(len(id) > 3 && id[:3] == "gen", "a new entity got no id from the generator")
			}
			vf.Assert(!ids[id], "two entities got one id")
			ids[id] = true
		}
		for _, x := range s.ents {
			if x.loaded {
				vf.Assert(x.e.GetID() == "id-"+x.name, "the id of an existing entity is replaced")
			}
		}
		vf.Assert(w.count("newid") == fresh, "the generator is not asked once for each new entity without id")
		judgeModels(s, g, prev, now)
		vf.Reach("saved")
	})

	// C07: several updates of one kind, next to inserts, moves and deletes of that kind
	vf.Register("C07.pairs", func() {
		w := newW()
		w.silent = true
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", true)
		r0.now, r1.now = []pos{{}}, []pos{{}}
		r0.touch()
		r1.touch()
		k0, k1, k2 := s.kid("k0", at(r0, "Kids")), s.kid("k1", at(r0, "Kids")), s.kid("k2", at(r1, "Alt"))
		n0 := s.kid("n0", nil)
		k0.now = []pos{{r0, "Kids"}}
		k1.choose(pos{r0, "Kids"}, pos{r1, "Kids"})
		k2.now = []pos{{r1, "Alt"}}
		if vf.Bool("add") {
			n0.now = []pos{{r0, "Kids"}}
		}
		for _, k := range []*ent{k0, k1, k2} {
			k.touch()
		}
		s0, s1 := s.sub("s0", at(k0, "Subs")), s.sub("s1", at(k2, "Subs"))
		s0.now, s1.now = []pos{{k0, "Subs"}}, []pos{{k2, "Subs"}}
		if vf.Thorough() {
			s0.touch()
			s1.touch()
		} else if vf.Bool("dirty_subs") {
			s0.dirty, s1.dirty = true, true
		}
		prev := s.values("")
		eng := w.engine(&Bus{w: w})
		start := 0
		now := map[string]int{}
		res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			if err := s.load(ctx, repo); err != nil {
				return err
			}
			start = len(w.ops)
			s.apply(ctx, repo)
			for _, x := range s.ents {
				if x.dirty {
					x.set(vf.Int("new_"+x.name, -1000, 1000))
				}
				now[x.name] = x.val()
			}
			return nil
		})
		if res.Error != nil {
			vf.Fail("the save fails: " + res.Error.Error())
		}
		judgeModels(s, collect(w, start), prev, now)
		vf.Reach("saved")
	})

	// C08: hooks
	hooksHarness := func(name string, mk func() *shape) {
		vf.Register(name, func() {
			w := newW()
			s := mk()
			w.kinds["hook"] = true
			w.failAt = vf.Int("failAt", 0, 14)
			w.bump = true
			w.errs = true
			rec := vf.Bool("recursive")
			s.values("")
			before := map[string]int{}
			var opts []ddd.Option
			opts = append(opts, ddd.WithoutTransaction)
			if rec {
				opts = append(opts, ddd.WithRecursiveDelete)
			}
			eng := w.engine(&Bus{w: w}, opts...)
			res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
				if err := s.load(ctx, repo); err != nil {
					return err
				}
				s.apply(ctx, repo)
				for _, x := range s.ents {
					before[x.name] = x.val()
				}
				return nil
			})
			exp := s.expect(rec)
			if exp.unclear || exp.fail {
				vf.End()
			}
			wanted := map[string]bool{}
			for k := range exp.ins {
				wanted["bc "+k], wanted["ac "+k] = true, true
			}
			for k := range exp.upd {
				wanted["bu "+k], wanted["au "+k] = true, true
			}
			for k := range exp.del {
				wanted["bd "+k], wanted["ad "+k] = true, true
			}
			ran := map[string]int{}
			execs, vetoed, lateFail := 0, false, false
			for _, o := range w.ops {
				switch o.Kind {
				case "hook":
					ran[o.Key]++
					vf.Assert(wanted[o.Key], "hook '"+o.Key+"' runs without such a change: "+s.describe())
					vf.Assert(ran[o.Key] == 1, "hook '"+o.Key+"' runs twice")
					if o.Key[0] == 'b' {
						vf.Assert(execs == 0, "hook '"+o.Key+"' runs after something was written")
						vetoed = vetoed || !o.OK
					} else {
						lateFail = lateFail || !o.OK
					}
				case "exec":
					vf.Assert(!vetoed, "something is written although a before-hook failed")
					for k := range wanted {
						if k[0] == 'a' {
							vf.Assert(ran[k] == 0, "hook '"+k+"' runs before everything was written")
						} else {
							vf.Assert(ran[k] == 1, "something is written before hook '"+k+"' ran")
						}
					}
					execs++
					for _, m := range o.Action.Models {
						if p := poOf(m); o.Action.Op != ddd.OpDelete {
							vf.Assert(p.Val == before[p.Of]+5000, "what the before-hook of "+p.Of+" changed is not written")
						}
					}
				}
			}
			switch {
			case len(w.failed) > 0:
				vf.Assert(res.Error != nil, "a failing "+w.failed[0]+" is not reported")
				if vetoed {
					vf.Reach("vetoed")
				}
				if lateFail {
					vf.Reach("late failure")
				}
				if w.failed[0] == "exec" {
					for k := range ran {
						vf.Assert(k[0] == 'b', "an after-hook runs although the write failed")
					}
					vf.Reach("write failure")
				}
			default:
				vf.Assert(res.Error == nil, "the save fails without reason")
				for k := range wanted {
					vf.Assert(ran[k] == 1, "hook '"+k+"' does not run: "+s.describe())
				}
				if len(wanted) > 0 {
					vf.Reach("hooks ran")
				}
			}
		})
	}
	hooksHarness("C08.kids", func() *shape {
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", false)
		if !vf.Bool("remove_r0") {
			r0.now = []pos{{}}
		}
		if vf.Bool("add_r1") {
			r1.now = []pos{{}}
		}
		r0.touch()
		k0 := s.kid("k0", at(r0, "Kids"))
		k0.choose(pos{r0, "Kids"}, pos{r1, "Kids"}, pos{r0, "Alt"})
		k0.touch()
		n0 := s.kid("n0", nil)
		n0.choose(pos{r0, "Kids"}, pos{r1, "One"})
		if vf.Thorough() {
			k1 := s.kid("k1", at(r0, "Map"))
			k1.choose(pos{r0, "Kids"}, pos{r0, "Map"})
			k1.touch()
		}
		return s
	})
	// an entity the executor does not know, alone or next to others: its hooks come in pairs around whatever is written
	vf.Register("C08.unknown", func() {
		w := newW()
		s := &shape{}
		r0 := s.root("r0", true)
		r0.now = []pos{{}}
		r0.touch()
		g0 := s.gho("g0", at(r0, "Gh"))
		g0.choose(pos{r0, "Gh"})
		g0.touch()
		g1 := s.gho("g1", nil)
		g1.choose(pos{r0, "Gh"})
		if vf.Bool("wrapped") {
			w.kinds["wrapghost"] = true
		}
		w.kinds["hook"] = true
		w.failAt = vf.Int("failAt", 0, 8)
		w.errs = true
		res := w.engine(&Bus{w: w}, ddd.WithoutTransaction).Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			if err := s.load(ctx, repo); err != nil {
				return err
			}
			s.apply(ctx, repo)
			return nil
		})
		ran := map[string]int{}
		for _, o := range w.ops {
			if o.Kind != "hook" {
				continue
			}
			ran[o.Key]++
			vf.Assert(ran[o.Key] == 1, "hook '"+o.Key+"' runs twice")
			if o.Key[0] == 'a' {
				vf.Assert(ran["b"+o.Key[1:]] == 1, "hook '"+o.Key+"' runs without the one before")
			}
		}
		if len(w.failed) > 0 {
			vf.Assert(res.Error != nil, "a failing "+w.failed[0]+" is not reported")
			return
		}
		if res.Error != nil {
			vf.Fail("the save fails: " + res.Error.Error())
		}
		for k := range ran {
			if k[0] == 'b' {
				vf.Assert(ran["a"+k[1:]] == 1, "hook '"+k+"' runs, but not the one after: "+s.describe())
				vf.Reach("paired")
			}
		}
	})
	hooksHarness("C08.deep", func() *shape {
		s := &shape{}
		r0, r1 := s.root("r0", true), s.root("r1", true)
		r0.now = []pos{{}}
		r1.now = []pos{{}}
		k0 := s.kid("k0", at(r0, "Kids"))
		k0.choose(pos{r0, "Kids"}, pos{r1, "Kids"})
		n0 := s.kid("n0", nil)
		n0.choose(pos{r1, "Kids"})
		s0 := s.sub("s0", at(k0, "Subs"))
		s0.choose(pos{k0, "Subs"}, pos{n0, "Subs"})
		s0.touch()
		s1 := s.sub("s1", nil)
		s1.choose(pos{k0, "Subs"}, pos{n0, "Subs"})
		return s
	})
}

// committer is a command in the older form.
type committer struct {
	ddd.Command
	roots []ddd.IEntity
	f     func(ctx context.Context, con ddd.RootContainer) error
}

func (c *committer) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.roots, nil
}

func (c *committer) Act(ctx context.Context, con ddd.RootContainer, roots ...ddd.IEntity) error {
	return c.f(ctx, con)
}

// everGone tells that x was stored before and is not any more.
func (x *ent) everGone() bool { return !x.loaded && x.e.GetID() != "" }
