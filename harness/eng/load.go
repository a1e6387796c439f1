package eng

import (
	"context"
	"errors"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

type builder struct {
	ddd.Command
	f func(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error)
}

func (b *builder) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return b.f(ctx, h)
}

// pickKid leaves the rows that are asked for.
func pickKid(ps []*KidPO, id string) []*KidPO {
	if id == "" {
		return ps
	}
	for _, p := range ps {
		if p.ID == id {
			return []*KidPO{p}
		}
	}
	return nil
}

func init() {
	ctx := context.Background()
	vf.Register("C13.load", func() {
		w := newW()
		w.silent = true
		w.kinds["convert"] = true
		w.rows = map[string][]ddd.IModel{}
		root := &RootPO{PO{ID: "id-r", Of: "r", Val: vf.Int("root_val", -9, 9)}}
		hasRoot := vf.Bool("stored")
		if vf.Bool("other_first") {
			w.rows["root"] = append(w.rows["root"], &RootPO{PO{ID: "id-q", Of: "q", Val: 99}})
		}
		if hasRoot {
			w.rows["root"] = append(w.rows["root"], root)
		}
		nk := vf.Choice("kids", 4)
		var mine []*KidPO
		for i := 0; i < nk; i++ {
			k := &KidPO{PO{ID: fmt.Sprint("id-k", i), Of: fmt.Sprint("k", i), Parent: "id-r", Val: vf.Int("kid_val", -9, 9)}}
			if vf.Bool("of_other") {
				k.Parent = "id-q"
			} else {
				mine = append(mine, k)
			}
			w.rows["kid"] = append(w.rows["kid"], k)
		}
		r := &Root{}
		noID := vf.Bool("no_id")
		if !noID {
			r.SetID("id-r")
		}
		var old []*Kid
		for i := vf.Choice("already", 2); i > 0; i-- {
			k := &Kid{Name: "old"}
			k.SetID("id-old")
			old = append(old, k)
		}
		r.Kids = append(r.Kids, old...)
		form := vf.Choice("child", 12)
		inline := &Kid{}
		// a child that is asked for by its id
		wantID := ""
		preset := false
		single, byEnt := form == 2 || form == 3 || form == 10, form == 4 || form == 11
		if single || byEnt {
			preset = vf.Bool("preset")
			if preset {
				r.One = &Kid{Name: "preset"}
			}
			if (preset || byEnt) && vf.Bool("by_id") {
				wantID = "id-k1"
				if preset {
					r.One.SetID(wantID)
				}
				inline.SetID(wantID)
			}
		}
		var children []interface{}
		bad := false
		switch form {
		case 0:
		case 1:
			children = []interface{}{&r.Kids}
		case 2:
			children = []interface{}{&r.One}
		case 3:
			children = []interface{}{&r.Kids, &r.One}
		case 4:
			children = []interface{}{inline}
		case 10:
			children = []interface{}{&r.One, &r.Kids}
		case 11:
			children = []interface{}{inline, &r.Kids}
		case 5:
			children, bad = []interface{}{r.Kids}, true
		case 6:
			children, bad = []interface{}{&[]int{1}}, true
		case 7:
			n := 3
			children, bad = []interface{}{&n}, true
		case 8: // of a type the executor does not know
			children, bad = []interface{}{&r.Gh}, true
		case 9:
			var g *Ghost
			children, bad = []interface{}{&g}, true
		}
		w.failAt = vf.Int("failAt", 0, 9)
		w.errs = true
		w.found = true
		eng := w.engine(&Bus{w: w}, ddd.WithoutTransaction)
		var err error
		var res *ddd.Result
		done := false
		failedBefore := 0
		if vf.Bool("old_form") {
			res = eng.Run(ctx, &builder{f: func(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
				err = h.Build(ctx, r, children...)
				done = true
				failedBefore = len(w.failed)
				return []ddd.IEntity{r}, err
			}})
		} else {
			res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
				err = repo.Get(ctx, r, children...)
				done = true
				failedBefore = len(w.failed)
				if err == nil {
					again := repo.Get(ctx, r)
					vf.Assert(again != nil, "a root can be loaded twice")
				}
				return err
			})
		}
		vf.Assert(done, "the body is not run")
		vf.Assert(w.writes() == 0, "loading causes a write")
		for _, o := range w.ops {
			vf.Assert(o.Kind != "hook" && o.Kind != "dispatch", "loading causes a "+o.Kind)
		}
		if err != nil {
			vf.Assert(res.Error != nil, "a failed load is not reported")
		}
		if noID {
			vf.Assert(err != nil && w.count("query") == 0, "a root without id is not refused")
			vf.Reach("no id")
			return
		}
		if failedBefore > 0 {
			vf.Assert(err != nil && errors.Is(err, errInjected), "an error of the executor or converter is not given back")
			vf.Reach("executor error")
			return
		}
		if !hasRoot {
			vf.Assert(errors.Is(err, ddd.ErrEntityNotFound), "a missing root is not reported as not found")
			vf.Reach("not found")
			return
		}
		if bad {
			vf.Assert(err != nil, "a child argument that is no entity pointer is accepted")
			return
		}
		if err != nil {
			vf.Fail("the load fails: " + err.Error())
		}
		// the root
		vf.Assert(r.GetID() == "id-r" && r.Name == "r" && r.Val == root.Val, "the root is not filled from its row")
		for i, o := range w.ops {
			if o.Kind != "query" {
				continue
			}
			q := poOf(o.Action.Query)
			if i == w.index("query") {
				vf.Assert(q.ID == "id-r" && q.Parent == "", "the root is not queried by its id")
			} else {
				vf.Assert(q.Parent == "id-r", "children are not queried by their parent")
			}
		}
		same := func(k *Kid, p *KidPO) {
			vf.Assert(k != nil, "a stored child is not loaded")
			vf.Assert(k.GetID() == p.ID && k.Name == p.Of && k.Val == p.Val, "a child is not filled from its row")
		}
		if form == 1 || form == 3 || form >= 10 {
			vf.Assert(len(r.Kids) == len(old)+len(mine), fmt.Sprintf("%d children are loaded instead of %d", len(r.Kids)-len(old), len(mine)))
			for i, k := range old {
				vf.Assert(r.Kids[i] == k && k.Name == "old", "an element that was in the slice is lost")
			}
			seen := map[*Kid]bool{}
			for i, p := range mine {
				k := r.Kids[len(old)+i]
				same(k, p)
				vf.Assert(!seen[k], "one entity for two rows")
				seen[k] = true
			}
			vf.Reach("slice")
		} else {
			vf.Assert(len(r.Kids) == len(old), "children are loaded unasked")
		}
		if single {
			mine := pickKid(mine, wantID)
			if len(mine) == 0 {
				vf.Assert(r.One == nil, "a missing child leaves a pointer that is not empty")
				vf.Reach("missing child")
			} else {
				same(r.One, mine[0])
				vf.Reach("pointer")
			}
		}
		if byEnt {
			if mine := pickKid(mine, wantID); len(mine) > 0 {
				same(inline, mine[0])
				if wantID != "" {
					vf.Reach("child by id")
				}
			} else {
				vf.Assert(inline.Name == "", "a missing child is filled")
			}
		}
		if len(w.failed) == 0 {
			vf.Assert(res.Error == nil, "a load alone fails the command")
		}
	})
	// two roots, loaded one after the other with changes in between: nothing is written for what was only loaded,
	// and nothing that was changed is forgotten
	vf.Register("C03.loads", func() {
		w := newW()
		w.silent = true
		w.store()
		w.rows["root"] = append(w.rows["root"], &RootPO{PO{ID: "id-q", Of: "q", Val: 5}})
		eng := w.engine(&Bus{w: w})
		n := 4
		if vf.Thorough() {
			n = 5
		}
		exp := want{ins: map[string]bool{}, upd: map[string]bool{}, del: map[string]bool{}}
		var did string
		res := eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			var r, q *Root
			added, newKid, gone := false, false, false
			rGone := false
			for i := 0; i < n; i++ {
				switch vf.Choice("step", 8) {
				case 0:
					if r != nil {
						vf.End()
					}
					did += "load r; "
					r = &Root{}
					r.SetID("id-r")
					if err := repo.Get(ctx, r, &r.Kids); err != nil {
						return err
					}
				case 1:
					if q != nil {
						vf.End()
					}
					did += "load q; "
					q = &Root{}
					q.SetID("id-q")
					if err := repo.Get(ctx, q); err != nil {
						return err
					}
				case 2:
					if added {
						vf.End()
					}
					did += "add n; "
					added = true
					repo.Add(&Root{Name: "n", Kids: []*Kid{{Name: "nk", Subs: []*Sub{{Name: "ns"}}}}})
					exp.ins["n"], exp.ins["nk"], exp.ins["ns"] = true, true, true
				case 3:
					if r == nil || newKid || rGone {
						vf.End()
					}
					did += "add kid to r; "
					newKid = true
					r.Kids = append(r.Kids, &Kid{Name: "rk", Subs: []*Sub{{Name: "rs"}}})
					exp.ins["rk"], exp.ins["rs"] = true, true
				case 4:
					if r == nil || rGone || len(r.Kids) == 0 || r.Kids[0].Name != "a" {
						vf.End()
					}
					did += "drop kid a of r; "
					r.Kids = r.Kids[1:]
					exp.del["a"] = true
				case 5:
					if gone {
						vf.End()
					}
					did += "remove x; "
					gone = true
					x := &Root{Name: "x"}
					x.SetID("id-x")
					repo.Remove(x)
					exp.del["x"] = true
				case 6:
					if r == nil || rGone {
						vf.End()
					}
					did += "remove r; "
					rGone = true
					repo.Remove(r)
					exp.del["r"] = true
					delete(exp.ins, "rk")
					delete(exp.ins, "rs")
					delete(exp.upd, "r")
				case 7:
					did += "custom load; "
					y := &Root{Name: fmt.Sprint("y", i), Kids: []*Kid{{Name: "yk"}}}
					y.SetID(fmt.Sprint("id-y", i))
					if err := repo.CustomGet(ctx, func(ctx context.Context, root ...ddd.IEntity) {}, y); err != nil {
						return err
					}
				}
			}
			return nil
		})
		vf.Assert(res.Error == nil, "the command fails: "+did)
		g := collect(w, 0)
		vf.Assert(names(g.ins) == want2(exp.ins), "inserted "+names(g.ins)+" instead of "+want2(exp.ins)+": "+did)
		vf.Assert(names(g.upd) == want2(exp.upd), "updated "+names(g.upd)+" instead of "+want2(exp.upd)+": "+did)
		vf.Assert(names(g.del) == want2(exp.del), "deleted "+names(g.del)+" instead of "+want2(exp.del)+": "+did)
		if len(exp.ins) > 0 && len(exp.del) > 0 {
			vf.Reach("both")
		}
	})
}
