package eng

import (
	"context"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

func init() {
	ctx := context.Background()

	// putting an entity twice into the repository, by whatever way, is refused and nothing of the run stays;
	// the same calls in an order that makes sense are not
	vf.Register("C12.misuse", func() {
		w := newW()
		w.silent = true
		w.store()
		eng := w.engine(&Bus{w: w})
		n := 3
		if vf.Thorough() {
			n = 4
		}
		a, b := &Root{Name: "r"}, &Root{Name: "b"}
		a.SetID("id-r")
		did := ""
		bad := "" // the call that must fail the run
		old := vf.Bool("old_form")
		body := func(ctx context.Context, repo *ddd.Repository, con *ddd.RootContainer) error {
			in, snap, gone := map[*Root]bool{}, map[*Root]bool{}, map[*Root]bool{}
			for i := 0; i < n; i++ {
				k := vf.Choice("step", 7)
				e := b
				if k == 0 {
					break
				}
				if bad != "" && (k < 3 || k == 6) {
					vf.End()
				}
				if k == 1 || k == 2 || k >= 5 || vf.Bool("on_a") {
					e = a
				}
				did += fmt.Sprint([]string{"", "get ", "custom get ", "add ", "remove ", "save ", "add twice "}[k], e.Name, "; ")
				if repo == nil && (k < 3 || k == 5) {
					vf.End()
				}
				var err error
				switch k {
				case 1:
					if gone[e] {
						vf.End()
					}
					if err = repo.Get(ctx, e, &e.Kids); in[e] {
						vf.Assert(err != nil, "an entity is loaded twice: "+did)
						vf.Reach("loaded twice")
						bad = did
						return err
					}
					in[e], snap[e] = true, true
				case 2:
					if gone[e] {
						vf.End()
					}
					if err = repo.CustomGet(ctx, func(ctx context.Context, root ...ddd.IEntity) {}, e); in[e] {
						vf.Assert(err != nil, "an entity is loaded twice: "+did)
						vf.Reach("loaded twice")
						bad = did
						return err
					}
					in[e], snap[e] = true, true
				case 3:
					if gone[e] {
						vf.End()
					}
					if repo != nil {
						repo.Add(e)
					} else {
						con.Add(e)
					}
					if in[e] {
						bad = did
					}
					in[e] = true
				case 4:
					if gone[e] || !in[e] && repo != nil && e == b {
						vf.End() // an entity without an id
					}
					if repo != nil {
						repo.Remove(e)
					} else {
						con.Remove(e)
						if !in[e] {
							bad = did
						}
					}
					in[e], gone[e] = false, true
				case 5:
					if err = repo.Save(ctx); bad != "" {
						vf.Assert(err != nil, "a save succeeds after a refused call: "+did)
						return nil
					}
					for _, x := range []*Root{a, b} {
						snap[x], gone[x] = in[x], false
					}
				case 6: // both in one call, one of them twice
					if gone[a] || gone[b] || in[b] {
						vf.End()
					}
					if repo != nil {
						repo.Add(b, a, b)
					} else {
						con.Add(b)
						con.Add(b)
					}
					bad, in[b] = did, true
				}
				vf.Assert(err == nil, fmt.Sprintf("%v: %s", err, did))
			}
			return nil
		}
		var res *ddd.Result
		if old {
			res = eng.Run(ctx, &committer{f: func(ctx context.Context, con ddd.RootContainer) error { return body(ctx, nil, &con) }})
		} else {
			res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error { return body(ctx, repo, nil) })
		}
		if bad != "" {
			vf.Assert(res.Error != nil && !res.Break, "a call that makes no sense is not reported: "+did)
			vf.Assert(w.count("commit") == 0 && w.count("rollback") == 1, "something of a run stays whose calls make no sense: "+did)
			vf.Reach("refused")
		} else {
			vf.Assert(res.Error == nil && w.count("commit") == 1, fmt.Sprintf("a run fails without reason: %v: %s", res.Error, did))
			vf.Reach("accepted")
		}
	})
}
