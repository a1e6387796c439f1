package eng

import (
	"context"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

func init() {
	ctx := context.Background()

	// the new elements of one list get their ids and rows in the order of the list
	vf.Register("C07.order", func() {
		vf.MapOrder(3)
		w := newW()
		eng := w.engine(&Bus{w: w})
		n := 3
		roots := vf.Bool("roots")
		deep := !roots && vf.Bool("below_a_new_root")
		r := &Root{Name: "r"}
		var list []ddd.IEntity
		var kids []*Kid
		for i := 0; i < n; i++ {
			name := fmt.Sprint("x", (i+1)%n)
			if roots {
				list = append(list, &Root{Name: name})
				continue
			}
			k := &Kid{Name: name}
			kids = append(kids, k)
			list = append(list, k)
		}
		res := eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			if roots {
				repo.Add(list...)
				return nil
			}
			if deep {
				r.Kids = kids
				repo.Add(r)
				return nil
			}
			r.SetID("id-r")
			err := repo.CustomGet(ctx, func(ctx context.Context, root ...ddd.IEntity) {}, r)
			r.Kids = kids
			return err
		})
		if res.Error != nil {
			vf.Fail("the command fails: " + res.Error.Error())
		}
		model := 0
		for _, o := range w.ops {
			if o.Kind != "exec" {
				continue
			}
			for _, m := range o.Action.Models {
				p := poOf(m)
				if p.Of == "r" {
					continue
				}
				vf.Assert(model < n && p.Of == nameOf(list[model]), "the new elements of a list are not written in the order of the list")
				model++
			}
		}
		vf.Assert(model == n, "not every new element is written")
		for i := 0; i+1 < n; i++ {
			vf.Assert(list[i].GetID() < list[i+1].GetID(), "the ids of a list's new elements do not follow the list")
		}
		vf.Reach("written")
	})
}
