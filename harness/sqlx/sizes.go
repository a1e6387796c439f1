package sqlx

import (
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

func sizes() int {
	s := []int{1, 12, 33, 70, 130}
	if vf.Thorough() {
		s = append(s, 2, 21, 51, 101, 257)
	}
	return s[vf.Choice("how_many", len(s))]
}

func init() {
	// any number of rows in one action
	vf.Register("C15.sizes", func() {
		d := newDB()
		n := sizes()
		id := func(i int) string { return fmt.Sprintf("r%04d", i) }
		for i := 0; i < n+2; i++ { // two more than are touched
			m := base(id(i))
			m.N = 5
			d.put(m)
		}
		bulk := vf.Bool("two_keys")
		for i := 0; i < n; i++ {
			for _, r := range []string{"x", "y"} {
				if bulk || i == 0 {
					d.link.Put(map[string]any{"left": id(i), "right": r, "n": int64(i)})
				}
			}
		}
		val := vf.Int("val", 6, 100)
		last := vf.Int("last", 6, 100)
		of := func(i int) int {
			if i == n-1 {
				return last
			}
			return val
		}
		c, tx := bg, vf.Bool("in_transaction")
		if tx {
			var err error
			c, err = d.ex.Begin(bg)
			vf.Assert(err == nil, "begin fails")
		}
		var ms, ps []ddd.IModel
		a := &ddd.Action{}
		do := vf.Choice("action", 6)
		switch do {
		case 0: // new rows
			a.Op = ddd.OpInsert
			for i := 0; i < n; i++ {
				m := base("n" + id(i))
				m.N = of(i)
				ms = append(ms, m)
			}
		case 1: // some column of each
			a.Op = ddd.OpUpdate
			for i := 0; i < n; i++ {
				p, m := base(id(i)), base(id(i))
				p.N, m.N = 5, of(i)
				ms, ps = append(ms, m), append(ps, p)
			}
		case 2: // all of them
			a.Op = ddd.OpUpdate
			for i := 0; i < n; i++ {
				m := base(id(i))
				m.N = of(i)
				ms = append(ms, m)
			}
		case 3:
			a.Op = ddd.OpDelete
			for i := 0; i < n; i++ {
				ms = append(ms, &rowPO{Key: keyPO{ID: id(i)}})
			}
		case 4:
			a.Op = ddd.OpDelete
			if !bulk {
				vf.End()
			}
			for i := 0; i < n; i++ {
				ms = append(ms, &linkPO{Left: id(i), Right: "x"})
			}
		case 5:
			a.Op = ddd.OpQuery
			var got []*rowPO
			a.Query, a.QueryResult = &rowPO{N: 5}, &got
			err := d.ex.Exec(c, a)
			vf.Assert(err == nil, fmt.Sprintf("a query fails: %v", err))
			seen := map[string]bool{}
			for _, g := range got {
				seen[g.Key.ID] = true
			}
			vf.Assert(len(got) == n+2 && len(seen) == n+2, fmt.Sprintf("%d of %d rows are found", len(seen), n+2))
			vf.Reach("found")
			return
		}
		a.Models, a.PrevModels = ms, ps
		err := d.ex.Exec(c, a)
		vf.Assert(err == nil, fmt.Sprintf("action %d on %d rows fails: %v", do, n, err))
		if tx {
			vf.Assert(d.ex.Commit(c) == nil, "commit fails")
		}
		by := map[string]map[string]any{}
		for _, r := range d.rows.Rows() {
			by[r["uid"].(string)] = r
		}
		want := n + 2
		for i := 0; i < n+2; i++ {
			r, touched := by[id(i)], i < n
			if do == 3 && touched {
				vf.Assert(r == nil, fmt.Sprintf("row %d of %d is not deleted", i, n))
				want--
				continue
			}
			m := base(id(i))
			m.N = 5
			if (do == 1 || do == 2) && touched {
				m.N = of(i)
			}
			if x := differs(r, m); x != "" {
				vf.Fail(fmt.Sprintf("row %d of %d: %s", i, n, x))
			}
		}
		if do == 0 {
			want += n
			for i := 0; i < n; i++ {
				m := base("n" + id(i))
				m.N = of(i)
				if x := differs(by["n"+id(i)], m); x != "" {
					vf.Fail(fmt.Sprintf("new row %d of %d: %s", i, n, x))
				}
			}
		}
		vf.Assert(len(by) == want && d.rows.Len() == want, "rows appear or disappear")
		links := map[string]bool{}
		for _, r := range d.link.Rows() {
			links[r["left"].(string)+r["right"].(string)] = true
		}
		for i := 0; i < n && bulk; i++ {
			vf.Assert(links[id(i)+"y"] && links[id(i)+"x"] == (do != 4), fmt.Sprintf("links of row %d of %d", i, n))
		}
		vf.Reach("done")
	})
}
