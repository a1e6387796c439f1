package eng

import (
	"context"
	"errors"
	"fmt"

	ddd "github.com/bytedance/dddfirework"

	"verifharness/vf"
)

// The forms in which business code is handed to the engine.
const (
	fmRun      = iota // an ICommand, by Run
	fmRunCmd          // the same, by RunCommand
	fmMainInit        // ICommandMain with Init and PostSave
	fmMain            // ICommandMain alone
	fmFunc            // a function
	fmMainFunc        // a MainFunc
	fmStage           // a stage with lock keys and a main function
	fmCreate          // Engine.Create
	fmDelete          // Engine.Delete
	fmKinds
)

// deed is one command in any of the forms.
type deed struct {
	w        *W
	form     int
	keys     []string
	initEnd  int // 0 ok, 1 error, 2 break
	buildEnd int // 0 nothing, 1 a loaded root, 2 error, 3 break, 4 a root without id, 5 a root that is not stored, 6 two roots
	end      int // 0 ok, 1 error, 2 break, 3 wrapped break, 4 panic, 5 a root added twice
	out      int // where the output is set: 0 nowhere, 1 Init, 2 Build, 3 Act
	root     *Root
	got      []ddd.IEntity // the roots handed to Act
	acted    bool
	reached  bool // the business code came to its end
	fresh    *Root
	ended    error
}

func (d *deed) init() ([]string, error) {
	d.w.add(Op{Kind: "init", InTx: d.w.tx > 0})
	switch d.initEnd {
	case 1:
		return d.keys, business()
	case 2:
		return d.keys, fmt.Errorf("not now: %w", ddd.ErrBreak)
	}
	return d.keys, nil
}

func (d *deed) finish(twice func()) error {
	d.reached = true
	switch d.end {
	case 1:
		d.ended = business()
	case 2:
		d.ended = ddd.ErrBreak
	case 3:
		d.ended = fmt.Errorf("enough: %w", ddd.ErrBreak)
	case 4:
		blow()
	case 5:
		twice()
	}
	return d.ended
}

// oldDeed is the deed as an ICommand.
type oldDeed struct {
	ddd.Command
	d *deed
}

func (c *oldDeed) Init(ctx context.Context) ([]string, error) {
	if c.d.out == 1 {
		c.Output("out")
	}
	return c.d.init()
}

func (c *oldDeed) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	d := c.d
	d.w.add(Op{Kind: "body", InTx: d.w.tx > 0})
	if d.out == 2 {
		c.Output("out")
	}
	switch d.buildEnd {
	case 2:
		d.ended = business()
		return nil, d.ended
	case 3:
		d.ended = ddd.ErrBreak
		return nil, d.ended
	case 4:
		return []ddd.IEntity{&Root{Name: "anonymous"}}, nil
	case 0:
		return nil, nil
	}
	r := &Root{}
	r.SetID("id-r")
	if d.buildEnd == 5 {
		r.SetID("id-missing")
	}
	d.root = r
	if err := h.Build(ctx, r, &r.Kids); err != nil {
		d.ended = err
		return nil, err
	}
	if d.buildEnd == 6 {
		s := &Root{Name: "second"}
		s.SetID("id-s")
		return []ddd.IEntity{r, s}, nil
	}
	return []ddd.IEntity{r}, nil
}

func (c *oldDeed) Act(ctx context.Context, con ddd.RootContainer, roots ...ddd.IEntity) error {
	d := c.d
	d.acted = true
	d.w.add(Op{Kind: "body", InTx: d.w.tx > 0})
	d.got = roots
	if d.out == 3 {
		c.Output("out")
	}
	d.edit()
	con.Add(d.fresh)
	if d.buildEnd == 6 {
		con.Remove(roots[1])
	}
	return d.finish(func() { con.Add(d.fresh) })
}

func (c *oldDeed) PostSave(ctx context.Context, res *ddd.Result) {
	d := c.d
	d.w.add(Op{Kind: "post", Key: "own", Res: res, InTx: d.w.tx > 0})
}

// edit changes the loaded root, takes out a child and prepares a new root.
func (d *deed) edit() {
	d.fresh = &Root{Name: "fresh"}
	if d.root != nil {
		d.root.Val++
		d.root.Dirty()
		d.root.Kids = d.root.Kids[1:]
	}
}

func (d *deed) main(ctx context.Context, repo *ddd.Repository) error {
	d.acted = true
	d.w.add(Op{Kind: "body", InTx: d.w.tx > 0})
	if d.buildEnd > 0 {
		r := &Root{}
		r.SetID("id-r")
		d.root = r
		if err := repo.Get(ctx, r, &r.Kids); err != nil {
			d.ended = err
			return err
		}
	}
	d.edit()
	repo.Add(d.fresh)
	return d.finish(func() { repo.Add(d.fresh) })
}

type newDeed struct{ d *deed }

func (c *newDeed) Main(ctx context.Context, repo *ddd.Repository) error { return c.d.main(ctx, repo) }

type fullDeed struct{ newDeed }

func (c *fullDeed) Init(ctx context.Context) ([]string, error) { return c.d.init() }
func (c *fullDeed) PostSave(ctx context.Context, res *ddd.Result) {
	c.d.w.add(Op{Kind: "post", Key: "own", Res: res, InTx: c.d.w.tx > 0})
}

func (d *deed) run(ctx context.Context, eng *ddd.Engine, ro []ddd.Option) *ddd.Result {
	switch d.form {
	case fmRun:
		return eng.Run(ctx, &oldDeed{d: d}, ro...)
	case fmRunCmd:
		return eng.RunCommand(ctx, &oldDeed{d: d}, ro...)
	case fmMainInit:
		return eng.Run(ctx, &fullDeed{newDeed{d}}, ro...)
	case fmMain:
		return eng.Run(ctx, &newDeed{d}, ro...)
	case fmFunc:
		return eng.Run(ctx, d.main, ro...)
	case fmMainFunc:
		return eng.Run(ctx, ddd.MainFunc(d.main), ro...)
	case fmStage:
		return eng.NewStage().WithOption(ro...).Lock(d.keys...).Main(d.main).Save(ctx)
	case fmCreate:
		d.fresh = &Root{Name: "fresh"}
		if d.end == 5 {
			return eng.Create(ctx, d.fresh, d.fresh)
		}
		return eng.Create(ctx, d.fresh, &Root{Name: "fresh2"})
	}
	r := &Root{Name: "gone"}
	r.SetID("id-gone")
	return eng.Delete(ctx, r)
}

func init() {
	ctx := context.Background()

	forms := func(name string, id string) {
		vf.Register(name, func() {
			w := newW()
			w.store()
			w.silent = true
			d := &deed{w: w, form: vf.Choice("form", fmKinds)}
			old := d.form == fmRun || d.form == fmRunCmd
			inits := old || d.form == fmMainInit
			if inits || d.form == fmStage {
				if n := vf.Choice("keys", 3); n > 0 {
					d.keys = []string{"k2", "k1"}[:n]
				}
			}
			if inits {
				d.initEnd = vf.Choice("init_end", 3)
			}
			switch {
			case d.initEnd > 0:
			case old:
				d.buildEnd = vf.Choice("build_end", 7)
			case d.form < fmCreate:
				d.buildEnd = vf.Choice("build_end", 2)
			}
			if d.form == fmDelete {
			} else if d.form == fmCreate {
				d.end = []int{0, 5}[vf.Choice("end", 2)]
			} else if d.initEnd == 0 && (d.buildEnd < 2 || d.buildEnd == 6) {
				d.end = vf.Choice("end", 6)
			}
			if old && id == "C12" {
				d.out = vf.Choice("output", 4)
			}
			ne, nr := 0, 0
			if id == "C12" {
				ne = 2 * vf.Choice("engine_hooks", 2)
				if d.form < fmCreate {
					nr = vf.Choice("run_hooks", 2)
				}
			}
			hook := func(tag string) ddd.Option {
				return ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) {
					w.add(Op{Kind: "post", Key: tag, Res: res, InTx: w.tx > 0})
				})
			}
			var opts, ro []ddd.Option
			for i := 0; i < ne; i++ {
				opts = append(opts, hook(fmt.Sprint("e", i)))
			}
			if nr > 0 {
				ro = append(ro, hook("r"))
			}
			w.failAt = vf.Int("failAt", 0, 10)
			eng := w.engine(w.bus(false), opts...)
			var res *ddd.Result
			pan := guarded(func() { res = d.run(ctx, eng, ro) })
			tr := w.trace()

			// what the run should have come to
			blew := d.end == 4 && d.reached
			broke := d.initEnd == 2 || d.ended != nil && errors.Is(d.ended, ddd.ErrBreak)
			refused := d.initEnd == 1 || d.ended != nil && !broke || d.end == 5 && (d.form >= fmCreate || d.reached) || d.buildEnd == 4 && w.count("body") > 0
			late := 0
			for _, f := range w.failed {
				if f != "unlock" && f != "rollback" {
					late++
				}
			}
			vf.Assert((pan != nil) == blew, "a panic is lost or comes from nowhere: "+tr)
			ok := pan == nil && !broke && !refused && late == 0
			if pan == nil {
				switch {
				case refused || late > 0:
					vf.Assert(res.Error != nil, "a failure is not reported: "+tr)
				case broke:
					vf.Assert(res.Error == nil && res.Break, "a break is not reported as such: "+tr)
					vf.Reach("break")
				default:
					vf.Assert(res.Error == nil && !res.Break, "a success is not reported as such: "+tr)
					vf.Reach("success")
				}
				if d.initEnd == 1 || d.ended == errBody {
					vf.Assert(errors.Is(res.Error, errBody), "the business error is not what is reported")
				}
			}
			if d.initEnd > 0 {
				for _, o := range w.ops {
					vf.Assert(o.Kind == "init", "a command whose Init ends it goes on: "+tr)
				}
				vf.Reach("not begun")
				return
			}
			if id == "C01" {
				begins, ends := 0, 0
				for _, o := range w.ops {
					switch o.Kind {
					case "begin":
						begins++
						vf.Assert(begins == 1, "a second transaction is opened: "+tr)
						if !o.OK {
							ends = 1
						}
					case "exec", "query", "body":
						vf.Assert(begins == 1 && ends == 0 && o.InTx, "a "+o.Kind+" runs outside the transaction: "+tr)
					case "commit", "rollback":
						ends++
						vf.Assert(ends == 1 && o.InTx, "the transaction is ended twice or by another: "+tr)
						if o.Kind == "commit" {
							vf.Assert(!broke && !refused && !blew, "a failed command is committed: "+tr)
						}
					}
				}
				vf.Assert(begins == ends, "the transaction is left open: "+tr)
				if ok {
					vf.Assert(w.count("commit") == 1, "a successful command is not committed: "+tr)
				}
			}
			// the locks
			got := 0
			for _, o := range w.ops {
				switch o.Kind {
				case "lock":
					if o.OK {
						got++
					}
				case "unlock":
					got--
				case "begin", "body", "exec", "query", "commit", "rollback":
					vf.Assert(got == len(d.keys), "a "+o.Kind+" happens without all locks: "+tr)
				}
			}
			vf.Assert(got == 0, "a lock is not released: "+tr)

			// what was written
			if ok && d.form < fmCreate {
				kinds := map[string]int{}
				for _, o := range w.ops {
					if o.Kind != "exec" {
						continue
					}
					for _, m := range o.Action.Models {
						kinds[fmt.Sprint(o.Action.Op, poOf(m).Of)]++
					}
				}
				want := map[string]int{fmt.Sprint(ddd.OpInsert, "fresh"): 1}
				if d.root != nil {
					want[fmt.Sprint(ddd.OpUpdate, "r")] = 1
					want[fmt.Sprint(ddd.OpDelete, "a")] = 1
				}
				if d.buildEnd == 6 {
					want[fmt.Sprint(ddd.OpDelete, "second")] = 1
				}
				vf.Assert(fmt.Sprint(kinds) == fmt.Sprint(want), "the command writes "+fmt.Sprint(kinds)+" instead of "+fmt.Sprint(want)+": "+tr)
				if old {
					n := 0
					if d.root != nil {
						n = 1
						vf.Assert(len(d.got) > 0 && d.got[0] == ddd.IEntity(d.root), "Act does not get the roots that were built")
					}
					if d.buildEnd == 6 {
						n = 2
					}
					vf.Assert(len(d.got) == n, "Act does not get the roots that were built")
				}
			}
			if ok && d.form >= fmCreate {
				n := 0
				for _, o := range w.ops {
					if o.Kind == "exec" {
						n += len(o.Action.Models)
						vf.Assert(o.Action.Op == ddd.OpInsert && d.form == fmCreate || o.Action.Op == ddd.OpDelete && d.form == fmDelete, "a create or delete does something else: "+tr)
					}
				}
				vf.Assert(n == 2-(d.form-fmCreate), "a create or delete does not do all: "+tr)
			}
			if !ok && d.form >= fmCreate && refused {
				vf.Assert(w.writes() == 0, "a refused create or delete writes: "+tr)
			}
			if d.acted {
				vf.Assert(d.buildEnd < 2 || d.buildEnd == 6, "Act runs although the build failed")
			}

			// the hooks, and the result
			if id != "C12" {
				return
			}
			want := map[string]int{}
			if pan == nil && res.Error == nil {
				for i := 0; i < ne; i++ {
					want[fmt.Sprint("e", i)] = 1
				}
				if nr > 0 {
					want["r"] = 1
				}
				if inits {
					want["own"] = 1
				}
			}
			hooks := map[string]int{}
			for i, o := range w.ops {
				if o.Kind != "post" {
					continue
				}
				hooks[o.Key]++
				vf.Assert(o.Res == res, "a post-save hook gets another result than the caller: "+tr)
				vf.Assert(!o.InTx && i > w.lastIndex("unlock") && i > w.lastIndex("commit"), "a post-save hook runs too early: "+tr)
			}
			vf.Assert(fmt.Sprint(hooks) == fmt.Sprint(want), "the post-save hooks are "+fmt.Sprint(hooks)+" instead of "+fmt.Sprint(want)+": "+tr)
			if ok {
				if d.out > 0 {
					vf.Assert(res.Output == any("out"), "the output of the command is lost")
					vf.Reach("output")
				} else {
					vf.Assert(res.Output == nil, "an output appears that nobody set")
				}
				vf.Assert(len(res.Actions) == w.writes(), "the result does not list what was done")
			}
		})
	}
	forms("C01.forms", "C01")
	forms("C12.forms", "C12")
}
