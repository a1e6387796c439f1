package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Explorer holds the program and drives the workers.
type Explorer struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	debug    bool
	maxSteps int64
	repoPath string
	modPath  string

	natives   map[string]Native
	models    map[string]*ssa.Function
	gidx      map[*ssa.Global]int
	glist     []*ssa.Global
	initOrder []*ssa.Package

	rtErrorType    *RT
	rtPlainErrType *RT
	rtypeRT        *RT // *reflect.rtype
	rtypeLiteRT    *RT // internal/reflectlite.rtype

	// run state
	deadline time.Time
	stop     atomic.Bool
	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]dec
	idle     int
	nworkers int
	finished bool
	idleN    atomic.Int32
	queueN   atomic.Int32
	unknowns atomic.Int64

	harness      string
	res          *Result
	tier         int
	maxViol      int
	verbose      bool
	nsample      int
	rnd          *rand.Rand
	known        func(harness, msg string) bool
	initNotes    map[string]bool
	harnessNames map[string]bool
}

// Violation is a counterexample.
type Violation struct {
	Msg    string            `json:"msg"`
	Kind   string            `json:"kind"`
	Where  string            `json:"where,omitempty"`
	Inputs map[string]uint64 `json:"inputs"`
	Log    []string          `json:"log,omitempty"`
}

// Result is what one harness run covered.
type Result struct {
	Harness    string
	Paths      int64
	Done       int64
	Pruned     int64
	Decisions  int64
	Steps      int64
	Asserts    int64
	Incomplete map[string]int
	Reached    map[string]int
	Viol       []*Violation
	violSeen   map[string]int
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	SolverTime time.Duration
	Wall       time.Duration
	TimedOut   bool
	Vars       map[string]string
	Sample     []map[string]uint64
}

const harnessModule = "verifharness"

func loadProgram(dir, repo string, patterns ...string) (*Explorer, error) {
	env := append(os.Environ(), "CGO_ENABLED=0", "GOEXPERIMENT=nojsonv2", "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ex := &Explorer{prog: prog, pkgs: pkgs, maxSteps: 400_000_000, repoPath: "github.com/bytedance/dddfirework", models: map[string]*ssa.Function{}, gidx: map[*ssa.Global]int{}, initNotes: map[string]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.natives = map[string]Native{}
	registerNatives(ex)
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		var ms []string
		for n := range p.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		for _, n := range ms {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				ex.gidx[g] = len(ex.glist)
				ex.glist = append(ex.glist, g)
			}
		}
	}
	// topological order of packages
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if sp := prog.Package(p); sp != nil {
			ex.initOrder = append(ex.initOrder, sp)
		}
	}
	for _, p := range all {
		visit(p.Pkg)
	}
	ex.rtErrorType = ex.namedRT("runtime", "errorString")
	ex.rtPlainErrType = ex.namedRT("runtime", "plainError")
	if p := prog.ImportedPackage("reflect"); p != nil {
		ex.rtypeRT = ex.namedRT("reflect", "rtype").PtrTo()
	}
	if p := prog.ImportedPackage("internal/reflectlite"); p != nil {
		ex.rtypeLiteRT = ex.namedRT("internal/reflectlite", "rtype")
	}
	if mp := prog.ImportedPackage(harnessModule + "/models"); mp != nil {
		m := mp.Members
		for n, mem := range m {
			f, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			if k, ok := modelNames[n]; ok {
				ex.models[k] = f
			}
		}
	}
	return ex, nil
}

func (ex *Explorer) namedRT(pkg, name string) *RT {
	p := ex.prog.ImportedPackage(pkg)
	if p == nil {
		panic("package not loaded: " + pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic("type not found: " + pkg + "." + name)
	}
	return rtOf(o.Type())
}

func (ex *Explorer) globalIndex(g *ssa.Global) int {
	i, ok := ex.gidx[g]
	if !ok {
		panic(unsup{"unknown global " + g.String()})
	}
	return i
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (ex *Explorer) findNative(fn *ssa.Function) Native {
	k := fnKey(fn)
	if n, ok := ex.natives[k]; ok {
		return n
	}
	if k == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		rt := rtOf(fn.TypeArgs()[0])
		return func(w *W, a []Value) Value { return w.ex.mkType(rt) }
	}
	if k == "reflect.TypeAssert" && len(fn.TypeArgs()) == 1 {
		rt := rtOf(fn.TypeArgs()[0])
		return func(w *W, a []Value) Value {
			r := rv(a[0])
			if r == nil {
				w.valPanic("reflect.TypeAssert", nil)
			}
			v, ok := w.typeAssert(ifaceOf(r.t, r.get()), rt)
			if !ok {
				v = zeroOf(rt)
			}
			return tuple(v, vBool(ok))
		}
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return func(w *W, a []Value) Value { return Value{} }
	}
	if fn.Pkg != nil || fn.Origin() != nil {
		p := ""
		if fn.Pkg != nil {
			p = fn.Pkg.Pkg.Path()
		}
		switch p {
		case "github.com/go-logr/logr", "github.com/go-logr/stdr", "log":
			return logNative(fn)
		}
	}
	return nil
}

func (ex *Explorer) findModel(fn *ssa.Function) *ssa.Function {
	if len(ex.models) == 0 {
		return nil
	}
	return ex.models[fnKey(fn)]
}

func (ex *Explorer) pkgOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (ex *Explorer) isRepoFn(fn *ssa.Function) bool {
	p := ex.pkgOf(fn)
	return p == ex.repoPath || strings.HasPrefix(p, ex.repoPath+"/")
}

func (ex *Explorer) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := ex.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return ex.prog.MethodValue(sel)
}

func (ex *Explorer) expired() bool {
	if ex.stop.Load() {
		return true
	}
	if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		ex.stop.Store(true)
		ex.mu.Lock()
		if ex.res != nil {
			ex.res.TimedOut = true
		}
		ex.mu.Unlock()
		return true
	}
	return false
}

func (ex *Explorer) noteUnknown() { ex.unknowns.Add(1) }

func (ex *Explorer) wantWork() bool {
	return ex.idleN.Load() > ex.queueN.Load()
}

func (ex *Explorer) donate(p []dec) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, p)
	ex.queueN.Store(int32(len(ex.queue)))
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) take() ([]dec, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.idle++
	ex.idleN.Store(int32(ex.idle))
	for {
		if ex.finished || ex.stop.Load() {
			ex.finished = true
			ex.cond.Broadcast()
			return nil, false
		}
		if len(ex.queue) > 0 {
			// the oldest prefix is the shortest: largest subtree
			p := ex.queue[0]
			ex.queue = ex.queue[1:]
			ex.queueN.Store(int32(len(ex.queue)))
			ex.idle--
			ex.idleN.Store(int32(ex.idle))
			return p, true
		}
		if ex.idle == ex.nworkers {
			ex.finished = true
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
}

var initDeny = []string{
	"runtime", "internal/abi", "internal/cpu", "internal/poll", "internal/godebug", "internal/godebugs", "internal/bisect", "internal/testlog",
	"internal/syscall", "internal/runtime", "internal/sync", "internal/synctest", "internal/chacha8rand", "internal/reflectlite", "internal/race", "internal/oserror/x",
	"internal/entropy", "internal/bytealg", "internal/goos", "internal/nettrace", "internal/singleflight", "internal/weak", "internal/exithook", "internal/coverage",
	"os", "syscall", "reflect", "crypto", "net", "vendor", "encoding/gob", "math/rand", "uuid", "unique", "weak", "iter", "github.com/rs/xid", "testing", "log", "mime", "hash/maphash", "encoding/json/v2", "encoding/json/jsontext", "encoding/json/internal",
	"flag", "golang.org/x/sys", "plugin", "embed", "compress",
}

func initDenied(p string) bool {
	if p == "encoding/json/internal/jsonwire" || p == "encoding/json/internal/jsonflags" || p == "internal/oserror" {
		return false
	}
	for _, d := range initDeny {
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return false
}

func newW(ex *Explorer, id int) (*W, error) {
	w := &W{ex: ex, id: id, tt: newTermTable(), counter: map[string]int{}, vars: map[string]*Term{}, side: map[any]any{}, hostObj: map[string]any{}, model: Model{}}
	w.globals = make([]Value, len(ex.glist))
	for i, g := range ex.glist {
		c := new(Value)
		if rt := rtOf(g.Type()).Elem(); rt.Kind != reflect.Array || rt.U.(*types.Array).Len() < 1<<20 || !initDenied(g.Pkg.Pkg.Path()) {
			*c = zeroOf(rt)
		} // else: scratch memory of the random number generator, 32 MB, never used
		w.globals[i] = Value{P: c}
	}
	w.inInit = true
	w.noTrail = true
	w.now = baseTime
	for _, p := range ex.initOrder {
		path := p.Pkg.Path()
		if initDenied(path) {
			continue
		}
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		f := ex.funcOf(fn)
		w.gs = []*G{{id: 0}}
		w.g = w.gs[0]
		w.fr = nil
		w.fr = w.newFrame(f, nil, nil, -1)
		w.g.top = w.fr
		w.pathSteps = w.steps
		why := w.runPath()
		if why != "done" {
			isStd := !strings.Contains(strings.Split(path, "/")[0], ".") && !strings.HasPrefix(path, harnessModule)
			if !isStd {
				return nil, fmt.Errorf("init of %s: %s", path, why)
			}
			ex.mu.Lock()
			ex.initNotes[path+": "+firstLine(why)] = true
			ex.mu.Unlock()
		}
	}
	w.inInit = false
	w.noTrail = false
	w.trail = nil
	w.gs = nil
	var err error
	w.sol, err = newSolver(w.tt)
	return w, err
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// startPath prepares the execution of the harness with the given decision prefix.
func (w *W) startPath(prefix []dec) {
	w.rollback(0)
	if w.sol.depth > 0 {
		w.sol.Pop(w.sol.depth)
	}
	w.stack = nil
	w.bits = nil
	w.prefix = prefix
	w.prefixI = 0
	w.counter = map[string]int{}
	w.model = Model{}
	w.now = baseTime
	w.timers = nil
	w.seqs = seqState{}
	w.pathLog = nil
	w.reachL = nil
	w.pathVars = nil
	w.pend = nil
	w.pendI = 0
	w.pathSteps = w.steps
	c := w.harnessClosure()
	w.gs = []*G{{id: 0}}
	w.g = w.gs[0]
	w.fr = nil
	w.fr = w.newFrame(c.Fn.asFrameFunc(), nil, c.Env, -1)
	w.g.top = w.fr
}

func (w *W) harnessClosure() *Closure {
	p := w.ex.prog.ImportedPackage(harnessModule + "/vf")
	g := p.Members["registry"].(*ssa.Global)
	cell := w.globals[w.ex.globalIndex(g)].P.(*Value)
	m, ok := cell.P.(*MapV)
	if !ok {
		panic("no harness registered")
	}
	for _, e := range m.ents {
		if s, _ := e.k.cstr(); s == w.ex.harness {
			return e.v.P.(*Closure)
		}
	}
	panic("harness not found: " + w.ex.harness)
}

func (w *W) harnessList() []string {
	p := w.ex.prog.ImportedPackage(harnessModule + "/vf")
	g := p.Members["registry"].(*ssa.Global)
	cell := w.globals[w.ex.globalIndex(g)].P.(*Value)
	m, _ := cell.P.(*MapV)
	var r []string
	if m != nil {
		for _, e := range m.ents {
			s, _ := e.k.cstr()
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

func (w *W) inputValues() map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range w.pathVars {
		x, ok := w.model[v]
		if !ok {
			x = v.lo
		}
		r[v.Name] = x
	}
	return r
}

func (w *W) finishPath(why string) {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.res
	r.Decisions += int64(w.pathDec)
	w.pathDec = 0
	r.Asserts += int64(w.pathAsserts)
	w.pathAsserts = 0
	switch {
	case why == "infeasible" || why == "assume":
		r.Pruned++
		return
	case why == "timeout":
		return
	}
	r.Paths++
	for _, l := range w.reachL {
		r.Reached[l]++
	}
	if w.ex.verbose {
		fmt.Printf("path %d: %s steps=%d log=%v\n", r.Paths, firstLine(why), w.steps-w.pathSteps, w.pathLog)
	}
	kind := ""
	msg := why
	switch {
	case why == "done":
		r.Done++
		if len(r.Sample) < ex.nsample {
			r.Sample = append(r.Sample, w.inputValues())
		} else if ex.nsample > 0 {
			// reservoir
			if i := ex.rnd.Int63n(r.Done); i < int64(ex.nsample) {
				r.Sample[i] = w.inputValues()
			}
		}
		return
	case strings.HasPrefix(why, "violation: "):
		kind = "assert"
		msg = strings.TrimPrefix(why, "violation: ")
	case strings.HasPrefix(why, "panic: "):
		kind = "panic"
	case strings.HasPrefix(why, "deadlock"):
		kind = "deadlock"
	case strings.HasPrefix(why, "livelock"):
		kind = "livelock"
	default:
		if len(r.Incomplete) < 40 {
			r.Incomplete[why]++
		}
		return
	}
	key := firstLine(msg)
	r.violSeen[key]++
	if r.violSeen[key] <= 3 {
		v := &Violation{Msg: key, Kind: kind, Inputs: w.inputValues(), Log: append([]string(nil), w.pathLog...)}
		if i := strings.IndexByte(msg, '\n'); i >= 0 {
			v.Where = msg[i+1:]
		}
		r.Viol = append(r.Viol, v)
	}
	total := 0
	for k, n := range r.violSeen {
		if ex.known == nil || !ex.known(r.Harness, k) {
			total += n
		}
	}
	if ex.maxViol > 0 && total >= ex.maxViol {
		ex.stop.Store(true)
		ex.cond.Broadcast()
	}
}

func (w *W) work() {
	for {
		p, ok := w.ex.take()
		if !ok {
			return
		}
		w.startPath(p)
		for {
			why := w.runPath()
			w.finishPath(why)
			if w.ex.stop.Load() {
				break
			}
			if !w.backtrack() {
				break
			}
		}
		if w.ex.stop.Load() {
			w.ex.mu.Lock()
			w.ex.finished = true
			w.ex.cond.Broadcast()
			w.ex.mu.Unlock()
			return
		}
	}
}

// explore runs one harness on the given workers.
func (ex *Explorer) explore(ws []*W, harness string, limit time.Duration) *Result {
	st := time.Now()
	ex.harness = harness
	ex.res = &Result{Harness: harness, Incomplete: map[string]int{}, Reached: map[string]int{}, violSeen: map[string]int{}, Vars: map[string]string{}}
	ex.queue = [][]dec{nil}
	ex.queueN.Store(1)
	ex.idle = 0
	ex.idleN.Store(0)
	ex.nworkers = len(ws)
	ex.finished = false
	ex.stop.Store(false)
	ex.unknowns.Store(0)
	ex.deadline = time.Time{}
	if limit > 0 {
		ex.deadline = st.Add(limit)
	}
	var wg sync.WaitGroup
	q0 := make([]Solver, len(ws))
	steps0 := int64(0)
	for i, w := range ws {
		q0[i] = *w.sol
		steps0 += w.steps
	}
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.work()
		}(w)
	}
	wg.Wait()
	for i, w := range ws {
		ex.res.Queries += w.sol.Queries - q0[i].Queries
		ex.res.Sat += w.sol.Sat - q0[i].Sat
		ex.res.Unsat += w.sol.Unsat - q0[i].Unsat
		ex.res.Unknown += w.sol.Unknown - q0[i].Unknown
		ex.res.SolverTime += w.sol.Time - q0[i].Time
		ex.res.Steps += w.steps
		for k, t := range w.vars {
			ex.res.Vars[k] = fmt.Sprintf("[%d,%d]", t.lo, t.hi)
		}
	}
	ex.res.Steps -= steps0
	ex.res.Wall = time.Since(st)
	return ex.res
}

func (ex *Explorer) newWorkers(n int) ([]*W, error) {
	ws := make([]*W, n)
	errs := make([]error, n)
	// the first worker compiles most functions
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ws[i], errs[i] = newW(ex, i)
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	runtime.GC()
	return ws, nil
}

// hitFuncs lists the functions of the code under test that were executed symbolically.
func (ex *Explorer) hitFuncs() []string {
	var r []string
	funcCache.Range(func(k, v any) bool {
		f := v.(*Func)
		if f.repo && f.hit != 0 && f.nat == nil {
			r = append(r, strings.ReplaceAll(f.name, ex.repoPath, "dddfirework"))
		}
		return true
	})
	sort.Strings(r)
	return r
}

func clearHits() {
	funcCache.Range(func(k, v any) bool {
		v.(*Func).hit = 0
		return true
	})
}

var _ = filepath.Join
