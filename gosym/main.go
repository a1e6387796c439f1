package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	dir := flag.String("dir", "/verif/harness", "harness module")
	repo := flag.String("repo", "/repo", "repository")
	names := flag.String("h", "", "harnesses to run, comma separated")
	nw := flag.Int("w", runtime.NumCPU(), "workers")
	limit := flag.Duration("t", 5*time.Minute, "time limit per harness")
	verbose := flag.Bool("v", false, "print every path")
	tier := flag.Int("tier", 0, "0 quick, 1 thorough")
	maxViol := flag.Int("maxviol", 20, "stop after that many violating paths")
	debug := flag.Bool("debug", false, "crash on internal errors")
	list := flag.Bool("list", false, "list harnesses")
	funcs := flag.Bool("funcs", false, "print the functions encoded")
	verifDir := flag.String("verif", "/verif", "directory of the framework")
	checkProp := flag.String("check", "", "decide this property")
	tierName := flag.String("tiername", os.Getenv("VERIF_TIER"), "quick or thorough, for -check")
	replay := flag.String("replay", "", "replay this counterexample natively")
	forks := flag.Bool("forks", false, "print where the search forks")
	flag.Parse()
	if *forks {
		forkProf = &forkProfile{n: map[string]int{}}
		defer forkProf.print()
	}
	if *checkProp != "" {
		os.Exit(check(*checkProp, *tierName, *verifDir, *dir, *repo, *nw))
	}
	if *replay != "" {
		os.Exit(replayFile(*replay, *dir))
	}
	st := time.Now()
	ex, err := loadProgram(*dir, *repo, "./cmd/all")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ex.debug = *debug
	ex.tier = *tier
	ex.maxViol = *maxViol
	ex.verbose = *verbose
	t1 := time.Since(st)
	ws, err := ex.newWorkers(*nw)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("load %v, init %v\n", t1, time.Since(st)-t1)
	if *debug {
		for n := range ex.initNotes {
			fmt.Println("init note:", n)
		}
	}
	all := ws[0].harnessList()
	if *list {
		fmt.Println(strings.Join(all, "\n"))
		return
	}
	for _, h := range all {
		ok := false
		for _, n := range strings.Split(*names, ",") {
			if n == h || strings.HasSuffix(n, "*") && strings.HasPrefix(h, strings.TrimSuffix(n, "*")) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		clearHits()
		if f := os.Getenv("GOSYM_HEAP"); f != "" {
			go func() {
				time.Sleep(15 * time.Second)
				runtime.GC()
				w, _ := os.Create(f)
				pprof.WriteHeapProfile(w)
				w.Close()
			}()
		}
		r := ex.explore(ws, h, *limit)
		printResult(r)
		if *funcs {
			fmt.Println("  funcs:", strings.Join(ex.hitFuncs(), " "))
		}
	}
}

func printResult(r *Result) {
	fmt.Printf("%s: paths=%d done=%d pruned=%d dec=%d steps=%d asserts=%d queries=%d (sat %d unsat %d unk %d) solver=%v wall=%v timeout=%v\n", r.Harness, r.Paths, r.Done, r.Pruned, r.Decisions, r.Steps, r.Asserts, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverTime.Round(time.Millisecond), r.Wall.Round(time.Millisecond), r.TimedOut)
	fmt.Println("  reached:", r.Reached)
	for k, n := range r.Incomplete {
		fmt.Printf("  incomplete %d: %s\n", n, k)
	}
	for _, v := range r.Viol {
		fmt.Printf("  VIOL %s (%d): %s %v %v\n%s\n", v.Kind, r.violSeen[v.Msg], v.Msg, v.Inputs, v.Log, v.Where)
	}
}
