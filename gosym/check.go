package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// nativeEnv is the environment for building the harnesses natively: the same sources the engine loads.
func nativeEnv() []string {
	return append(os.Environ(), "CGO_ENABLED=0", "GOEXPERIMENT=nojsonv2", "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOTOOLCHAIN=local", "GOWORK=off")
}

type replayer struct {
	bin string
	err error
	ok  chan struct{}
}

func buildReplayer(dir, bin string) *replayer {
	r := &replayer{bin: bin, ok: make(chan struct{})}
	go func() {
		defer close(r.ok)
		c := exec.Command("go", "test", "-vet=off", "-c", "-o", bin, "./cmd/replay")
		c.Dir = dir
		c.Env = nativeEnv()
		if out, err := c.CombinedOutput(); err != nil {
			r.err = fmt.Errorf("building the replay: %v\n%s", err, out)
		}
	}()
	return r
}

type traceFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Tier     int               `json:"tier"`
	Kind     string            `json:"kind,omitempty"`
	Msg      string            `json:"msg,omitempty"`
	Where    string            `json:"where,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Inputs   map[string]uint64 `json:"inputs"`
	Replay   string            `json:"replay_cmd,omitempty"`
}

// run replays a trace natively and gives the verdict: kind and message.
func (r *replayer) run(path, harness string, limit time.Duration) (string, string) {
	<-r.ok
	if r.err != nil {
		return "error", r.err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, r.bin, "-test.run=^TestReplay$", "-test.count=1")
	c.Env = append(os.Environ(), "VF_HARNESS="+harness, "VF_INPUTS="+path)
	c.Dir = os.TempDir()
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.WaitDelay = time.Second
	err := c.Run()
	s := out.String()
	if i := strings.Index(s, "\nVERDICT "); i >= 0 {
		l := firstLine(s[i+9:])
		if j := strings.IndexByte(l, ' '); j >= 0 {
			return l[:j], l[j+1:]
		}
		return l, ""
	}
	if ctx.Err() != nil {
		return "hang", ""
	}
	if err != nil {
		for _, l := range strings.Split(s, "\n") {
			l = strings.TrimSpace(l)
			if strings.Contains(l, "all goroutines in bubble are blocked") || strings.HasPrefix(l, "fatal error: all goroutines are asleep") {
				return "deadlock", l
			}
		}
		for _, l := range strings.Split(s, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
				return "panic", l
			}
		}
	}
	return "error", "no verdict"
}

func sameVerdict(v *Violation, kind, msg string) bool {
	switch v.Kind {
	case "assert":
		return kind == "assert" && strings.TrimSpace(msg) == strings.TrimSpace(v.Msg)
	case "panic":
		return kind == "panic"
	case "deadlock":
		return kind == "deadlock" || kind == "hang"
	case "livelock":
		return kind == "hang"
	}
	return false
}

type finding struct {
	prop, harness, msg, text string
}

// knownFindings reads the recorded findings: lines "finding: property=<id> harness=<h> msg=<message> -- <what fails>".
func knownFindings(path string) []finding {
	var r []finding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := finding{}
		l = strings.TrimPrefix(l, "finding: ")
		if i := strings.Index(l, " -- "); i >= 0 {
			f.text = l[i+4:]
			l = l[:i]
		}
		if i := strings.Index(l, " msg="); i >= 0 {
			f.msg = l[i+5:]
			l = l[:i]
		}
		for _, p := range strings.Fields(l) {
			if s, ok := strings.CutPrefix(p, "property="); ok {
				f.prop = s
			}
			if s, ok := strings.CutPrefix(p, "harness="); ok {
				f.harness = s
			}
		}
		if f.prop != "" && f.harness != "" && f.msg != "" {
			r = append(r, f)
		}
	}
	return r
}

type harnessEvidence struct {
	Harness     string            `json:"harness"`
	Bounds      string            `json:"bounds,omitempty"`
	Vars        map[string]string `json:"symbolic_variables"`
	Paths       int64             `json:"paths"`
	Pruned      int64             `json:"paths_outside_assumptions"`
	Decisions   int64             `json:"decisions"`
	Asserts     int64             `json:"assertions_checked"`
	Steps       int64             `json:"ssa_instructions"`
	Queries     int               `json:"queries"`
	Sat         int               `json:"sat"`
	Unsat       int               `json:"unsat"`
	Unknown     int               `json:"unknown"`
	SolverS     float64           `json:"solver_s"`
	WallS       float64           `json:"wall_s"`
	Reached     map[string]int    `json:"reached,omitempty"`
	Incomplete  map[string]int    `json:"incomplete,omitempty"`
	TimedOut    bool              `json:"timed_out"`
	Complete    bool              `json:"complete_within_bounds"`
	Validated   int               `json:"traces_replayed_natively"`
	Mismatches  []string          `json:"engine_native_mismatches,omitempty"`
	Violations  []string          `json:"violations,omitempty"`
	Unconfirmed []string          `json:"counterexamples_not_reproduced,omitempty"`
}

// check decides one property: it explores every harness of the property, replays the counterexamples, writes the evidence.
func check(prop, tierName, verifDir, dir, repo string, nw int) int {
	st := time.Now()
	tier := 0
	budget := 500 * time.Second
	nsample := 6
	if tierName == "thorough" {
		tier = 1
		budget = 780 * time.Second
		nsample = 20
	} else {
		tierName = "quick"
	}
	if n, err := strconv.Atoi(os.Getenv("VF_SAMPLES")); err == nil {
		nsample = n
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	scratch, err := os.MkdirTemp("", "vf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	rp := buildReplayer(dir, filepath.Join(scratch, "replay.test"))
	ex, err := loadProgram(dir, repo, "./cmd/all")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ex.tier = tier
	ex.maxViol = 12
	ex.nsample = nsample
	ex.rnd = rand.New(rand.NewSource(int64(seed)))
	ws, err := ex.newWorkers(nw)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bounds := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(dir, "bounds.json")); err == nil {
		if err := json.Unmarshal(b, &bounds); err != nil {
			fmt.Fprintln(os.Stderr, "bounds.json:", err)
			return 2
		}
	}
	known := knownFindings(filepath.Join(verifDir, "KNOWN_FINDINGS"))
	ex.known = func(h, msg string) bool {
		for _, f := range known {
			if f.prop == prop && f.harness == h && f.msg == msg {
				return true
			}
		}
		return false
	}
	var hs []string
	for _, h := range ws[0].harnessList() {
		if strings.HasPrefix(h, prop+".") {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	outDir := filepath.Join(verifDir, "evidence", "replay", prop)
	os.RemoveAll(outDir)
	os.MkdirAll(outDir, 0o755)
	var evs []*harnessEvidence
	var samples []any
	funcs := map[string]bool{}
	confirmed := 0
	reported := map[string]bool{}
	knownSeen := map[string]bool{}
	end := st.Add(budget)
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		if i < len(hs)-1 {
			share = min(share*5/2, left*3/5)
		}
		if share < 10*time.Second {
			share = 10 * time.Second
		}
		clearHits()
		r := ex.explore(ws, h, share)
		for _, f := range ex.hitFuncs() {
			funcs[f] = true
		}
		e := &harnessEvidence{Harness: h, Bounds: bounds[h], Vars: r.Vars, Paths: r.Paths, Pruned: r.Pruned, Decisions: r.Decisions, Asserts: r.Asserts, Steps: r.Steps,
			Queries: r.Queries, Sat: r.Sat, Unsat: r.Unsat, Unknown: r.Unknown, SolverS: r.SolverTime.Seconds(), WallS: r.Wall.Seconds(),
			Reached: r.Reached, Incomplete: r.Incomplete, TimedOut: r.TimedOut}
		evs = append(evs, e)
		fmt.Printf("%s: %d paths, %d queries, %.1fs", h, r.Paths, r.Queries, r.Wall.Seconds())
		if r.TimedOut {
			fmt.Printf(", time limit reached")
		}
		for k, n := range r.Incomplete {
			fmt.Printf("\n  not decided (%d paths): %s", n, k)
		}
		fmt.Println()
		e.Complete = !r.TimedOut && len(r.Incomplete) == 0 && r.Unknown == 0 && len(r.Viol) == 0
		// counterexamples: replay against the real code
		for vi, v := range r.Viol {
			key := h + "\x00" + v.Msg
			if reported[key] || confirmed >= 3 && !ex.known(h, v.Msg) {
				continue
			}
			p := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", h, vi))
			tf := traceFile{Property: prop, Harness: h, Tier: tier, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Log: v.Log, Inputs: v.Inputs, Replay: "/verif/check replay " + p}
			writeJSON(p, tf)
			ok := false
			last := ""
			tries := 40
			for t := 0; t < tries; t++ {
				limit := 20 * time.Second
				kind, msg := rp.run(p, h, limit)
				last = kind + " " + msg
				if sameVerdict(v, kind, msg) {
					ok = true
					break
				}
				if kind == "error" || kind == "hang" {
					break
				}
			}
			if !ok {
				e.Unconfirmed = append(e.Unconfirmed, v.Kind+": "+v.Msg+" (natively: "+firstLine(last)+")")
				fmt.Printf("  counterexample not reproduced by the real code: %s (natively: %s)\n", v.Msg, firstLine(last))
				continue
			}
			reported[key] = true
			if ex.known(h, v.Msg) {
				for _, f := range known {
					if f.prop == prop && f.harness == h && f.msg == v.Msg && !knownSeen[f.text] {
						knownSeen[f.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
					}
				}
				continue
			}
			confirmed++
			e.Violations = append(e.Violations, v.Kind+": "+v.Msg)
			fmt.Printf("  %s: %s\n", v.Kind, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		if confirmed > 0 {
			break
		}
		// witnesses: paths the engine found fine are executed natively as well
		type res struct {
			s    map[string]uint64
			kind string
			msg  string
		}
		rs := make([]res, len(r.Sample))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for si, s := range r.Sample {
			wg.Add(1)
			go func(si int, s map[string]uint64) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				p := filepath.Join(scratch, fmt.Sprintf("%s-w%d.json", h, si))
				writeJSON(p, traceFile{Property: prop, Harness: h, Tier: tier, Inputs: s})
				k, m := rp.run(p, h, 30*time.Second)
				rs[si] = res{s, k, m}
			}(si, s)
		}
		wg.Wait()
		for si, x := range rs {
			if x.kind == "error" {
				fmt.Fprintln(os.Stderr, x.msg)
			}
			if x.kind == "done" {
				e.Validated++
			} else {
				p := filepath.Join(outDir, fmt.Sprintf("%s-mismatch%d.json", h, si))
				writeJSON(p, traceFile{Property: prop, Harness: h, Tier: tier, Inputs: x.s})
				e.Mismatches = append(e.Mismatches, fmt.Sprintf("%s %s: %s", x.kind, x.msg, p))
				fmt.Printf("  note: a path the engine completed ends natively with %s %s (%s)\n", x.kind, x.msg, p)
			}
			if si < 2 {
				samples = append(samples, map[string]any{"harness": h, "inputs": x.s, "native_verdict": x.kind})
			}
		}
	}
	var paths, decs, asserts, steps int64
	var queries, sat, unsat, unk, validated int
	var solver float64
	exhaustive := true
	var incomplete []string
	for _, e := range evs {
		paths += e.Paths
		decs += e.Decisions
		asserts += e.Asserts
		steps += e.Steps
		queries += e.Queries
		sat += e.Sat
		unsat += e.Unsat
		unk += e.Unknown
		solver += e.SolverS
		validated += e.Validated
		if !e.Complete {
			exhaustive = false
			incomplete = append(incomplete, e.Harness)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": prop, "tier": tierName, "seed": seed, "level": "model_checking", "wall_s": time.Since(st).Seconds(), "violations": confirmed,
		"coverage": map[string]any{
			"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"states_are":             "symbolic paths of the real code, each standing for all input values that follow it",
			"transitions_are":        "branches, schedule choices and fault choices decided on those paths",
			"assertions_checked":     asserts,
			"ssa_instructions":       steps,
			"functions_encoded":      fl,
			"queries":                queries,
			"queries_sat":            sat,
			"queries_unsat":          unsat,
			"queries_unknown":        unk,
			"solver":                 "z3 (SMT-LIB2, QF_BV), incremental",
			"solver_s":               solver,
			"harnesses":              evs,
			"complete_within_bounds": exhaustive,
			"not_complete":           incomplete,
			"known_findings_seen":    len(knownSeen),
		},
		"assumptions": []string{
			"the engine's semantics of Go SSA, of the modelled runtime, of reflect, time and sync natives (cross-checked by native replay of sampled paths)",
			"goroutines interleave at blocking operations and at the yield points of the harness' environment only (no data-race interleavings)",
			"bounds as stated per harness",
		},
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	writeJSON(filepath.Join(verifDir, "evidence", prop+".json"), ev)
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries (%d unsat, %.1fs solver), %d traces replayed natively, complete=%v, %.1fs\n", prop, tierName, paths, asserts, queries, unsat, solver, validated, exhaustive, time.Since(st).Seconds())
	if rp.err != nil {
		fmt.Fprintln(os.Stderr, rp.err)
		return 2
	}
	if confirmed > 0 {
		return 1
	}
	return 0
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replayFile replays one stored counterexample.
func replayFile(path, dir string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	path, _ = filepath.Abs(path)
	var tf traceFile
	if err := json.Unmarshal(b, &tf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "vf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	rp := buildReplayer(dir, filepath.Join(scratch, "replay.test"))
	for _, l := range tf.Log {
		fmt.Println(" ", l)
	}
	for i := 0; i < 40; i++ {
		kind, msg := rp.run(path, tf.Harness, 20*time.Second)
		fmt.Println(kind, msg)
		if kind != "done" && kind != "assume" {
			return 1
		}
	}
	return 0
}
