package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental z3 process.
type Solver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	inC    io.WriteCloser
	out    *bufio.Reader
	tt     *TermTable
	ndecl  int
	levels [][]*Term
	depth  int
	log    io.Writer

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	Asserted int
}

func newSolver(tt *TermTable) (*Solver, error) {
	bin := os.Getenv("GOSYM_Z3")
	if bin == "" {
		bin = "z3"
	}
	cmd := exec.Command(bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Solver{cmd: cmd, in: bufio.NewWriterSize(in, 1<<16), inC: in, out: bufio.NewReaderSize(out, 1<<16), tt: tt}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.CreateTemp(p, "smt-*.smt2")
		s.log = f
	}
	s.send("(set-option :global-declarations true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	return s, nil
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) Close() {
	s.send("(exit)\n")
	s.in.Flush()
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func vname(t *Term) string { return "v" + strconv.Itoa(t.id) }

// ref returns the SMT-LIB text for t, defining shared subterms globally first.
func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case "const":
		if t.W == 0 {
			if t.K != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.K, t.W)
	case "var":
		if !t.defd {
			t.defd = true
			s.send(fmt.Sprintf("(declare-const %s %s)\n", vname(t), sortOf(t.W)))
		}
		return vname(t)
	}
	n := "t" + strconv.Itoa(t.id)
	if t.defd {
		return n
	}
	var as []string
	for _, a := range t.A {
		as = append(as, s.ref(a))
	}
	op := t.Op
	switch op {
	case "extract":
		op = fmt.Sprintf("(_ extract %d %d)", t.K>>8, t.K&255)
	case "zero_extend", "sign_extend":
		op = fmt.Sprintf("(_ %s %d)", op, t.K)
	}
	s.send(fmt.Sprintf("(define-fun %s () %s (%s %s))\n", n, sortOf(t.W), op, strings.Join(as, " ")))
	t.defd = true
	return n
}

func (s *Solver) Push() {
	s.send("(push 1)\n")
	s.depth++
	s.levels = append(s.levels, nil)
}

func (s *Solver) Pop(n int) {
	if n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.depth -= n
		for i := 0; i < n; i++ {
			for _, v := range s.levels[len(s.levels)-1] {
				v.ranged = false
			}
			s.levels = s.levels[:len(s.levels)-1]
		}
	}
}

// assertRange states the declared range of a variable in the current scope, once.
func (s *Solver) assertRange(v *Term) {
	if v.ranged || v.hi >= mask(v.W) {
		return
	}
	// bypasses the simplifier, which already assumes the range
	s.Assert(s.tt.mk("bvule", 0, 0, v, s.tt.Const(v.W, v.hi)))
	v.ranged = true
	if s.depth > 0 {
		s.levels[s.depth-1] = append(s.levels[s.depth-1], v)
	}
}

func (s *Solver) Assert(t *Term) {
	if t == s.tt.T {
		return
	}
	r := s.ref(t)
	s.send("(assert " + r + ")\n")
	s.Asserted++
}

// slowQuery (GOSYM_SLOW, a duration) is the time from which queries are printed, to see what is hard.
var slowQuery, _ = time.ParseDuration(os.Getenv("GOSYM_SLOW"))

// Check returns "sat", "unsat" or "unknown" for the current assertions plus extra (in a scratch scope), and a model if sat.
func (s *Solver) Check(extra *Term, wantModel bool) (string, Model) {
	st := time.Now()
	defer func() {
		d := time.Since(st)
		s.Time += d
		if slowQuery > 0 && d > slowQuery && extra != nil {
			fmt.Fprintf(os.Stderr, "slow query %v: %s\n", d.Round(time.Millisecond), extra)
		}
	}()
	s.Queries++
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)\n(assert " + r + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res := s.line()
	var m Model
	switch res {
	case "sat":
		s.Sat++
		if wantModel {
			m = s.model()
		}
	case "unsat":
		s.Unsat++
	default:
		if res != "unknown" && res != "timeout" {
			panic("solver said: " + res)
		}
		s.Unknown++
		res = "unknown"
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic("solver died: " + err.Error() + " " + l)
	}
	return strings.TrimSpace(l)
}

func (s *Solver) model() Model {
	m := Model{}
	var vs []*Term
	for _, v := range s.tt.vars {
		if v.defd {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(vname(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read balanced sexpr
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died in get-value")
		}
		txt.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 {
			break
		}
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt.String()))
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[vname(v)] = v
	}
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		x := toks[i+1]
		var n uint64
		switch {
		case x == "true":
			n = 1
		case x == "false":
			n = 0
		case strings.HasPrefix(x, "#x"):
			n, _ = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			n, _ = strconv.ParseUint(x[2:], 2, 64)
		case x == "(" && i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
			n, _ = strconv.ParseUint(toks[i+3][2:], 10, 64)
		}
		m[v] = n
	}
	return m
}
