package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// SolverStats is shared by all workers.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks, Errors int64
	Nanos                                              int64
	Cross, CrossDisagree                               int64
}

type level struct {
	lit  *Term
	vars []*Term
}

type Solver struct {
	path    string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	em      *emitter
	stack   []level
	bound   map[*Term]bool
	stats   *SolverStats
	timeout int // ms for the incremental solver
	fbSecs  int
	sent    int
	err     bool
	dead    time.Time // overall deadline
}

func newSolver(stats *SolverStats, timeoutMs, fbSecs int) *Solver {
	s := &Solver{stats: stats, timeout: timeoutMs, fbSecs: fbSecs}
	s.start()
	return s
}

var solverPath = func() string {
	if p := os.Getenv("GOSYM_SOLVER"); p != "" {
		return p
	}
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}()

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	if solverPath == "cvc5" {
		args = []string{"--lang=smt2", "--incremental", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(solverPath, args...)
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.em = &emitter{defined: map[*Term]string{}, out: s.send}
	s.stack = nil
	s.bound = map[*Term]bool{}
	s.sent = 0
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n")
	if solverPath != "cvc5" {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	} else {
		s.send("(set-option :produce-models true)\n")
	}
	s.send("(set-logic ALL)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.WriteString("(exit)\n")
		s.in.Flush()
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	s.sent += len(x)
	s.in.WriteString(x)
}

func (s *Solver) assert(t *Term) []*Term {
	var nv []*Term
	for _, v := range collectVars(t) {
		if !s.bound[v] {
			s.bound[v] = true
			nv = append(nv, v)
			r := s.em.ref(v)
			s.send("(assert (and (<= " + smtInt(v.lo) + " " + r + ") (<= " + r + " " + smtInt(v.hi) + ")))\n")
		}
	}
	s.send("(assert " + s.em.ref(t) + ")\n")
	return nv
}

func (s *Solver) push(t *Term) {
	// define outside is fine: declarations are global
	s.send("(push 1)\n")
	nv := s.assert(t)
	s.stack = append(s.stack, level{t, nv})
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	for i := 0; i < n; i++ {
		l := s.stack[len(s.stack)-1]
		for _, v := range l.vars {
			delete(s.bound, v)
		}
		s.stack = s.stack[:len(s.stack)-1]
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
}

func (s *Solver) sync(asserts []*Term) {
	n := 0
	for n < len(asserts) && n < len(s.stack) && s.stack[n].lit == asserts[n] {
		n++
	}
	s.pop(len(s.stack) - n)
	for _, t := range asserts[n:] {
		s.push(t)
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			atomic.AddInt64(&s.stats.Errors, 1)
			s.err = true
			fmt.Fprintln(os.Stderr, "solver:", l)
			continue
		}
		return l, nil
	}
}

// Check decides satisfiability of asserts plus extra. On Sat a model of all mentioned variables is
// returned.
func (s *Solver) Check(asserts []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&s.stats.Nanos, int64(d))
		if dir := os.Getenv("GOSYM_SLOW"); dir != "" && d > 60*time.Millisecond {
			txt, _ := script(asserts, extra, false)
			os.WriteFile(fmt.Sprintf("%s/s%d_%d.smt2", dir, d.Milliseconds(), atomic.LoadInt64(&s.stats.Queries)), []byte(txt), 0o644)
		}
	}()
	atomic.AddInt64(&s.stats.Queries, 1)
	if s.sent > 1000000 {
		s.stop()
		s.start()
	}
	s.err = false
	s.sync(asserts)
	if extra != nil {
		s.push(extra)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	l, err := s.readLine()
	res := Unknown
	if err != nil {
		atomic.AddInt64(&s.stats.Errors, 1)
		s.stop()
		s.start()
		atomic.AddInt64(&s.stats.UnknownN, 1)
		return Unknown, nil
	}
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	if s.err {
		res = Unknown
	}
	var m Model
	if res == Sat {
		m = s.getModel()
		if m == nil {
			res = Unknown
		}
	}
	if extra != nil && s.cmd != nil && len(s.stack) > 0 {
		s.pop(1)
	}
	if res == Unknown {
		atomic.AddInt64(&s.stats.Fallbacks, 1)
		res, m = s.fallback(asserts, extra)
	}
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	return res, m
}

func (s *Solver) getModel() Model {
	m := Model{}
	var names []string
	var vs []*Term
	for _, l := range s.stack {
		for _, v := range l.vars {
			names = append(names, s.em.ref(v))
			vs = append(vs, v)
		}
	}
	for len(vs) > 0 {
		n := len(vs)
		if n > 200 {
			n = 200
		}
		s.send("(get-value (" + strings.Join(names[:n], " ") + "))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			return nil
		}
		vals := parseValues(txt)
		if len(vals) != n {
			return nil
		}
		for i := 0; i < n; i++ {
			m[vs[i].name] = vals[i]
		}
		names, vs = names[n:], vs[n:]
	}
	return m
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((|a| 1) (|b| (- 2))) and returns the values in order.
func parseValues(txt string) []*big.Int {
	var out []*big.Int
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	skip()
	if i >= len(txt) || txt[i] != '(' {
		return nil
	}
	i++
	for {
		skip()
		if i >= len(txt) || txt[i] == ')' {
			return out
		}
		i++ // (
		skip()
		if txt[i] == '|' {
			i++
			for txt[i] != '|' {
				i++
			}
			i++
		} else {
			for txt[i] != ' ' {
				i++
			}
		}
		skip()
		j := i
		depth := 0
		for {
			if txt[j] == '(' {
				depth++
			} else if txt[j] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
			j++
		}
		v := strings.TrimSpace(txt[i:j])
		neg := false
		if strings.HasPrefix(v, "(-") {
			neg = true
			v = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(v, "(-"), ")"))
		}
		b, ok := new(big.Int).SetString(v, 10)
		if !ok {
			return nil
		}
		if neg {
			b.Neg(b)
		}
		out = append(out, b)
		i = j + 1
	}
}

// script renders a standalone problem.
func script(asserts []*Term, extra *Term, model bool) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	em := &emitter{defined: map[*Term]string{}, out: func(x string) { sb.WriteString(x) }}
	bound := map[*Term]bool{}
	var vs []*Term
	all := append([]*Term{}, asserts...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		for _, v := range collectVars(t) {
			if !bound[v] {
				bound[v] = true
				vs = append(vs, v)
				r := em.ref(v)
				sb.WriteString("(assert (and (<= " + smtInt(v.lo) + " " + r + ") (<= " + r + " " + smtInt(v.hi) + ")))\n")
			}
		}
		ref := em.ref(t)
		sb.WriteString("(assert " + ref + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if model && len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vs {
			sb.WriteString(em.ref(v) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String(), vs
}

func runStandalone(ctx context.Context, bin string, args []string, txt string, secs int) (Result, string) {
	ctx, cancel := context.WithTimeout(ctx, time.Duration(secs)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(txt)
	o, _ := cmd.Output()
	out := string(o)
	if strings.Contains(out, "(error") && !strings.HasPrefix(out, "unsat") {
		return Unknown, ""
	}
	i := strings.IndexByte(out, '\n')
	if i < 0 {
		return Unknown, ""
	}
	switch strings.TrimSpace(out[:i]) {
	case "sat":
		return Sat, out[i+1:]
	case "unsat":
		return Unsat, ""
	}
	return Unknown, ""
}

// fallback runs the other installed solvers on a standalone script, in parallel.
func (s *Solver) fallback(asserts []*Term, extra *Term) (Result, Model) {
	txt, vs := script(asserts, extra, true)
	if os.Getenv("GOSYM_DUMP") != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", os.Getenv("GOSYM_DUMP"), atomic.LoadInt64(&s.stats.Fallbacks)), []byte(txt), 0o644)
	}
	secs := s.fbSecs
	if !s.dead.IsZero() {
		left := int(time.Until(s.dead).Seconds())
		if left < 1 {
			return Unknown, nil
		}
		if left < secs {
			secs = left
		}
	}
	type ans struct {
		r   Result
		out string
	}
	ch := make(chan ans, 3)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	runs := []struct {
		bin  string
		args []string
	}{{"z3-new", []string{"-in", "-smt2"}}, {"z3", []string{"-in", "-smt2"}}, {"cvc5", []string{"--lang=smt2", "-"}}}
	for _, r := range runs {
		r := r
		go func() {
			res, out := runStandalone(ctx, r.bin, r.args, txt, secs)
			ch <- ans{res, out}
		}()
	}
	for range runs {
		a := <-ch
		if a.r == Unsat {
			return Unsat, nil
		}
		if a.r == Sat {
			vals := parseValues(a.out)
			if len(vals) != len(vs) {
				continue
			}
			m := Model{}
			for i, v := range vs {
				m[v.name] = vals[i]
			}
			return Sat, m
		}
	}
	return Unknown, nil
}

// CrossCheck runs the query through a second solver and records disagreement.
func (s *Solver) CrossCheck(asserts []*Term, extra *Term, expect Result) {
	txt, _ := script(asserts, extra, false)
	r, _ := runStandalone(context.Background(), "cvc5", []string{"--lang=smt2", "-"}, txt, 20)
	if r == Unknown {
		return
	}
	atomic.AddInt64(&s.stats.Cross, 1)
	if r != expect {
		atomic.AddInt64(&s.stats.CrossDisagree, 1)
		fmt.Fprintln(os.Stderr, "solver disagreement")
	}
}
