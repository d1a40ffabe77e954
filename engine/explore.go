package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A path is identified by its decisions. A worker re-executes a harness following a decision
// prefix and explores on from there; siblings that the solver finds feasible are queued.

type work struct {
	h      *Harness
	prefix []int32
	model  Model // a model of the prefix, if known
}

// StreamItem is one nondeterministic value in the order it was drawn.
type StreamItem struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	Term *Term  `json:"-"`
	Val  string `json:"v"`
}

type Obs struct {
	Label string
	Vals  []Value
	Kinds []kind
}

type hashApp struct {
	fn  string
	in  []Value
	out []Value
}

type sigApp struct {
	key  string
	hash []Value
	n    int
	out  []Value
}

type Interp struct {
	eng *Engine
	ts  *Terms
	sol *Solver
	run *Run

	// worker lifetime
	stdGlobals map[*ssa.Global]Ptr
	stdInit    map[*ssa.Package]bool
	cover      map[*cfn]bool

	// path state
	h         *Harness
	cur       ssa.Instruction
	fr        *frame
	globals   map[*ssa.Global]Ptr
	initDone  map[*ssa.Package]bool
	prefix    []int32
	taken     []int32
	pc        []*Term
	known     map[*Term]bool
	model     Model // satisfies pc when valid
	modelOK   bool
	ev        *evaluator
	stream    []StreamItem
	obs       []Obs
	names     map[string]int
	steps     int
	maxSteps  int
	depth     int
	hashes    []hashApp
	sigs      []sigApp
	digests   map[Ptr][]Value
	onces     map[Ptr]bool
	locks     map[Ptr]*lock
	sched     *sched
	fmtVals   []Value
	capture   *strings.Builder
	serve     Value
	shufMode  int
	reached   map[string]bool
	assertSeq int
	labels    []string
	initDepth int
	pubs      map[string]Value
	stdOnce   map[Ptr]bool
	sigLens   []int
	shufSel   int
	maxDec    int
}

type Harness struct {
	Name     string
	Fn       *ssa.Function
	Paths    int64
	Pruned   int64
	Asserts  int64
	Branches int64
	Incon    map[string]int64
	Reach    map[string]int64
	mu       sync.Mutex
	samples  []*Sample
	viols    []*Violation
	nsample  int64
	wall     time.Duration
	steps    int64
	stop     int32
	vtot     int
	queue    []work
	vnum     map[string]int
	known    map[string]int64

	reachWant []string
}

type Sample struct {
	Harness string
	Stream  []StreamItem
	Obs     []string
	Known   string
}

type Violation struct {
	Harness string
	Label   string
	Stream  []StreamItem
	Detail  string
	Kind    string
	Known   string
}

type Run struct {
	eng      *Engine
	stats    *SolverStats
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*Harness
	queued   int
	active   int
	deadline time.Time
	timedOut int32
	maxViol  int
	maxSteps int
	maxPaths int64
	sampleN  int
	crossN   int64
	crossMax int64
	timeout  int
	fbSecs   int
	errs     int32
	known    map[string]bool
}

func (r *Run) push(w work) {
	r.mu.Lock()
	w.h.queue = append(w.h.queue, w)
	r.queued++
	r.mu.Unlock()
	r.cond.Signal()
}

// pop takes the latest work of the harness that has used the least time.
func (r *Run) pop() work {
	var h *Harness
	for _, x := range r.hs {
		if len(x.queue) > 0 && (h == nil || atomic.LoadInt64((*int64)(&x.wall)) < atomic.LoadInt64((*int64)(&h.wall))) {
			h = x
		}
	}
	w := h.queue[len(h.queue)-1]
	h.queue = h.queue[:len(h.queue)-1]
	r.queued--
	return w
}

func (r *Run) explore(hs []*Harness, workers int) {
	r.cond = sync.NewCond(&r.mu)
	r.hs = hs
	for _, h := range hs {
		h.queue = append(h.queue, work{h: h, model: Model{}})
		r.queued++
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			it := &Interp{eng: r.eng, run: r}
			it.reset()
			defer func() { it.sol.stop() }()
			n := 0
			for {
				r.mu.Lock()
				for r.queued == 0 && r.active > 0 {
					r.cond.Wait()
				}
				if r.queued == 0 {
					r.mu.Unlock()
					r.cond.Broadcast()
					return
				}
				w := r.pop()
				r.active++
				r.mu.Unlock()
				if time.Now().After(r.deadline) {
					atomic.StoreInt32(&r.timedOut, 1)
					w.h.note("time limit: path not explored")
				} else if atomic.LoadInt32(&w.h.stop) != 0 {
				} else if w.h.Paths > r.maxPaths {
					w.h.note("path limit")
				} else {
					it.runPath(w)
				}
				n++
				if it.ts.next > 3_000_000 {
					it.sol.stop()
					it.reset()
				}
				r.mu.Lock()
				r.active--
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (it *Interp) reset() {
	it.ts = newTerms()
	it.sol = newSolver(it.run.stats, it.run.timeout, it.run.fbSecs)
	it.sol.dead = it.run.deadline
	it.stdGlobals = map[*ssa.Global]Ptr{}
	it.stdInit = map[*ssa.Package]bool{}
	it.cover = map[*cfn]bool{}
	it.pubs = map[string]Value{}
	it.stdOnce = map[Ptr]bool{}
}

func (h *Harness) note(s string) {
	h.mu.Lock()
	h.Incon[s]++
	h.mu.Unlock()
}

func (it *Interp) runPath(w work) {
	t0 := time.Now()
	h := w.h
	it.h = h
	it.globals = map[*ssa.Global]Ptr{}
	it.initDone = map[*ssa.Package]bool{}
	it.prefix = w.prefix
	it.taken = append([]int32{}, w.prefix...)[:0]
	it.pc = nil
	it.known = map[*Term]bool{}
	it.model = w.model
	it.modelOK = w.model != nil
	it.ev = nil
	it.stream = nil
	it.obs = nil
	it.names = map[string]int{}
	it.steps = 0
	it.maxSteps = it.run.maxSteps
	it.maxDec = 3000
	it.depth = 0
	it.hashes = nil
	it.sigs = nil
	it.digests = map[Ptr][]Value{}
	it.onces = map[Ptr]bool{}
	it.locks = map[Ptr]*lock{}
	it.sched = nil
	it.fmtVals = nil
	it.capture = nil
	it.serve = nil
	it.shufMode = 0
	it.shufSel = -1
	it.sigLens = nil
	it.reached = map[string]bool{}
	it.labels = nil
	end := it.exec(h)
	h.mu.Lock()
	atomic.AddInt64((*int64)(&h.wall), int64(time.Since(t0)))
	h.steps += int64(it.steps)
	h.mu.Unlock()
	switch end.kind {
	case "done":
		atomic.AddInt64(&h.Paths, 1)
		h.mu.Lock()
		for l := range it.reached {
			h.Reach[l]++
		}
		h.mu.Unlock()
		it.sample()
	case "assume", "violation":
		atomic.AddInt64(&h.Pruned, 1)
	case "panic":
		it.violation("panic", end.msg, nil)
		atomic.AddInt64(&h.Paths, 1)
	case "steps":
		it.violation("steps", "does not terminate within the step bound", nil)
	case "unsupported":
		h.note("unsupported: " + end.msg)
		if os.Getenv("GOSYM_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "UNSUPPORTED", h.Name, end.msg, it.where())
		}
	case "bug":
		h.note("engine error: " + end.msg)
		atomic.AddInt32(&it.run.errs, 1)
	default:
		h.note(end.kind)
	}
}

type outcome struct{ kind, msg string }

func (it *Interp) exec(h *Harness) (end outcome) {
	defer it.endSched()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				end = outcome{"unsupported", x.msg}
			case pathEnd:
				end = outcome{x.kind, ""}
			case targetPanic:
				end = outcome{"panic", x.msg}
			case runtime.Error:
				end = outcome{"bug", fmt.Sprint(x) + " at " + it.where()}
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, x, it.where(), string(debug.Stack()))
				}
			default:
				end = outcome{"bug", fmt.Sprint(x)}
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, x, it.where(), string(debug.Stack()))
				}
			}
		}
	}()
	it.callFn(nil, h.Fn, nil, nil)
	return outcome{kind: "done"}
}

func (it *Interp) where() string {
	if it.cur == nil {
		return "?"
	}
	fn := it.cur.Parent()
	return fn.String() + " " + fn.Prog.Fset.Position(it.cur.Pos()).String()
}

// ---- globals

// isStdPath tells packages whose globals are initialised once per worker: the standard library and
// dependencies that do not change their globals after initialisation.
func isStdPath(p string) bool {
	if strings.HasPrefix(p, "github.com/tokenized/pkg/") || strings.HasPrefix(p, "github.com/tokenized/bitcoin_interpreter") ||
		strings.HasPrefix(p, "github.com/tokenized/channels") || strings.HasPrefix(p, "github.com/tokenized/envelope") || strings.HasPrefix(p, "github.com/btcsuite/") ||
		strings.HasPrefix(p, "golang.org/") || strings.HasPrefix(p, "github.com/pkg/errors") {
		return true
	}
	i := strings.IndexByte(p, '/')
	if i < 0 {
		i = len(p)
	}
	return !strings.Contains(p[:i], ".") && !strings.HasPrefix(p, "verifharness")
}

func (it *Interp) globalPtr(g *ssa.Global) Value {
	std := isStdPath(g.Pkg.Pkg.Path())
	if std {
		if p, ok := it.stdGlobals[g]; ok {
			return p
		}
	} else if p, ok := it.globals[g]; ok {
		return p
	}
	// create cells for all globals of the package, then run its initialiser
	m := it.globals
	done := it.initDone
	if std {
		m = it.stdGlobals
		done = it.stdInit
	}
	if !done[g.Pkg] {
		done[g.Pkg] = true
		for _, mem := range g.Pkg.Members {
			if gg, ok := mem.(*ssa.Global); ok {
				p := new(Value)
				*p = zero(deref(gg.Type()))
				m[gg] = p
			}
		}
		if p, ok := m[g]; ok && g.Name() == "init$guard" {
			return p
		}
		it.runInit(g.Pkg)
	}
	p, ok := m[g]
	if !ok {
		p = new(Value)
		*p = zero(deref(g.Type()))
		m[g] = p
	}
	return p
}

func (it *Interp) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil || skipInit[p.Pkg.Path()] {
		return
	}
	depth, cur, steps := it.depth, it.cur, it.steps
	it.initDepth++
	defer func() {
		it.initDepth--
		it.depth, it.cur, it.steps = depth, cur, steps
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "INIT", p.Pkg.Path(), x.msg)
				}
			case targetPanic:
				if os.Getenv("GOSYM_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "INIT panic", p.Pkg.Path(), x.msg)
				}
			default:
				panic(r)
			}
		}
	}()
	it.steps = 0
	it.callFn(nil, fn, nil, nil)
}

var skipInit = map[string]bool{"runtime": true, "net/http": true, "os": true, "syscall": true, "net": true, "reflect": true, "internal/cpu": true}

// ---- decisions

// decide resolves a branch condition, forking the exploration when both sides are feasible.
func (it *Interp) decide(c *Term) bool {
	switch c.op {
	case BTrue:
		return true
	case BFalse:
		return false
	}
	if it.known[c] {
		return true
	}
	n := it.ts.Not(c)
	if it.known[n] {
		return false
	}
	if n.op == BTrue {
		return false
	}
	if n.op == BFalse {
		return true
	}
	if it.initDepth > 0 {
		unsup("symbolic branch in package initialiser")
	}
	i := len(it.taken)
	if i < len(it.prefix) {
		d := it.prefix[i]
		if d >= chooseBase {
			panic(pathEnd{"replay divergence"})
		}
		it.taken = append(it.taken, d)
		lit := c
		if d&1 == 0 {
			lit = n
		}
		it.assume(lit, d&2 != 0)
		return d&1 == 1
	}
	if len(it.taken) > it.maxDec {
		panic(pathEnd{"decision bound"})
	}
	atomic.AddInt64(&it.h.Branches, 1)
	// which side does the current model satisfy?
	tRes, fRes := Unknown, Unknown
	var tm, fm Model
	if it.modelOK {
		if it.evalBool(c) {
			tRes, tm = Sat, it.model
		} else {
			fRes, fm = Sat, it.model
		}
	}
	if tRes == Unknown {
		tRes, tm = it.query(c)
	}
	if fRes == Unknown {
		fRes, fm = it.query(n)
	}
	if tRes == Unknown || fRes == Unknown {
		it.h.note("solver unknown on branch")
	}
	if tRes == Unsat && fRes == Unsat {
		panic(pathEnd{"assume"})
	}
	if tRes == Unsat {
		it.taken = append(it.taken, 0|2)
		it.known[n] = true
		it.setModel(fm)
		return false
	}
	if fRes == Unsat {
		it.taken = append(it.taken, 1|2)
		it.known[c] = true
		it.setModel(tm)
		return true
	}
	// fork: queue the false side, continue with the true side
	pre := append(append([]int32{}, it.taken...), 0)
	it.run.push(work{h: it.h, prefix: pre, model: fm})
	it.taken = append(it.taken, 1)
	it.assume(c, false)
	it.setModel(tm)
	return true
}

func (it *Interp) setModel(m Model) {
	if m == nil {
		it.modelOK = false
		it.ev = nil
		return
	}
	it.model = m
	it.modelOK = true
	it.ev = nil
}

func (it *Interp) evalBool(t *Term) bool {
	if it.ev == nil {
		it.ev = newEval(it.model)
	}
	return it.ev.eval(t).Sign() != 0
}

// assume adds a literal to the path condition; forced literals are implied and not asserted.
func (it *Interp) assume(c *Term, forced bool) {
	it.known[c] = true
	if c.op == BAnd {
		for _, a := range c.args {
			it.known[a] = true
		}
	}
	if !forced {
		it.pc = append(it.pc, c)
	}
}

func (it *Interp) query(c *Term) (Result, Model) {
	r, m := it.sol.Check(it.pc, c)
	if r == Sat && m != nil {
		// keep values of variables not constrained here so that the model stays total
		for k, v := range it.model {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
	}
	if n := atomic.AddInt64(&it.run.crossN, 1); r != Unknown && it.run.crossMax > 0 && n%97 == 1 && n/97 < it.run.crossMax {
		it.sol.CrossCheck(it.pc, c, r)
	}
	return r, m
}

func (it *Interp) replaying() bool { return len(it.taken) < len(it.prefix) }

// choose makes an n-way concrete choice.
func (it *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(it.taken)
	if i < len(it.prefix) {
		d := it.prefix[i] - chooseBase
		if d < 0 || int(d) >= n {
			panic(pathEnd{"replay divergence"})
		}
		it.taken = append(it.taken, it.prefix[i])
		return int(d)
	}
	atomic.AddInt64(&it.h.Branches, int64(n-1))
	for v := n - 1; v >= 1; v-- {
		pre := append(append([]int32{}, it.taken...), chooseBase+int32(v))
		w := work{h: it.h, prefix: pre}
		if it.modelOK {
			w.model = it.model
		}
		it.run.push(w)
	}
	it.taken = append(it.taken, chooseBase)
	return 0
}

const chooseBase = 16

// concretize splits a symbolic integer into its feasible values.
func (it *Interp) concretize(t *Term, what string) I {
	if t.isConst() {
		return bigToI(t.k)
	}
	lo, hi := new(big.Int).Set(t.lo), new(big.Int).Set(t.hi)
	if new(big.Int).Sub(hi, lo).BitLen() > 24 {
		// narrow with the solver first: only accept when few values remain
		if !it.decide(it.ts.And(it.ts.Le(it.ts.ConstI(-1), t), it.ts.Le(t, it.ts.ConstI(1<<20)))) {
			unsup("symbolic %s with a large range", what)
		}
		lo, hi = maxB(lo, big.NewInt(-1)), minB(hi, big.NewInt(1<<20))
	}
	n := 0
	for lo.Cmp(hi) < 0 {
		mid := floorDiv(new(big.Int).Add(lo, hi), b2)
		if it.decide(it.ts.Le(t, it.ts.Const(mid))) {
			hi = mid
		} else {
			lo = new(big.Int).Add(mid, b1)
		}
		n++
	}
	return bigToI(lo)
}

// ---- nondeterministic values

func (it *Interp) fresh(kind_, name string, lo, hi *big.Int) *Term {
	n := it.names[name]
	it.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	t := it.ts.Var(full, lo, hi)
	it.stream = append(it.stream, StreamItem{Kind: kind_, Name: name, Term: t})
	return t
}

// hidden is a variable that is not part of the replayed stream (stub outputs).
func (it *Interp) hidden(name string, lo, hi *big.Int) *Term {
	n := it.names[name]
	it.names[name] = n + 1
	return it.ts.Var(fmt.Sprintf("%s#%d", name, n), lo, hi)
}

func (it *Interp) chosen(kind_, name string, v int) {
	it.stream = append(it.stream, StreamItem{Kind: kind_, Name: name, Term: it.ts.ConstI(int64(v))})
}

// ---- assertions

func (it *Interp) symAssume(c *Term) {
	if c.op == BTrue {
		return
	}
	if c.op == BFalse {
		panic(pathEnd{"assume"})
	}
	if it.known[c] {
		return
	}
	if it.replaying() {
		it.assume(c, false)
		return
	}
	if it.modelOK && it.evalBool(c) {
		it.assume(c, false)
		return
	}
	r, m := it.query(c)
	if r == Unsat {
		panic(pathEnd{"assume"})
	}
	if r == Unknown {
		it.h.note("solver unknown on assumption")
	}
	it.assume(c, false)
	it.setModel(m)
}

func (it *Interp) symAssert(c *Term, label string) {
	if it.replaying() {
		if c.op != BTrue && c.op != BFalse {
			it.known[c] = true
		}
		return
	}
	atomic.AddInt64(&it.h.Asserts, 1)
	if c.op == BTrue || it.known[c] {
		return
	}
	n := it.ts.Not(c)
	if c.op == BFalse {
		m := it.model
		if !it.modelOK {
			_, m = it.sol.Check(it.pc, nil)
		}
		it.violation("assert", label, m)
		panic(pathEnd{"violation"})
	}
	var r Result
	var m Model
	if it.modelOK && !it.evalBool(c) {
		r, m = Sat, it.model
	} else {
		r, m = it.query(n)
	}
	switch r {
	case Sat:
		it.violation("assert", label, m)
		// continue on the side where it holds, if any
		it.symAssume(c)
	case Unknown:
		it.h.note("solver unknown on assertion " + label)
		it.known[c] = true
	case Unsat:
		it.known[c] = true
	}
}

// violation records a candidate counterexample; it is confirmed later by native replay.
func (it *Interp) violation(kind_, label string, m Model) {
	if m == nil {
		if it.modelOK {
			m = it.model
		} else {
			var r Result
			r, m = it.sol.Check(it.pc, nil)
			if r != Sat {
				it.h.note("no model for " + kind_ + " " + label)
				return
			}
		}
	}
	v := &Violation{Harness: it.h.Name, Label: label, Kind: kind_, Stream: it.render(m)}
	if kind_ != "assert" {
		v.Detail = it.where()
	}
	it.h.mu.Lock()
	defer it.h.mu.Unlock()
	// keep a few per label
	it.h.vnum[kind_+label]++
	if it.h.vnum[kind_+label] <= 6 {
		it.h.viols = append(it.h.viols, v)
	}
	if it.run.known[label] {
		return
	}
	it.h.vtot++
	if it.h.vtot > 150 && it.h.stop == 0 {
		it.h.Incon["stopped after 150 counterexamples"]++
		atomic.StoreInt32(&it.h.stop, 1)
	}
}

func (it *Interp) render(m Model) []StreamItem {
	ev := newEval(m)
	out := make([]StreamItem, len(it.stream))
	for i, s := range it.stream {
		out[i] = StreamItem{Kind: s.Kind, Name: s.Name, Val: ev.eval(s.Term).String()}
	}
	return out
}

// sample keeps some finished paths with a model for cross validation against the real code.
func (it *Interp) sample() {
	h := it.h
	n := atomic.AddInt64(&h.nsample, 1)
	// reservoir-like: first few, then thinning
	if n > 12 && n%(1+n/12) != 0 {
		return
	}
	h.mu.Lock()
	full := len(h.samples) >= it.run.sampleN
	h.mu.Unlock()
	if full {
		return
	}
	m := it.model
	if !it.modelOK {
		var r Result
		r, m = it.sol.Check(it.pc, nil)
		if r != Sat {
			return
		}
	}
	s := &Sample{Harness: h.Name, Stream: it.render(m)}
	ev := newEval(m)
	for _, o := range it.obs {
		var sb strings.Builder
		sb.WriteString(o.Label)
		for i, v := range o.Vals {
			sb.WriteByte(' ')
			sb.WriteString(it.obsString(ev, v, o.Kinds[i]))
		}
		s.Obs = append(s.Obs, sb.String())
	}
	h.mu.Lock()
	if len(h.samples) < it.run.sampleN {
		h.samples = append(h.samples, s)
	}
	h.mu.Unlock()
}

func (it *Interp) obsString(ev *evaluator, v Value, k kind) string {
	switch v := v.(type) {
	case I:
		return iBig(v, k).String()
	case bool:
		return fmt.Sprint(v)
	case *Term:
		x := ev.eval(v)
		if v.isBool() {
			return fmt.Sprint(x.Sign() != 0)
		}
		return x.String()
	case string:
		return fmt.Sprintf("%x", v)
	case SymStr:
		return it.obsString(ev, Slice(v), byteKind)
	case Slice:
		var sb strings.Builder
		for _, b := range v {
			switch b := b.(type) {
			case I:
				fmt.Fprintf(&sb, "%02x", uint8(b))
			case *Term:
				fmt.Fprintf(&sb, "%02x", ev.eval(b).Uint64())
			default:
				sb.WriteString("??")
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("?%T", v)
}

func ifaceKind(t types.Type) kind { return kindOf(t) }
