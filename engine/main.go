// gosym decides properties of Go code by symbolic execution of its SSA form.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type options struct {
	repo, harness, prop, tier, out, known, only string
	workers                                     int
	secs                                        int
	seed                                        int
	verbose                                     bool
	prof                                        string
	keep                                        bool
	replay                                      string
}

func main() {
	var o options
	flag.StringVar(&o.repo, "repo", "/repo", "repository under test")
	flag.StringVar(&o.harness, "harness", "/verif/harness", "harness sources")
	flag.StringVar(&o.prop, "prop", "", "property")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.out, "out", "", "evidence file")
	flag.StringVar(&o.known, "known", "", "known findings file")
	flag.StringVar(&o.only, "only", "", "run only harnesses containing this text")
	flag.IntVar(&o.workers, "workers", runtime.NumCPU(), "parallel workers")
	flag.IntVar(&o.secs, "secs", 0, "exploration time limit in seconds")
	flag.IntVar(&o.seed, "seed", 1, "recorded in the evidence; the exploration does not sample")
	flag.BoolVar(&o.verbose, "v", false, "verbose")
	flag.BoolVar(&o.keep, "keep", false, "keep the scratch workspace")
	flag.StringVar(&o.prof, "prof", "", "cpu profile")
	flag.StringVar(&o.replay, "replay", "", "replay a counterexample file against the real code")
	flag.Parse()
	if o.secs == 0 {
		o.secs = 420
		if o.tier == "thorough" {
			o.secs = 600
		}
	}
	if o.prof != "" {
		f, _ := os.Create(o.prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run(&o)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func fail(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	return 2
}

func run(o *options) int {
	t0 := time.Now()
	known, err := loadKnown(o.known)
	if err != nil {
		return fail("known findings: %v", err)
	}
	ws, err := newWorkspace(o)
	if err != nil {
		return fail("workspace: %v", err)
	}
	if !o.keep {
		defer os.RemoveAll(ws.dir)
	} else {
		fmt.Fprintln(os.Stderr, "workspace", ws.dir)
	}
	if o.replay != "" {
		return replayFile(o, ws)
	}
	if o.out != "" {
		os.Remove(strings.TrimSuffix(o.out, ".json") + ".replay.json")
	}

	// the native runner is built while the encoding is generated and explored
	nat := make(chan error, 1)
	go func() { nat <- ws.buildNative() }()

	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        ws.dir,
		BuildFlags: []string{"-tags=math_big_pure_go,purego" + ws.tags},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return fail("load: %v", err)
	}
	if packages.PrintErrors(ps) > 0 {
		return fail("the harness does not type check against the repository")
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	eng := &Engine{prog: prog, sizes: types.SizesFor("gc", "amd64"), repoPfx: "github.com/tokenized/txbuilder",
		covered: map[string]bool{}, implMemo: map[[2]types.Type]bool{}, ptrTypes: map[string]types.Type{}, tier: o.tier}
	var hs []*Harness
	for name, m := range pkgs[0].Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, o.prop+"_") || (o.only != "" && !strings.Contains(name, o.only)) {
			continue
		}
		hs = append(hs, &Harness{Name: name, Fn: fn, Incon: map[string]int64{}, Reach: map[string]int64{},
			vnum: map[string]int{}, known: map[string]int64{}, reachWant: reachLabels(fn)})
	}
	if len(hs) == 0 {
		return fail("no harness for %s", o.prop)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	loadT := time.Since(t0)

	r := &Run{eng: eng, stats: &SolverStats{}, deadline: time.Now().Add(time.Duration(o.secs) * time.Second),
		maxSteps: 20_000_000, maxPaths: 3_000_000, sampleN: 24, crossMax: 20, timeout: 4000, fbSecs: 20}
	if o.tier == "thorough" {
		r.crossMax = 60
		r.sampleN = 60
		r.fbSecs = 40
	}
	r.known = map[string]bool{}
	for _, k := range known {
		if k.Property == o.prop {
			r.known[k.Label] = true
		}
	}
	t1 := time.Now()
	done := make(chan bool)
	if o.verbose {
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(5 * time.Second):
				}
				r.mu.Lock()
				q := r.queued
				r.mu.Unlock()
				fmt.Fprintf(os.Stderr, "%5.0fs queue %d queries %d solver %.1fs\n", time.Since(t1).Seconds(), q,
					atomic.LoadInt64(&r.stats.Queries), float64(atomic.LoadInt64(&r.stats.Nanos))/1e9)
				for _, h := range hs {
					h.mu.Lock()
					if h.wall > 0 {
						fmt.Fprintf(os.Stderr, "   %s paths %d pruned %d wall %.1f incon %v\n", h.Name, h.Paths, h.Pruned, h.wall.Seconds(), h.Incon)
					}
					h.mu.Unlock()
				}
			}
		}()
	}
	r.explore(hs, o.workers)
	close(done)
	exploreT := time.Since(t1)

	if err := <-nat; err != nil {
		return fail("native build: %v", err)
	}
	t2 := time.Now()
	rep := ws.confirm(o, hs)
	natT := time.Since(t2)

	return report(o, ws, r, hs, known, rep, loadT, exploreT, natT, time.Since(t0))
}

func reachLabels(fn *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if g.String() == symPkg+".Reach" {
							if k, ok := c.Common().Args[0].(*ssa.Const); ok {
								s, _ := constVal(k).(string)
								if !strings.HasPrefix(s, "T:") {
									out = append(out, s)
								}
							}
						} else if strings.HasPrefix(fnPkgPath(g), "verifharness") && !strings.HasSuffix(fnPkgPath(g), "/sym") {
							visit(g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	sort.Strings(out)
	return out
}

type knownFinding struct {
	Property string `json:"property"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) label="([^"]+)" (.+)$`)

func loadKnown(path string) ([]knownFinding, error) {
	if path == "" {
		return nil, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> label="<assertion label>" <what fails>
		m := knownRe.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("cannot read line %q", l)
		}
		out = append(out, knownFinding{Property: m[1], Label: m[2], What: m[3]})
	}
	return out, nil
}

func report(o *options, ws *workspace, r *Run, hs []*Harness, known []knownFinding, rep *confirmation, loadT, exploreT, natT, wall time.Duration) int {
	var states, pruned, branches, asserts, steps int64
	var incon int64
	inconNotes := map[string]int64{}
	per := []map[string]any{}
	missing := []string{}
	empty := []string{}
	for _, h := range hs {
		states += h.Paths
		pruned += h.Pruned
		branches += h.Branches
		asserts += h.Asserts
		steps += h.steps
		for k, n := range h.Incon {
			incon += n
			inconNotes[h.Name+": "+k] += n
		}
		for _, l := range h.reachWant {
			if h.Reach[l] == 0 {
				missing = append(missing, h.Name+": "+l)
			}
		}
		if h.Paths == 0 {
			empty = append(empty, h.Name)
		}
		per = append(per, map[string]any{"harness": h.Name, "bounds": ws.docs[h.Name], "paths": h.Paths, "pruned": h.Pruned,
			"assertions_checked": h.Asserts, "branch_decisions": h.Branches, "witnesses": h.Reach, "cpu_s": h.wall.Seconds()})
	}
	eng := r.eng
	var fns []string
	for f := range eng.covered {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	viol := 0
	var lines []string
	knownSeen := map[string]bool{}
	var first *confirmed
	for _, c := range rep.confirmed {
		isKnown := false
		for _, k := range known {
			if k.Property == o.prop && k.Label == c.V.Label {
				isKnown = true
				if !knownSeen[k.Label] {
					knownSeen[k.Label] = true
					lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", o.prop, k.What))
				}
			}
		}
		if !isKnown {
			viol++
			if first == nil {
				first = c
			}
		}
	}
	samples := []any{}
	for _, h := range hs {
		for i, s := range h.samples {
			if i >= 1 && len(samples) >= 3 || i >= 2 || len(samples) >= 6 {
				break
			}
			samples = append(samples, map[string]any{"harness": s.Harness, "inputs": streamText(s.Stream, 40), "observed": trunc(s.Obs, 12)})
		}
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   branches,
		"traces_validated_against_impl": rep.validated,
		"samples":                       samples,
		"trace_mismatches":              rep.mismatches,
		"paths_pruned_by_assumption":    pruned,
		"assertions_checked":            asserts,
		"ssa_instructions_executed":     steps,
		"solver_queries":                r.stats.Queries,
		"solver_sat":                    r.stats.SatN,
		"solver_unsat":                  r.stats.UnsatN,
		"solver_unknown":                r.stats.UnknownN,
		"solver_errors":                 r.stats.Errors,
		"solver_s":                      float64(r.stats.Nanos) / 1e9,
		"second_solver_checks":          r.stats.Cross,
		"second_solver_disagreements":   r.stats.CrossDisagree,
		"functions_encoded":             fns,
		"harnesses":                     per,
		"inconclusive":                  inconNotes,
		"unreached_witnesses":           missing,
		"unconfirmed_counterexamples":   rep.unconfirmed,
		"known_findings_seen":           len(knownSeen),
		"exhaustive":                    incon == 0,
		"encode_s":                      loadT.Seconds(),
		"explore_s":                     exploreT.Seconds(),
		"replay_s":                      natT.Seconds(),
	}
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": viol,
	}
	replayPath := ""
	if o.out != "" {
		os.MkdirAll(filepath.Dir(o.out), 0o755)
		if first != nil {
			replayPath = strings.TrimSuffix(o.out, ".json") + ".replay.json"
			b, _ := json.MarshalIndent(map[string]any{"property": o.prop, "harness": first.V.Harness, "tier": o.tier, "label": first.V.Label,
				"kind": first.V.Kind, "where": first.V.Detail, "native": first.Native, "stream": first.V.Stream}, "", " ")
			os.WriteFile(replayPath, append(b, '\n'), 0o644)
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(o.out, append(b, '\n'), 0o644); err != nil {
			return fail("evidence: %v", err)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d paths, %d branch decisions, %d assertions, %d queries (%.1fs solver), %d traces validated, %d inconclusive, %.1fs\n",
		o.prop, o.tier, states, branches, asserts, r.stats.Queries, float64(r.stats.Nanos)/1e9, rep.validated, incon, wall.Seconds())
	for _, k := range sortedKeys(inconNotes) {
		fmt.Printf("  inconclusive: %s (%d)\n", k, inconNotes[k])
	}
	for _, m := range missing {
		fmt.Printf("  witness not reached: %s\n", m)
	}
	for _, m := range rep.mismatches {
		fmt.Printf("  trace mismatch: %s\n", m)
	}
	for _, m := range rep.unconfirmed {
		fmt.Printf("  not reproduced: %s\n", m)
	}
	if r.stats.CrossDisagree > 0 {
		return fail("the solvers disagree on %d queries", r.stats.CrossDisagree)
	}
	if viol > 0 {
		shown := map[string]bool{}
		for _, c := range rep.confirmed {
			if shown[c.V.Label] {
				continue
			}
			shown[c.V.Label] = true
			fmt.Printf("  counterexample in %s: %s %s [%s] inputs %v\n", c.V.Harness, c.V.Kind, c.V.Label, c.Native, streamText(c.V.Stream, 30))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, replayPath)
		return 1
	}
	if len(empty) > 0 {
		return fail("no completed path in %v", empty)
	}
	return 0
}

var assumptions = []string{
	"sha256 and ripemd160 of symbolic data are treated as collision free functions; of concrete data they are computed",
	"ECDSA signing is treated as an injective function of key and digest with every listed signature length possible; public keys are computed from concrete private keys",
	"math/rand results are arbitrary within their documented ranges; time.Now is fixed",
	"memory allocation succeeds; slice growth follows the Go 1.27 allocator size classes",
	"inputs beyond the bounds listed per harness are not covered",
}

func trunc(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), "...")
	}
	return s
}

func streamText(s []StreamItem, n int) string {
	var sb strings.Builder
	for i, x := range s {
		if i >= n {
			sb.WriteString(" ...")
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%s", x.Name, x.Val)
	}
	return sb.String()
}
