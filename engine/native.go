package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// The workspace holds the harness as a module of its own next to the repository under test. It is
// used both for generating the encoding and for building the native runner that replays
// counterexamples and sampled paths on the compiled code.

type workspace struct {
	dir     string
	bin     string
	docs    map[string]string
	overlay string
	tags    string
}

func newWorkspace(o *options) (*workspace, error) {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	ws := &workspace{dir: dir, docs: map[string]string{}}
	ok := false
	defer func() {
		if !ok {
			os.RemoveAll(dir)
		}
	}()
	repo, err := filepath.Abs(o.repo)
	if err != nil {
		return nil, err
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	pkgDir, err := goList(repo, "github.com/tokenized/pkg")
	if err != nil {
		return nil, err
	}
	mod := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gomod), "module verifharness")
	mod += "\nrequire github.com/tokenized/txbuilder v1.999.0\n\nreplace github.com/tokenized/txbuilder => " + repo +
		"\n\nreplace github.com/tokenized/pkg => ./tokenizedpkg\n"
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(mod), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), gosum, 0o644); err != nil {
		return nil, err
	}
	if err := copyTree(pkgDir, filepath.Join(dir, "tokenizedpkg")); err != nil {
		return nil, err
	}
	if err := hookPkg(filepath.Join(dir, "tokenizedpkg", "bitcoin")); err != nil {
		return nil, err
	}
	if err := copyTree(o.harness, dir); err != nil {
		return nil, err
	}
	var names []string
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if bytes.HasPrefix(b, []byte("//go:build verifcmd\n")) {
			if !strings.HasPrefix(filepath.Base(f), strings.ToLower(o.prop)) {
				continue
			}
			ws.tags = ",verifcmd"
			if err := copyCommand(filepath.Join(repo, "cmd"), filepath.Join(dir, "cmdtool")); err != nil {
				return nil, err
			}
		}
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, isF := d.(*ast.FuncDecl)
			if isF && fd.Recv == nil && regexp.MustCompile(`^[A-Z][0-9]{2,3}_`).MatchString(fd.Name.Name) {
				names = append(names, fd.Name.Name)
				ws.docs[fd.Name.Name] = strings.Join(strings.Fields(fd.Doc.Text()), " ")
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport h \"verifharness\"\n\nvar table = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "replay", "table.go"), []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	ok = true
	return ws, nil
}

// copyCommand makes the main package of the repository importable.
func copyCommand(src, dst string) error {
	if err := copyTree(src, dst); err != nil {
		return err
	}
	files, _ := filepath.Glob(filepath.Join(dst, "*.go"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		b = regexp.MustCompile(`(?m)^package main\b`).ReplaceAll(b, []byte("package cmdtool"))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOTOOLCHAIN=local")
}

func goList(dir, mod string) (string, error) {
	c := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mod)
	c.Dir = dir
	// never let the go command touch the module files of the repository
	c.Env = append(goEnv(), "GOFLAGS=-mod=readonly")
	out, err := c.Output()
	if err != nil {
		return "", fmt.Errorf("go list -m %s: %v", mod, err)
	}
	return strings.TrimSpace(string(out)), nil
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
}

func replaceOnce(file, old, new string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	if bytes.Count(b, []byte(old)) != 1 {
		return fmt.Errorf("%s: hook point %q not found once", file, old)
	}
	return os.WriteFile(file, bytes.Replace(b, []byte(old), []byte(new), 1), 0o644)
}

// hookPkg lets the runner dictate the encoded length of signatures (the dependency is copied, the
// repository is not touched). The engine replaces both functions by its own model.
func hookPkg(dir string) error {
	if err := replaceOnce(filepath.Join(dir, "key.go"), "func (k Key) Sign(hash Hash32) (Signature, error) {",
		`// VerifSigned and VerifSigBytes are set by the replay runner.
var VerifSigned func(b []byte)
var VerifSigBytes func(b []byte) []byte

func (k Key) Sign(hash Hash32) (Signature, error) {
	s, err := k.verifSign(hash)
	if err == nil && VerifSigned != nil {
		VerifSigned(s.verifBytes())
	}
	return s, err
}

func (k Key) verifSign(hash Hash32) (Signature, error) {`); err != nil {
		return err
	}
	return replaceOnce(filepath.Join(dir, "signature.go"), "func (s Signature) Bytes() []byte {",
		`func (s Signature) Bytes() []byte {
	if VerifSigBytes != nil {
		return VerifSigBytes(s.verifBytes())
	}
	return s.verifBytes()
}

func (s Signature) verifBytes() []byte {`)
}

// randOverlay gives math/rand a hook through which the runner supplies the drawn values.
func (ws *workspace) randOverlay() error {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	root := filepath.Join(strings.TrimSpace(string(out)), "src", "math", "rand")
	repl := map[string]string{}
	for _, sub := range []string{"", "v2"} {
		src := filepath.Join(root, sub, "rand.go")
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		re := regexp.MustCompile(`(?m)^func \(r \*Rand\) (\w+)\(([^)]*)\) ?([^{\n]*?) ?\{`)
		txt := re.ReplaceAllStringFunc(string(b), func(m string) string {
			g := re.FindStringSubmatch(m)
			name, ret := g[1], g[3]
			switch name {
			case "Int63", "Int31", "Int", "Uint32", "Uint64", "Int64", "Int32", "Uint":
				return m + "\n\tif VerifHook != nil { return " + ret + "(VerifHook(\"full\")) }\n"
			case "Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N", "Uint64N", "Uint32N", "UintN":
				return m + "\n\tif VerifHook != nil && n > 0 { return " + ret + "(VerifHook(\"n\")) }\n"
			case "Float64":
				return m + "\n\tif VerifHook != nil { return float64(VerifHook(\"f64\")) / (1 << 53) }\n"
			case "Float32":
				return m + "\n\tif VerifHook != nil { return float32(VerifHook(\"f32\")) / (1 << 24) }\n"
			case "Shuffle":
				return m + "\n\tif VerifHook != nil && n >= 0 {\n\t\tfor i := n - 1; i > 0; i-- { swap(i, int(VerifHook(\"n\"))) }\n\t\treturn\n\t}\n"
			case "Perm":
				return m + "\n\tif VerifHook != nil {\n\t\tp := make([]int, n)\n\t\tfor i := range p { j := int(VerifHook(\"n\")); p[i] = p[j]; p[j] = i }\n\t\treturn p\n\t}\n"
			case "Seed":
				return m + "\n\tif VerifHook != nil { return }\n"
			}
			return m
		})
		txt += "\n// VerifHook supplies drawn values during replay.\nvar VerifHook func(what string) uint64\n"
		dst := filepath.Join(ws.dir, "overlay_rand"+sub+".txt")
		if err := os.WriteFile(dst, []byte(txt), 0o644); err != nil {
			return err
		}
		repl[src] = dst
	}
	if ws.tags != "" {
		// requests of the command are answered by the harness
		src := filepath.Join(root, "..", "..", "net", "http", "client.go")
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		re := regexp.MustCompile(`(?m)^func \(c \*Client\) do\(req \*Request\) \(retres \*Response, reterr error\) \{`)
		if !re.Match(b) {
			return fmt.Errorf("%s: hook point not found", src)
		}
		b = re.ReplaceAll(b, []byte("// VerifDo answers requests during replay.\nvar VerifDo func(req *Request) (*Response, error)\n\n$0\n\tif VerifDo != nil {\n\t\treturn VerifDo(req)\n\t}\n"))
		dst := filepath.Join(ws.dir, "overlay_http.txt")
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
		repl[src] = dst
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ws.overlay = filepath.Join(ws.dir, "overlay.json")
	return os.WriteFile(ws.overlay, b, 0o644)
}

func (ws *workspace) buildNative() error {
	if err := ws.randOverlay(); err != nil {
		return err
	}
	ws.bin = filepath.Join(ws.dir, "replay.bin")
	c := exec.Command("go", "build", "-overlay", ws.overlay, "-tags", "verifnative"+ws.tags, "-o", ws.bin, "./replay")
	c.Dir = ws.dir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

type natReq struct {
	ID      int          `json:"id"`
	Harness string       `json:"harness"`
	Tier    string       `json:"tier"`
	Stream  []StreamItem `json:"stream"`
}

type natRes struct {
	ID     int      `json:"id"`
	Status string   `json:"status"` // ok, assert, panic, assume, diverge, timeout
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// native runs requests on the compiled code.
func (ws *workspace) native(reqs []natReq) (map[int]natRes, error) {
	res := map[int]natRes{}
	for len(reqs) > 0 {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, r := range reqs {
			enc.Encode(r)
		}
		c := exec.Command(ws.bin)
		c.Stdin = &in
		c.Dir = ws.dir
		var errb bytes.Buffer
		c.Stderr = &errb
		outp, err := c.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := c.Start(); err != nil {
			return nil, err
		}
		timer := time.AfterFunc(300*time.Second, func() { c.Process.Kill() })
		sc := bufio.NewScanner(outp)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		n := 0
		for sc.Scan() {
			var r natRes
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			res[r.ID] = r
			n++
		}
		werr := c.Wait()
		timer.Stop()
		if n >= len(reqs) {
			break
		}
		if n == 0 || werr != nil && res[reqs[n-1].ID].Status != "timeout" {
			// the process died on request n
			msg := errb.String()
			if len(msg) > 300 {
				msg = msg[:300]
			}
			res[reqs[n].ID] = natRes{ID: reqs[n].ID, Status: "crash", Msg: msg}
			n++
		}
		reqs = reqs[n:]
	}
	return res, nil
}

type confirmed struct {
	V      *Violation
	Native string
}

type confirmation struct {
	confirmed   []*confirmed
	unconfirmed []string
	validated   int
	mismatches  []string
}

// confirm replays every candidate counterexample and every sampled path.
func (ws *workspace) confirm(o *options, hs []*Harness) *confirmation {
	rep := &confirmation{unconfirmed: []string{}, mismatches: []string{}}
	var reqs []natReq
	var vs []*Violation
	var ss []*Sample
	for _, h := range hs {
		for _, v := range h.viols {
			reqs = append(reqs, natReq{ID: len(reqs), Harness: v.Harness, Tier: o.tier, Stream: v.Stream})
			vs = append(vs, v)
		}
	}
	for _, h := range hs {
		for _, s := range h.samples {
			reqs = append(reqs, natReq{ID: len(reqs), Harness: s.Harness, Tier: o.tier, Stream: s.Stream})
			ss = append(ss, s)
		}
	}
	res, err := ws.native(reqs)
	if err != nil {
		rep.mismatches = append(rep.mismatches, "native runner: "+err.Error())
		return rep
	}
	for i, v := range vs {
		r := res[i]
		ok := false
		switch r.Status {
		case "assert", "panic", "crash":
			ok = true
		case "timeout":
			ok = v.Kind == "steps"
		}
		if ok {
			if r.Status == "assert" {
				v.Label = r.Msg
			}
			rep.confirmed = append(rep.confirmed, &confirmed{v, r.Status + ": " + r.Msg})
		} else {
			rep.unconfirmed = append(rep.unconfirmed, fmt.Sprintf("%s %s %s -> %s %s [%s]", v.Harness, v.Kind, v.Label, r.Status, r.Msg, streamText(v.Stream, 30)))
		}
	}
	for i, s := range ss {
		r := res[len(vs)+i]
		switch {
		case r.Status == "ok" && eqObs(r.Obs, s.Obs):
			rep.validated++
		case r.Status == "assert" || r.Status == "panic" || r.Status == "crash":
			rep.confirmed = append(rep.confirmed, &confirmed{&Violation{Harness: s.Harness, Label: r.Msg, Kind: r.Status, Stream: s.Stream}, r.Status + ": " + r.Msg})
		default:
			d := ""
			for j := range s.Obs {
				if j >= len(r.Obs) || r.Obs[j] != s.Obs[j] {
					d = "encoded " + s.Obs[j]
					if j < len(r.Obs) {
						d += " / real " + r.Obs[j]
					}
					break
				}
			}
			rep.mismatches = append(rep.mismatches, fmt.Sprintf("%s %s %s %s [%s]", s.Harness, r.Status, r.Msg, d, streamText(s.Stream, 30)))
		}
	}
	return rep
}

func eqObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func replayFile(o *options, ws *workspace) int {
	b, err := os.ReadFile(o.replay)
	if err != nil {
		return fail("%v", err)
	}
	var f struct {
		Property string       `json:"property"`
		Harness  string       `json:"harness"`
		Tier     string       `json:"tier"`
		Stream   []StreamItem `json:"stream"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return fail("%v", err)
	}
	if err := ws.buildNative(); err != nil {
		return fail("%v", err)
	}
	res, err := ws.native([]natReq{{ID: 0, Harness: f.Harness, Tier: f.Tier, Stream: f.Stream}})
	if err != nil {
		return fail("%v", err)
	}
	r := res[0]
	fmt.Printf("%s: %s %s\n", f.Harness, r.Status, r.Msg)
	for _, s := range r.Obs {
		fmt.Println("  ", s)
	}
	if r.Status == "ok" {
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, o.replay)
	return 1
}
