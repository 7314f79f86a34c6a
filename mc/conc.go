package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/c21/scen"
)

// C21: the sources are copied to a scratch module, with a call of the
// cooperative scheduler before every statement, sync replaced by a shim that
// blocks in the scheduler, and a function that restores every package-level
// variable. The program in c21/main enumerates the interleavings.

func init() {
	register(&check{
		id:   "C21",
		rule: "stateless model checking of the instrumented sources: every scenario of two or three concurrent callers, from cold and from warm caches, every starting thread, every pool discipline, all interleavings up to the preemption bound; oracle: what each caller gets when it runs alone, no deadlock, no livelock, and no data race reported by the happens-before detector on any explored interleaving",
		assume: []string{
			"sequentially consistent interleavings at statement granularity; weaker memory orders are covered by the happens-before race detector, which runs on the interleavings of the race-instrumented build",
			"code of the standard library is executed atomically",
		},
		run: runC21, pre: buildC21})
}

const (
	c21Race  = "VERIF_C21_RACE"
	c21Plain = "VERIF_C21_PLAIN"
	c21Free  = "VERIF_C21_FREE"
)

func repoDir() string {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		return v
	}
	return "/repo"
}

func buildC21() {
	scratch := os.Getenv("VERIF_SCRATCH")
	env := append(os.Environ(), "CGO_ENABLED=1", "GOFLAGS=-mod=mod")
	over := overlay(filepath.Join(scratch, "overlay"))
	gobuild := func(dir, out string, args ...string) error {
		if over != "" {
			args = append(args, "-overlay", over)
		}
		cmd := exec.Command("go", append(append([]string{"build", "-trimpath", "-o", out}, args...), "./verifmain")...)
		cmd.Dir = dir
		cmd.Env = env
		b, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%v: %s", err, clip(string(b), 2000))
		}
		return nil
	}
	dir := filepath.Join(scratch, "c21")
	err := instrument(dir)
	if err == nil {
		race, plain := filepath.Join(scratch, "c21.race"), filepath.Join(scratch, "c21.plain")
		errs := make(chan error, 2)
		go func() { errs <- gobuild(dir, plain) }()
		go func() {
			e := gobuild(dir, race, "-race", "-gcflags=github.com/neilotoole/jsoncolor=-d=checkptr=0")
			if e == nil {
				os.Setenv(c21Race, race)
			} else {
				fmt.Println("note: no race-instrumented build:", e)
			}
			errs <- nil
		}()
		if e := <-errs; e != nil {
			err = e
		}
		if e := <-errs; e != nil {
			err = e
		}
		if err == nil {
			os.Setenv(c21Plain, plain)
			return
		}
	}
	fmt.Println("note: the sources cannot be put under the scheduler:", clip(err.Error(), 1500))
	// Fallback: run the scenarios freely under the race detector.
	os.Unsetenv(c21Race)
	dir = filepath.Join(scratch, "c21free")
	if err := copySources(dir, func(name string, b []byte) []byte { return b }); err != nil {
		fmt.Println("note:", err)
		return
	}
	os.WriteFile(filepath.Join(dir, "verif_reset.go"), []byte("package jsoncolor\n\nfunc VerifReset() {}\n"), 0o644)
	out := filepath.Join(scratch, "c21.free")
	if err := gobuild(dir, out, "-race", "-gcflags=github.com/neilotoole/jsoncolor=-d=checkptr=0"); err != nil {
		if err := gobuild(dir, out); err != nil {
			fmt.Println("note:", err)
			return
		}
	}
	os.Setenv(c21Free, out)
}

// overlay makes the order of map iteration the same in every execution: the
// random choices of the runtime's maps are replaced by constants. Without it
// executions do not repeat exactly. It returns the overlay file.
func overlay(dir string) string {
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return ""
	}
	os.MkdirAll(dir, 0o755)
	repl := map[string]string{}
	for name, subst := range map[string][]string{
		"internal/runtime/maps/map.go":   {"uintptr(rand())", "uintptr(0x12345)"},
		"internal/runtime/maps/table.go": {"= rand()", "= 0"},
		"runtime/alg.go":                 {"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15)", "key[i] = bootstrapRand()", "key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)"},
	} {
		file := filepath.Join(strings.TrimSpace(string(goroot)), "src", filepath.FromSlash(name))
		b, err := os.ReadFile(file)
		if err != nil {
			return ""
		}
		s := strings.NewReplacer(subst...).Replace(string(b))
		to := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		os.WriteFile(to, []byte(s), 0o644)
		repl[file] = to
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	out := filepath.Join(dir, "overlay.json")
	if os.WriteFile(out, b, 0o644) != nil {
		return ""
	}
	return out
}

// copySources lays out the scratch module.
func copySources(dir string, f func(name string, b []byte) []byte) error {
	p, err := build.ImportDir(repoDir(), 0)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for _, name := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(repoDir(), name))
		if err != nil {
			return err
		}
		if b = f(name, b); b == nil {
			return fmt.Errorf("cannot instrument %s", name)
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			return err
		}
	}
	for _, name := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(repoDir(), name)); err == nil {
			os.WriteFile(filepath.Join(dir, name), b, 0o644)
		}
	}
	src := filepath.Join(root(), "mc", "c21")
	for from, to := range map[string]string{"sched": "verifsched", "vsync": "verifsched/vsync", "scen": "verifscen", "main": "verifmain"} {
		files, _ := filepath.Glob(filepath.Join(src, from, "*.go"))
		os.MkdirAll(filepath.Join(dir, to), 0o755)
		for _, n := range files {
			b, err := os.ReadFile(n)
			if err != nil {
				return err
			}
			os.WriteFile(filepath.Join(dir, to, filepath.Base(n)), b, 0o644)
		}
	}
	// Internal packages the sources may have been split into.
	subs, _ := filepath.Glob(filepath.Join(repoDir(), "internal", "*", "*.go"))
	for _, n := range subs {
		rel, _ := filepath.Rel(repoDir(), n)
		b, _ := os.ReadFile(n)
		os.MkdirAll(filepath.Dir(filepath.Join(dir, rel)), 0o755)
		os.WriteFile(filepath.Join(dir, rel), b, 0o644)
	}
	return nil
}

type edit struct {
	off, end int // replace [off,end)
	text     string
}

func applyEdits(b []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
	var out []byte
	at := 0
	for _, e := range es {
		if e.off < at {
			continue
		}
		out = append(out, b[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, b[at:]...)
}

// instrument writes the instrumented copy to dir.
func instrument(dir string) error {
	fset := token.NewFileSet()
	p, err := build.ImportDir(repoDir(), 0)
	if err != nil {
		return err
	}
	type file struct {
		name string
		src  []byte
		ast  *ast.File
		out  []edit
		tail bytes.Buffer
	}
	var files []*file
	var asts []*ast.File
	byAst := map[*ast.File]*file{}
	for _, name := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(repoDir(), name))
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, name, b, parser.ParseComments)
		if err != nil {
			return err
		}
		f := &file{name: name, src: b, ast: a}
		files = append(files, f)
		asts = append(asts, a)
		byAst[a] = f
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }

	// Type-check, for the order of initialisation and to tell variables apart.
	exports, err := exportData()
	if err != nil {
		return err
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, FakeImportC: true}
	pkg, err := conf.Check("github.com/neilotoole/jsoncolor", fset, asts, info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	global := func(id *ast.Ident) *types.Var {
		v, ok := info.Uses[id].(*types.Var)
		if ok && v.Parent() == pkg.Scope() {
			return v
		}
		return nil
	}

	// Variables that are written to, or whose address is taken, or which hold
	// something mutable: statements that mention them are visible operations.
	mutable := map[*types.Var]bool{}
	for _, a := range asts {
		for id, o := range info.Defs {
			_ = id
			if v, ok := o.(*types.Var); ok && v.Parent() == pkg.Scope() {
				switch v.Type().Underlying().(type) {
				case *types.Map, *types.Pointer, *types.Slice, *types.Chan, *types.Signature, *types.Struct, *types.Array:
					mutable[v] = true
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch x := e.(type) {
					case *ast.Ident:
						if v := global(x); v != nil {
							mutable[v] = true
						}
						return
					case *ast.SelectorExpr:
						e = x.X
					case *ast.IndexExpr:
						e = x.X
					case *ast.ParenExpr:
						e = x.X
					case *ast.StarExpr:
						e = x.X
					default:
						return
					}
				}
			}
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(s.X)
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					mark(s.X)
				}
			}
			return true
		})
	}

	for _, f := range files {
		// Rename sync to the shim.
		for _, im := range f.ast.Imports {
			if im.Path.Value == `"sync"` {
				f.out = append(f.out, edit{off(im.Path.Pos()), off(im.Path.End()), `"github.com/neilotoole/jsoncolor/verifsched/vsync"`})
			}
			if im.Path.Value == `"C"` {
				return fmt.Errorf("%s uses cgo", f.name)
			}
		}
		// The scheduler's import: directly after the package clause.
		f.out = append(f.out, edit{off(f.ast.Name.End()), off(f.ast.Name.End()), `; import verif_sched "github.com/neilotoole/jsoncolor/verifsched"`})
		visible := func(s ast.Stmt) bool {
			found := false
			ast.Inspect(s, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt, *ast.FuncLit: // its statements have points of their own
					return false
				case *ast.Ident:
					if v := global(x); v != nil && mutable[v] {
						found = true
					}
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok {
						if pn, ok := info.Uses[id].(*types.PkgName); ok && (pn.Imported().Path() == "sync/atomic" || pn.Imported().Path() == "sync") {
							found = true
						}
					}
				}
				return !found
			})
			return found
		}
		var bad error
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				call := "verif_sched.Y(); "
				if visible(s) {
					call = "verif_sched.V(); "
				}
				f.out = append(f.out, edit{off(s.Pos()), off(s.Pos()), call})
			}
		}
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			nosplit := false
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
						nosplit = true
					}
				}
			}
			if nosplit || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					// The body of a switch or select holds clauses, not statements.
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.CommClause:
					bad = fmt.Errorf("%s: goroutines or channels at %v", f.name, fset.Position(n.Pos()))
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						bad = fmt.Errorf("%s: channel receive at %v", f.name, fset.Position(n.Pos()))
					}
				}
				return true
			})
		}
		if bad != nil {
			return bad
		}
	}

	// The function that restores the package-level variables.
	text := func(n ast.Node) (string, *file) {
		for _, a := range asts {
			if n.Pos() >= a.FileStart && n.End() <= a.FileEnd {
				f := byAst[a]
				return string(f.src[off(n.Pos()):off(n.End())]), f
			}
		}
		return "", nil
	}
	var calls []string
	k := 0
	emit := func(f *file, body string) {
		fmt.Fprintf(&f.tail, "\nfunc verifInit_%d() { %s }\n", k, body)
		calls = append(calls, fmt.Sprintf("verifInit_%d()", k))
		k++
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) > 0 || vs.Type == nil {
						continue
					}
					t, _ := text(vs.Type)
					for _, n := range vs.Names {
						if n.Name != "_" {
							emit(f, fmt.Sprintf("var z %s; %s = z", t, n.Name))
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					name := fmt.Sprintf("verifUserInit_%d", k)
					k++
					f.out = append(f.out, edit{off(d.Name.Pos()), off(d.Name.End()), name})
					fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", name)
					defer func() {}()
					calls = append(calls, "/*init*/"+name+"()")
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		rhs, f := text(in.Rhs)
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		emit(f, strings.Join(lhs, ", ")+" = "+rhs)
	}
	// init functions run last.
	sort.SliceStable(calls, func(i, j int) bool {
		return !strings.HasPrefix(calls[i], "/*init*/") && strings.HasPrefix(calls[j], "/*init*/")
	})

	err = copySources(dir, func(name string, b []byte) []byte {
		for _, f := range files {
			if f.name == name && bytes.Equal(b, f.src) {
				return append(applyEdits(f.src, f.out), append([]byte("\nvar _ = verif_sched.Y\n"), f.tail.Bytes()...)...)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "verif_reset.go"), []byte("package "+pkg.Name()+"\n\n// VerifReset restores the package-level variables.\nfunc VerifReset() {\n\t"+strings.Join(calls, "\n\t")+"\n}\n"), 0o644)
}

// exportData returns the export data files of the packages /repo imports.
func exportData() (map[string]string, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", ".")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if p, e, ok := strings.Cut(l, "\t"); ok && e != "" {
			m[p] = e
		}
	}
	return m, nil
}

type c21Failure struct {
	Key    string          `json:"key"`
	Detail string          `json:"detail"`
	Scen   int             `json:"scen"`
	Warm   bool            `json:"warm"`
	Config json.RawMessage `json:"config"`
	Trail  []uint8         `json:"trail"`
}

type c21Result struct {
	Executions int64            `json:"executions"`
	Steps      int64            `json:"steps"`
	Points     int64            `json:"points"`
	Max        int64            `json:"max_steps"`
	Plans      int              `json:"plans"`
	Capped     int              `json:"capped"`
	Stuck      int              `json:"stuck"`
	Diverged   int              `json:"diverged"`
	Counts     map[string]int64 `json:"counts"`
	Fails      []c21Failure     `json:"fails"`
}

func runC21(c *C) {
	scratch := os.Getenv("VERIF_SCRATCH")
	beat := func() func() {
		stop := make(chan bool)
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(5 * time.Second):
					if c.mem != nil {
						atomic.AddInt64(&c.mem[1], 1)
					}
				}
			}
		}()
		return func() { close(stop) }
	}
	command := func(limit time.Duration, bin string, args ...string) (string, error, string) {
		log := filepath.Join(scratch, fmt.Sprintf("racelog%d.%d", c.cur, os.Getpid()))
		cmd := exec.Command(bin, args...)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.Env = append(os.Environ(), "GORACE=log_path="+log+" exitcode=0 history_size=4", "GOMAXPROCS=1")
		if err := cmd.Start(); err != nil {
			return "", err, ""
		}
		t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		logs, _ := filepath.Glob(log + ".*")
		race := ""
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			race += string(b)
			os.Remove(l)
		}
		return out.String(), err, race
	}
	ss := scen.Scenarios()

	if free := os.Getenv(c21Free); free != "" {
		for i := 0; i < c.Pick(16, 64); i++ {
			c.Case(func() string { return "uncontrolled run of all scenarios" }, func() {
				defer beat()()
				out, err, race := command(3*time.Minute, free, "free", strconv.Itoa(c.Pick(30, 300)))
				c.Count("uncontrolled_runs", 1)
				if err != nil && strings.Contains(out, ":") {
					c.Fail("free:"+strings.SplitN(out, ":", 2)[0], "%s\n%s", clip(out, 1500), clip(race, 3000))
				}
			})
		}
		c.Bound("uncontrolled runs only: the sources could not be put under the scheduler")
		c.res.Capped = true
		return
	}
	if os.Getenv(c21Plain) == "" {
		c.res.Capped = true
		return
	}

	// Conformance: alone, every thread of the instrumented copy returns what it
	// returns with the package itself.
	c.Case(func() string { return "instrumented copy against the package, sequentially" }, func() {
		out, err, _ := command(2*time.Minute, os.Getenv(c21Plain), "alone")
		var got [][]string
		if err != nil || json.Unmarshal([]byte(out), &got) != nil {
			c.Count("conformance_failed", 1)
			return
		}
		for i, s := range ss {
			for j, t := range s.Threads {
				want := func() (r string) {
					defer func() {
						if e := recover(); e != nil {
							r = fmt.Sprint("panic: ", e)
						}
					}()
					return t()()
				}()
				if i < len(got) && j < len(got[i]) && got[i][j] == want {
					c.Valid(1)
				} else {
					c.Count("conformance_failed", 1)
				}
			}
		}
	})
	const shards = 8
	for _, bin := range []string{c21Race, c21Plain} {
		path := os.Getenv(bin)
		if path == "" {
			c.Count("no race build", 1)
			continue
		}
		for sh := 0; sh < shards; sh++ {
			name := map[string]string{c21Race: "race-instrumented", c21Plain: "plain"}[bin]
			c.Case(func() string { return fmt.Sprintf("%s exploration, part %d of %d", name, sh, shards) }, func() {
				defer beat()()
				saved := filepath.Join(scratch, fmt.Sprintf("c21fail%d.json", c.cur))
				if c.only >= 0 {
					// A confirmation run replays the schedules found before.
					if b, err := os.ReadFile(saved); err == nil {
						var fs []c21Failure
						json.Unmarshal(b, &fs)
						for _, f := range fs {
							arg, _ := json.Marshal(f)
							out, err, race := command(2*time.Minute, path, "replay", string(arg))
							if err != nil {
								c.Fail(f.Key, "%s\n%s", f.Detail, clip(race+out, 3000))
							}
						}
						return
					}
				}
				level := 0
				if c.thorough {
					level = 1
				}
				if bin == c21Plain {
					level += 2
				}
				resf := filepath.Join(scratch, fmt.Sprintf("c21res%d.%d.json", c.cur, os.Getpid()))
				limit := time.Until(c.deadline)
				if bin == c21Race {
					limit /= 2
				}
				out, err, race := command(limit+time.Minute, path, "explore", strconv.Itoa(sh), strconv.Itoa(shards), strconv.Itoa(level), limit.String(), resf)
				b, _ := os.ReadFile(resf)
				os.Remove(resf)
				var r c21Result
				if json.Unmarshal(b, &r) != nil {
					// A fatal error of the runtime, such as concurrent map writes.
					if err != nil && (strings.Contains(out, "fatal error:") || strings.Contains(out, "SIGSEGV") || strings.Contains(out, "unexpected fault")) {
						c.Fail("fatal", "the process died: %s", clip(out, 2500))
					} else {
						c.Count("no result", 1)
						c.res.Capped = true
					}
					return
				}
				c.State(int(r.Points))
				c.Trans(int(r.Steps))
				c.Count(name+": schedules", int(r.Executions))
				for k, n := range r.Counts {
					c.Count(name+": "+k, int(n))
				}
				c.Count(name+": explorations cut short", r.Capped)
				if r.Capped > 0 || r.Stuck > 0 {
					c.res.Capped = true
				}
				c.Count("stuck outside the scheduler", r.Stuck)
				c.Count("choices not replayed", r.Diverged)
				if c.only < 0 && len(r.Fails) > 0 {
					fb, _ := json.Marshal(r.Fails)
					os.WriteFile(saved, fb, 0o644)
				}
				for _, f := range r.Fails {
					msg := f.Detail
					if strings.HasPrefix(f.Key, "race") {
						msg += "\n" + clip(race, 3000)
					}
					c.Fail(f.Key, "%s", msg)
				}
			})
		}
	}
	c.Bound("%d scenarios of two or three threads, cold and warm, every starting thread", len(ss))
	c.Bound("preemption bounds by granularity, pool discipline and build: see counts; scenarios too long for a bound are counted as skipped")
}

func init() {
	aux["c21build"] = func(a []string) {
		os.Setenv("VERIF_SCRATCH", a[0])
		os.MkdirAll(a[0], 0o755)
		buildC21()
		fmt.Println(os.Getenv(c21Race), os.Getenv(c21Plain), os.Getenv(c21Free))
	}
}
