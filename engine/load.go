package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d // development only
	}
	return "/repo"
}()

const repoModule = "github.com/kevmo314/appendable"

// Harness is one verification harness function.
type Harness struct {
	Name  string
	Pkg   string // harness package directory name
	Prop  string
	Quick map[string]int
	Thor  map[string]int
	Opts  map[string]string
	Doc   string
	KF    string // known-finding id (witness harness)
	fn    *ssa.Function
	Skip  string
}

var dirRe = regexp.MustCompile(`(\w+)=("([^"]*)"|\S+)`)

// inpkgRe: "//verif:inpkg NAME" adds the files of harness/inpkg/NAME to /repo/pkg/NAME.
var inpkgRe = regexp.MustCompile(`(?m)^//verif:inpkg (\w+)`)
// commandRe: "//verif:command NAME" makes the command in /repo/NAME a package
// zz_verif/NAMEmain with a function Main that runs it.
var commandRe = regexp.MustCompile(`(?m)^//verif:command (\w+)`)
var mainRe = regexp.MustCompile(`(?m)^package main\b`)
var impRe = regexp.MustCompile(`"github.com/kevmo314/appendable/zz_verif/(\w+)"`)

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		kv := strings.SplitN(f, "=", 2)
		if len(kv) == 2 {
			n, err := strconv.Atoi(kv[1])
			if err == nil {
				m[kv[0]] = n
			}
		}
	}
	return m
}

func harnessDir() string {
	if d := os.Getenv("VERIF_HARNESS"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "harness")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// overlayFiles maps virtual paths below /repo/zz_verif to real harness sources.
func overlayFiles(pkgs []string) (map[string]string, error) {
	m := map[string]string{}
	work, seen := append([]string{"sym"}, pkgs...), map[string]bool{}
	for len(work) > 0 {
		pk := work[0]
		work = work[1:]
		if seen[pk] {
			continue
		}
		seen[pk] = true
		fs, _ := filepath.Glob(filepath.Join(harnessDir(), pk, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repoDir, "zz_verif", pk, filepath.Base(f))] = f
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			for _, mm := range impRe.FindAllStringSubmatch(string(b), -1) {
				work = append(work, mm[1])
			}
			for _, mm := range inpkgRe.FindAllStringSubmatch(string(b), -1) {
				gs, _ := filepath.Glob(filepath.Join(harnessDir(), "inpkg", mm[1], "*.go"))
				for _, g := range gs {
					m[filepath.Join(repoDir, "pkg", mm[1], "zz_verif_"+filepath.Base(g))] = g
				}
			}
		}
	}
	// replacement files for the standard library or dependencies (replay hooks)
	return m, nil
}

func stdOverlay(work string, want map[string]bool) (map[string]string, error) {
	m := map[string]string{}
	if want["rand"] {
		out, err := goEnv("GOROOT")
		if err != nil {
			return nil, err
		}
		src := filepath.Join(out, "src/math/rand/rand.go")
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		s := string(b)
		const at = "func Float64() float64 {"
		if strings.Count(s, at) != 1 {
			return nil, fmt.Errorf("math/rand: unexpected shape")
		}
		s = strings.Replace(s, at, "// VerifHook, when set, supplies Float64.\nvar VerifHook func() float64\n\n"+at+"\n\tif VerifHook != nil {\n\t\treturn VerifHook()\n\t}\n", 1)
		dst := filepath.Join(work, "rand.go")
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return nil, err
		}
		m[src] = dst
	}
	return m, nil
}

// Loaded is a loaded program with its harnesses.
type Loaded struct {
	p    *Prog
	hs   []*Harness
	over map[string]string
	pkgs []string

	tsLines []string
}

// tsOverlay adds the Go code that ts2go makes of the repository's TypeScript,
// when a harness asks for it. When it cannot be made, why says so and the
// harnesses end as not covered.
func tsOverlay(over map[string]string, work, why string) {
	dst := filepath.Join(repoDir, "zz_verif", "tsgen", "gen.go")
	if _, ok := over[filepath.Join(repoDir, "zz_verif", "tsx", "tsx.go")]; !ok {
		return
	}
	gen := filepath.Join(work, "tsgen.go")
	if why == "" {
		out, err := runCmd(work, nil, 120, "node", filepath.Join(verifDir(), "ts", "ts2go.mjs"), repoDir, filepath.Join(verifDir(), "ts", "driver.ts"),
			gen, filepath.Join(work, "bundle.mjs"), "tsgen", repoModule+"/zz_verif/jsrt")
		if err != nil {
			why = strings.TrimSpace(tail(out+" "+err.Error(), 300))
		}
	}
	if why != "" {
		fmt.Println("the client is not covered:", why)
		os.WriteFile(gen, []byte(fmt.Sprintf("package tsgen\n\nimport . %q\n\nconst Bundle = \"\"\nconst Why = %q\n\nfunc Export(string) V { return nil }\n", repoModule+"/zz_verif/jsrt", why)), 0o644)
	}
	over[dst] = gen
}

// commandOverlay adds the commands that harnesses ask for, as packages.
func commandOverlay(over map[string]string, work string) error {
	names := map[string]bool{}
	for _, f := range over {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range commandRe.FindAllStringSubmatch(string(b), -1) {
			names[m[1]] = true
		}
	}
	for n := range names {
		fs, _ := filepath.Glob(filepath.Join(repoDir, n, "*.go"))
		add := func(name, src string) error {
			dst := filepath.Join(work, n+"main_"+name)
			over[filepath.Join(repoDir, "zz_verif", n+"main", name)] = dst
			return os.WriteFile(dst, []byte(src), 0o644)
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			if err := add(filepath.Base(f), mainRe.ReplaceAllString(string(b), "package "+n+"main")); err != nil {
				return err
			}
		}
		if err := add("zz_main.go", "package "+n+"main\n\n// Main runs the command.\nfunc Main() { main() }\n"); err != nil {
			return err
		}
	}
	return nil
}

func loadProg(pkgs []string, work string) (*Loaded, error) {
	ld, err := loadWith(pkgs, work, "")
	if err != nil && strings.Contains(err.Error(), "zz_verif/tsgen/") {
		return loadWith(pkgs, work, err.Error())
	}
	return ld, err
}

func loadWith(pkgs []string, work, why string) (*Loaded, error) {
	over, err := overlayFiles(pkgs)
	if err != nil {
		return nil, err
	}
	tsOverlay(over, work, why)
	if err := commandOverlay(over, work); err != nil {
		return nil, err
	}
	want := map[string]bool{}
	for _, f := range over {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "rand.VerifHook") {
			want["rand"] = true
		}
	}
	so, err := stdOverlay(work, want)
	if err != nil {
		return nil, err
	}
	for k, v := range so {
		over[k] = v
	}
	content := map[string][]byte{}
	for k, v := range over {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: content,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	var pats []string
	for _, pk := range pkgs {
		pats = append(pats, "./zz_verif/"+pk)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(3, len(errs))], "; "))
	}
	prog, roots := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{ssa: prog, globIdx: map[*ssa.Global]int{}, meth: map[methKey]*ssa.Function{}, impl: map[implKey]bool{}, pkgs: map[string]*ssa.Package{}, repoMod: repoModule}
	for _, sp := range prog.AllPackages() {
		if sp == nil {
			continue
		}
		p.pkgs[sp.Pkg.Path()] = sp
	}
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var ms []string
		for mn := range p.pkgs[n].Members {
			ms = append(ms, mn)
		}
		sort.Strings(ms)
		for _, mn := range ms {
			if g, ok := p.pkgs[n].Members[mn].(*ssa.Global); ok {
				p.globIdx[g] = len(p.globs)
				p.globs = append(p.globs, g)
			}
		}
	}
	// init order: dependencies first
	done := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if done[t] {
			return
		}
		done[t] = true
		for _, im := range t.Imports() {
			visit(im)
		}
		if sp := prog.Package(t); sp != nil {
			if f := sp.Func("init"); f != nil {
				p.inits = append(p.inits, f)
			}
		}
	}
	for _, r := range roots {
		visit(r.Pkg)
	}
	if sp := p.pkgs["errors"]; sp != nil {
		p.tErrStr = p.canon(types.NewPointer(sp.Type("errorString").Type()))
	}
	if sp := p.pkgs["fmt"]; sp != nil {
		p.tWrapErr = p.canon(types.NewPointer(sp.Type("wrapError").Type()))
		if t := sp.Type("wrapErrors"); t != nil {
			p.tWrapErrs = p.canon(types.NewPointer(t.Type()))
		}
	}
	// "//verif:replace NAME": a harness function that stands in for NAME (a
	// function of the operating system) in the symbolic execution.
	p.repl = map[string]*ssa.Function{}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, repoModule+"/zz_verif/") {
			return
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if n, ok := strings.CutPrefix(c.Text, "//verif:replace "); ok {
						p.repl[strings.TrimSpace(n)] = prog.Package(pk.Types).Func(fd.Name.Name)
					}
				}
			}
		}
	})
	ld := &Loaded{p: p, over: over, pkgs: pkgs}
	for i, pk := range ps {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				var h *Harness
				doc := ""
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:harness") {
						if h == nil {
							h = &Harness{Name: fd.Name.Name, Pkg: pkgs[i], Opts: map[string]string{}, Quick: map[string]int{}, Thor: map[string]int{}}
						}
						for _, m := range dirRe.FindAllStringSubmatch(c.Text, -1) {
							v := m[2]
							if strings.HasPrefix(v, `"`) {
								v = m[3]
							}
							switch m[1] {
							case "prop":
								h.Prop = v
							case "quick":
								h.Quick = parseParams(v)
							case "thorough":
								h.Thor = parseParams(v)
							case "kf":
								h.KF = v
							default:
								h.Opts[m[1]] = v
							}
						}
					} else {
						doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
					}
				}
				if h == nil {
					continue
				}
				h.Doc = strings.TrimSpace(doc)
				h.fn = roots[i].Func(h.Name)
				ld.hs = append(ld.hs, h)
			}
		}
	}
	_ = token.NoPos
	return ld, nil
}

func goEnv(k string) (string, error) {
	out, err := runCmd(repoDir, nil, 60, "go", "env", k)
	return strings.TrimSpace(out), err
}

// writeOverlay writes the -overlay file for the native build, with a generated main.
func writeOverlay(ld *Loaded, work string) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + repoModule + "/zz_verif/sym\"\n")
	for _, pk := range ld.pkgs {
		fmt.Fprintf(&sb, "\t%s \"%s/zz_verif/%s\"\n", pk, repoModule, pk)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range ld.hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.Pkg+"."+h.Name, h.Pkg, h.Name)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(work, "main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{}
	for k, v := range ld.over {
		rep[k] = v
	}
	rep[filepath.Join(repoDir, "zz_verif", "zzmain", "main.go")] = mf
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	of := filepath.Join(work, "overlay.json")
	return of, os.WriteFile(of, b, 0o644)
}
