package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func runCmd(dir string, env []string, secs int, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	c.Env = append(c.Env, env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	if err != nil {
		err = fmt.Errorf("%s %s: %v: %s", name, strings.Join(args, " "), err, tail(se.String(), 2000))
	}
	return so.String(), err
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Native is the natively built replay binary.
type Native struct {
	bin  string
	err  error
	done chan struct{}
	work string
	n    int
	mu   sync.Mutex
}

func buildNative(ld *Loaded, work string) *Native {
	n := &Native{done: make(chan struct{}), work: work, bin: filepath.Join(work, "replay")}
	go func() {
		defer close(n.done)
		of, err := writeOverlay(ld, work)
		if err != nil {
			n.err = err
			return
		}
		_, n.err = runCmd(repoDir, []string{"CGO_ENABLED=0"}, 300, "go", "build", "-overlay", of, "-o", n.bin, "./zz_verif/zzmain")
	}()
	return n
}

type natCase struct {
	Harness string         `json:"harness"`
	Vals    []uint64       `json:"vals"`
	Params  map[string]int `json:"params"`
}
type natRes struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Stack  string   `json:"stack"`
}

// run executes the cases in order; a crash of the process ends one case with status "crash".
func (n *Native) run(cs []natCase) ([]natRes, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	var res []natRes
	for len(res) < len(cs) {
		n.mu.Lock()
		n.n++
		f := filepath.Join(n.work, fmt.Sprintf("cases%d.json", n.n))
		dir := filepath.Join(n.work, fmt.Sprintf("cwd%d", n.n))
		n.mu.Unlock()
		os.MkdirAll(dir, 0o755)
		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		for _, c := range cs[len(res):] {
			enc.Encode(c)
		}
		if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
			return res, err
		}
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		cmd := exec.CommandContext(ctx, n.bin, f)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "TMPDIR="+dir)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		cancel()
		os.Remove(f)
		os.RemoveAll(dir)
		got := 0
		for _, l := range strings.Split(so.String(), "\n") {
			if strings.HasPrefix(l, "@@") {
				var r natRes
				if json.Unmarshal([]byte(l[2:]), &r) == nil {
					res = append(res, r)
					got++
				}
			}
		}
		if len(res) < len(cs) {
			if err == nil && got == 0 {
				return res, fmt.Errorf("replay produced no result")
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				continue // hang was reported as a result
			}
			e := se.String()
			if len(e) > 600 {
				e = e[:600]
			}
			res = append(res, natRes{Status: "crash", Msg: fmt.Sprintf("process died: %v: %s", err, e)})
		}
	}
	return res[:len(cs)], nil
}

func (r natRes) bad() bool {
	return r.Status == "violation" || r.Status == "crash" || r.Status == "hang"
}

// ---- known findings ----

type finding struct {
	id, prop, text string
}

func loadFindings() map[string]finding {
	m := map[string]finding{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		var rest []string
		for _, w := range strings.Fields(l[7:]) {
			switch {
			case strings.HasPrefix(w, "id=") && f.id == "":
				f.id = w[3:]
			case strings.HasPrefix(w, "property=") && f.prop == "":
				f.prop = w[9:]
			default:
				rest = append(rest, w)
			}
		}
		f.text = strings.Join(rest, " ")
		m[f.id] = f
	}
	return m
}

// ---- check ----

type hReport struct {
	h       *Harness
	x       *Explorer
	params  map[string]int
	viol    []map[string]any
	unrep   []map[string]any
	natOK   int
	natBad  []string
	natViol int
	known   string
	skipped string
}

func scanProps() map[string][]string { // prop -> harness packages
	m := map[string][]string{}
	dirs, _ := os.ReadDir(harnessDir())
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "sym" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(harnessDir(), d.Name(), "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				if !strings.HasPrefix(l, "//verif:harness") {
					continue
				}
				for _, mm := range dirRe.FindAllStringSubmatch(l, -1) {
					if mm[1] == "prop" {
						has := false
						for _, q := range m[mm[2]] {
							has = has || q == d.Name()
						}
						if !has {
							m[mm[2]] = append(m[mm[2]], d.Name())
						}
					}
				}
			}
		}
	}
	return m
}

func atoi(s string, d int) int {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return d
}

func tierParams(h *Harness, tier string) map[string]int {
	m := map[string]int{}
	for k, v := range h.Quick {
		m[k] = v
	}
	if tier == "thorough" {
		for k, v := range h.Thor {
			m[k] = v
		}
	}
	return m
}

func mkCfg(h *Harness, tier string, seed uint64) *runCfg {
	cfg := &runCfg{params: tierParams(h, tier), concLimit: atoi(h.Opts["conc"], 300), workers: runtime.NumCPU(), solver: "z3-new", solver2: "cvc5",
		timeout: 20 * time.Second, maxSteps: int64(atoi(h.Opts["steps"], 30_000_000)), seed: seed, samples: 64, stopFirst: true}
	b := atoi(h.Opts["budget"], 120)
	cfg.budget = time.Duration(b) * time.Second
	if tier == "thorough" {
		cfg.budget = time.Duration(atoi(h.Opts["tbudget"], 900)) * time.Second
		cfg.timeout = 60 * time.Second
		cfg.crossN = 200
		cfg.samples = 400
	}
	return cfg
}

func doCheck(prop, tier string) int {
	t0 := time.Now()
	seed := uint64(atoi(os.Getenv("VERIF_SEED"), 1))
	pkgs := scanProps()[prop]
	if len(pkgs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	sort.Strings(pkgs)
	work, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	ld, err := loadProg(pkgs, work)
	if err != nil {
		fmt.Println("cannot load /repo with the harnesses:", err)
		return 2
	}
	nat := buildNative(ld, work)
	known := loadFindings()
	var reps []*hReport
	exit := 0
	total := time.Duration(600) * time.Second
	if tier == "thorough" {
		total = 6 * time.Hour
	}
	var lines []string
	for _, h := range ld.hs {
		if h.Prop != prop || h.Opts["tier"] == "thorough" && tier != "thorough" {
			continue
		}
		r := &hReport{h: h}
		reps = append(reps, r)
		cfg := mkCfg(h, tier, seed)
		if left := total - time.Since(t0); left < 5*time.Second {
			r.skipped = "time budget of the whole check used up"
			continue
		} else if cfg.budget > left {
			cfg.budget = left
		}
		r.params = cfg.params
		checkHarness(ld, nat, h, cfg, r)
		if h.KF != "" {
			f, listed := known[h.KF]
			if listed && f.prop == prop {
				if len(r.viol) > 0 {
					r.known = f.text
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, h.KF, f.text)
				} else {
					fmt.Printf("note: known finding %s did not reproduce\n", h.KF)
				}
				continue
			}
		}
		for _, v := range r.viol {
			path := writeReplay(prop, h, cfg.params, v)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
			fmt.Printf("%s.%s: %v\n  %v\n", h.Pkg, h.Name, v["message"], v["native"])
			exit = 1
		}
		fmt.Printf("%-28s paths=%d obligations=%d/%d (+%d on constants) queries=%d solver=%.1fs exhaustive=%v native=%d wall=%.1fs %v\n", h.Pkg+"."+h.Name, r.x.st.Paths,
			r.x.st.ObligDischarged, r.x.st.Oblig, r.x.st.SynDischarged, r.x.st.Queries, r.x.st.SolverTime.Seconds(), r.x.st.Exhausted, r.natOK, r.x.st.Wall.Seconds(), incompl(r.x))
		if exit == 1 {
			break
		}
	}
	closePool()
	<-nat.done
	if nat.err != nil {
		fmt.Println("native replay build failed:", nat.err)
		return 2
	}
	writeEvidence(prop, tier, seed, ld, reps, time.Since(t0), exit)
	for _, l := range lines {
		fmt.Println(l)
	}
	return exit
}

func incompl(x *Explorer) string {
	if len(x.st.Incomplete) == 0 {
		return ""
	}
	var ks []string
	for k, v := range x.st.Incomplete {
		ks = append(ks, fmt.Sprintf("%s x%d", k, v))
	}
	sort.Strings(ks)
	return "INCOMPLETE{" + strings.Join(ks, "; ") + "}"
}

func checkHarness(ld *Loaded, nat *Native, h *Harness, cfg *runCfg, r *hReport) {
	var vmu sync.Mutex
	hname := h.Pkg + "." + h.Name
	onViol := func(c caseRec) bool {
		vmu.Lock()
		defer vmu.Unlock()
		if len(r.viol) > 0 {
			return true
		}
		res, err := nat.run([]natCase{{hname, c.model, cfg.params}})
		if err != nil {
			r.unrep = append(r.unrep, map[string]any{"message": c.msg, "error": err.Error()})
			return false
		}
		v := map[string]any{"message": c.msg, "where": c.where, "native": res[0].Status + ": " + res[0].Msg, "vals": c.model, "inputs": describe(c), "stack": res[0].Stack}
		if res[0].bad() && !(h.Opts["hang"] == "ok" && res[0].Status == "hang") {
			r.viol = append(r.viol, v)
			return true
		}
		r.unrep = append(r.unrep, v)
		return false
	}
	r.x = Explore(ld.p, cfg, h, onViol)
	if len(r.unrep) > 0 {
		r.x.st.Exhausted = false
		r.x.st.Incomplete["counterexample not reproduced natively"] += len(r.unrep)
	}
	// conformance of completed paths
	if len(r.x.samp) > 0 && len(r.viol) == 0 {
		var cs []natCase
		for _, s := range r.x.samp {
			cs = append(cs, natCase{hname, s.model, cfg.params})
		}
		res, err := nat.run(cs)
		if err != nil {
			r.x.st.Incomplete["native conformance run: "+err.Error()]++
			return
		}
		for i, q := range res {
			s := r.x.samp[i]
			switch {
			case q.bad():
				// the real build breaks the property on this input
				v := map[string]any{"message": "native run of a path the encoding accepted: " + q.Msg, "native": q.Status + ": " + q.Msg, "vals": s.model, "inputs": describe(s), "stack": q.Stack}
				r.natViol++
				r.viol = append(r.viol, v)
				return
			case q.Status != "done" || strings.Join(q.Obs, "\n") != strings.Join(s.obs, "\n"):
				r.natBad = append(r.natBad, fmt.Sprintf("%v: engine %v native %s %v", describe(s), s.obs, q.Status, q.Obs))
				r.x.st.Incomplete["encoding and native run disagree"]++
				r.x.st.Exhausted = false
			default:
				r.natOK++
			}
		}
	}
}

func describe(c caseRec) []string {
	var out []string
	for i := 0; i < len(c.model); i++ {
		n := c.names[i]
		if strings.HasSuffix(n, "[0]") {
			base := strings.TrimSuffix(n, "[0]")
			var b []byte
			j := i
			for j < len(c.model) && c.names[j] == fmt.Sprintf("%s[%d]", base, j-i) {
				b = append(b, byte(c.model[j]))
				j++
			}
			out = append(out, fmt.Sprintf("%s=%q", base, b))
			i = j - 1
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", n, c.model[i]))
	}
	return out
}

func writeReplay(prop string, h *Harness, params map[string]int, v map[string]any) string {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	o := map[string]any{"property": prop, "harness": h.Pkg + "." + h.Name, "pkg": h.Pkg, "params": params, "doc": h.Doc, "how": "bash /verif/replay.sh <this file>"}
	for k, x := range v {
		o[k] = x
	}
	b, _ := json.MarshalIndent(o, "", " ")
	sum := sha256.Sum256(b)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, h.Name, sum[:6]))
	os.WriteFile(p, b, 0o644)
	return p
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var o struct {
		Harness, Pkg string
		Vals         []uint64
		Params       map[string]int
	}
	if err := json.Unmarshal(b, &o); err != nil {
		fmt.Println(err)
		return 2
	}
	work, _ := os.MkdirTemp("", "gosym-")
	defer os.RemoveAll(work)
	ld, err := loadProg([]string{o.Pkg}, work)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := buildNative(ld, work)
	res, err := nat.run([]natCase{{o.Harness, o.Vals, o.Params}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %s\n", res[0].Status, res[0].Msg)
	if res[0].Stack != "" {
		fmt.Println(res[0].Stack)
	}
	for _, l := range res[0].Obs {
		fmt.Println("  ", l)
	}
	if res[0].bad() {
		return 1
	}
	return 0
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check PID TIER | replay FILE | run PKG HARNESS [k=v...]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(doCheck(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(doReplay(os.Args[2]))
	case "run":
		os.Exit(doRun(os.Args[2:]))
	case "props":
		for k, v := range scanProps() {
			fmt.Println(k, v)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

// doRun is the development entry: run harnesses of a package by name.
func doRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	dbg := fs.Bool("dbg", false, "")
	one := fs.Bool("j1", false, "")
	tier := fs.String("tier", "quick", "")
	budget := fs.Int("budget", 0, "")
	all := fs.Bool("all", false, "do not stop at the first violation")
	cross := fs.Int("cross", 0, "")
	fs.Parse(args)
	args = fs.Args()
	work, _ := os.MkdirTemp("", "gosym-")
	defer os.RemoveAll(work)
	t0 := time.Now()
	ld, err := loadProg([]string{args[0]}, work)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat := buildNative(ld, work)
	fmt.Printf("load %.2fs\n", time.Since(t0).Seconds())
	for _, h := range ld.hs {
		if len(args) > 1 && args[1] != "-" && h.Name != args[1] {
			continue
		}
		cfg := mkCfg(h, *tier, 1)
		cfg.dbg = *dbg
		cfg.stopFirst = !*all
		if *one {
			cfg.workers = 1
		}
		if *budget > 0 {
			cfg.budget = time.Duration(*budget) * time.Second
		}
		if *cross > 0 {
			cfg.crossN = *cross
		}
		if len(args) > 2 {
			for k, v := range parseParams(strings.Join(args[2:], ",")) {
				cfg.params[k] = v
			}
		}
		r := &hReport{h: h}
		checkHarness(ld, nat, h, cfg, r)
		st := r.x.st
		fmt.Printf("%s.%s params=%v\n  paths=%d kinds=%v decisions=%d maxtrail=%d vars=%d steps=%dM\n  oblig=%d/%d syn=%d flips=%d sat=%d queries=%d hits=%d solver=%.2fs wall=%.2fs cross=%d/%d dis\n  exhausted=%v %s\n  reached=%v native ok=%d bad=%d\n",
			h.Pkg, h.Name, cfg.params, st.Paths, st.Kinds, st.Decisions, st.MaxTrail, st.MaxVars, st.Steps/1e6, st.ObligDischarged, st.Oblig, st.SynDischarged, st.Flips, st.SatFlips,
			st.Queries, st.CacheHits, st.SolverTime.Seconds(), st.Wall.Seconds(), st.Cross, st.CrossDisagree, st.Exhausted, incompl(r.x), st.Reached, r.natOK, len(r.natBad))
		for _, v := range r.viol {
			fmt.Printf("  VIOL %v @ %v\n     inputs %v\n     native %v %v\n", v["message"], v["where"], v["inputs"], v["native"], v["stack"])
		}
		for i, v := range r.unrep {
			if i < 3 {
				fmt.Printf("  UNREPRODUCED %v @ %v\n     inputs %v\n     native %v\n", v["message"], v["where"], v["inputs"], v["native"])
			}
		}
		for i, v := range r.natBad {
			if i < 3 {
				fmt.Println("  NATDIFF", v)
			}
		}
	}
	if os.Getenv("GOSYM_INITS") != "" {
		for k, v := range ld.p.initFails {
			fmt.Println("init failed:", k, v)
		}
	}
	closePool()
	<-nat.done
	if nat.err != nil {
		fmt.Println(nat.err)
	}
	return 0
}
