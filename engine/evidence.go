package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(prop, tier string, seed uint64, ld *Loaded, reps []*hReport, wall time.Duration, exit int) {
	states, trans, nat, oblig, disch, syn, queries, hits := 0, 0, 0, 0, 0, 0, 0, 0
	var solver time.Duration
	exhaustive := true
	var samples []any
	var hs []any
	cross, dis := 0, 0
	for _, r := range reps {
		if r.skipped != "" {
			exhaustive = false
			hs = append(hs, map[string]any{"harness": r.h.Name, "skipped": r.skipped})
			continue
		}
		st := &r.x.st
		o := map[string]any{
			"harness": r.h.Pkg + "." + r.h.Name, "what": r.h.Doc, "bounds": r.h.Opts["bounds"], "params": r.params,
			"paths": st.Paths, "path_endings": st.Kinds, "decisions": st.Decisions,
			"obligations": st.Oblig, "discharged_unsat": st.ObligDischarged, "discharged_constant": st.SynDischarged,
			"branch_queries": st.Flips - st.Oblig, "solver_queries": st.Queries, "cache_hits": st.CacheHits,
			"solver_s": st.SolverTime.Seconds(), "wall_s": st.Wall.Seconds(), "exhausted": st.Exhausted,
			"incomplete": st.Incomplete, "max_symbolic_variables": st.MaxVars, "ssa_steps": st.Steps,
			"native_conformance_ok": r.natOK, "native_conformance_mismatch": len(r.natBad), "reached": st.Reached,
			"crosschecked_queries": st.Cross, "crosscheck_disagreements": st.CrossDisagree, "crosscheck_unknown": st.CrossUnknown,
		}
		if r.known != "" {
			o["known_finding"] = r.known
		}
		if len(r.unrep) > 0 {
			o["unreproduced"] = r.unrep
		}
		if len(r.natBad) > 0 {
			o["mismatches"] = r.natBad[:min(5, len(r.natBad))]
		}
		if len(r.viol) > 0 {
			o["violations"] = r.viol
		}
		hs = append(hs, o)
		if r.h.KF == "" && !st.Exhausted {
			exhaustive = false
		}
		states += st.Paths
		trans += st.Decisions
		nat += r.natOK
		oblig += st.Oblig
		disch += st.ObligDischarged
		syn += st.SynDischarged
		queries += st.Queries
		hits += st.CacheHits
		solver += st.SolverTime
		cross += st.Cross
		dis += st.CrossDisagree
		for i, s := range r.x.samp {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.h.Name, "model_of_path": describe(s), "observed": s.obs})
		}
	}
	if samples == nil {
		samples = []any{"no path completed"}
	}
	fns := []string{}
	ld.p.fns.Range(func(k, v any) bool {
		f := v.(*Fn)
		if f.isRepo && f.hits.Load() > 0 {
			if n := ld.tsName(f); n != "-" {
				fns = append(fns, n)
			}
		}
		return true
	})
	sort.Strings(fns)
	dup := fns[:0]
	for i, f := range fns {
		if i == 0 || f != fns[i-1] {
			dup = append(dup, f)
		}
	}
	viol := 0
	for _, r := range reps {
		if r.known == "" {
			viol += len(r.viol)
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": viol,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": nat, "samples": samples,
			"exhaustive": exhaustive, "obligations": oblig, "discharged": disch, "discharged_by_constant_folding": syn,
			"solver_queries": queries, "solver_cache_hits": hits, "solver_s": solver.Seconds(),
			"crosschecked_queries": cross, "crosscheck_disagreements": dis,
			"functions_encoded": dup, "harnesses": hs,
			"explanation":           "states = symbolic paths of the real code (each covers every input satisfying its path condition); transitions = symbolic decisions on them; obligations = assertions and run-time checks whose negation was sent to the SMT solver; traces_validated_against_impl = path models replayed on the native build with identical observations.",
			"package_inits_not_run": ld.p.initFails,
		},
		"assumptions": []string{
			"bounds as listed per harness; nothing is claimed outside them",
			"go/ssa translation and the Go compiler agree; logging (log, log/slog) has no effect; fmt formatting is opaque text; mutexes are no-ops (single goroutine)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), b, 0o644)
	_ = exit
}

// tsName is the name of a function for the evidence: for a translated one that
// of the original, or "-".
func (ld *Loaded) tsName(f *Fn) string {
	if !strings.Contains(f.name, "/zz_verif/tsgen.") {
		return f.name
	}
	if ld.tsLines == nil {
		b, _ := os.ReadFile(ld.over[filepath.Join(repoDir, "zz_verif", "tsgen", "gen.go")])
		ld.tsLines = strings.Split(string(b), "\n")
	}
	if l := f.fn.Prog.Fset.Position(f.fn.Pos()).Line; l > 0 && l < len(ld.tsLines) {
		if n, ok := strings.CutPrefix(strings.TrimSpace(ld.tsLines[l]), "//@ "); ok {
			return n
		}
	}
	return "-"
}
