package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Evidence struct {
	id, tier         string
	seed             int64
	cov              map[string]any
	discharged       int
	Skipped          map[string]string
	DroppedContracts []string
	NativeRuns       int
	NativeHeld       int
	NativeNote       []string
	Violations       int
	assumptions      []string
}

func newEvidence(id, tier string, seed int64) *Evidence {
	return &Evidence{id: id, tier: tier, seed: seed, cov: map[string]any{}}
}

var propMeta = map[string]struct {
	Level       string
	Assumptions []string
}{}

func loadMeta() {
	b, err := os.ReadFile(filepath.Join(verifDir, "spec", "meta.json"))
	if err == nil {
		json.Unmarshal(b, &propMeta)
	}
}

func (e *Evidence) addRun(res map[string]*WireLemma, outs []*WireOut, names, contracts []string, bad map[string]bool) {
	total, dis, triv, smt, inBound := 0, 0, 0, 0, 0
	called, trusted, used, loops := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	paths, steps := 0, 0
	var lem []any
	xa, xu := map[string]int{}, map[string]int{}
	var keys []string
	for k := range res {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := res[k]
		if len(k) > 3 && k[:3] == "VP_" && bad[k[3:]] {
			continue
		}
		n, f := 0, 0
		var labels []any
		for _, o := range r.Obls {
			n += o.Instances
			f += o.Failed
			triv += o.Trivial
			smt += o.BySolver
			labels = append(labels, map[string]any{"obligation": o.Label, "kind": o.Kind, "instances": o.Instances, "by_simplifier": o.Trivial, "by_z3": o.BySolver, "failed": o.Failed})
		}
		total += n
		dis += n - f
		if strings.HasPrefix(k, "VB_") {
			inBound += n - f
		}
		paths += r.Paths
		steps += r.Steps
		for _, x := range r.Called {
			called[x] = true
		}
		for _, x := range r.Trusted {
			trusted[x] = true
		}
		for _, x := range r.Contract {
			used[x] = true
		}
		for _, x := range r.Accels {
			loops[x] = true
		}
		for s, c := range r.XAgree {
			xa[s] += c
		}
		for s, c := range r.XUnknown {
			xu[s] += c
		}
		lem = append(lem, map[string]any{"name": k, "proved": r.OK && !strings.HasPrefix(k, "VB_"), "bounded": strings.HasPrefix(k, "VB_"), "holds": r.OK, "paths": r.Paths, "seconds": r.Secs, "not_verified": r.Unsup, "vacuous": r.Vacuous, "missing": r.Missing, "obligations": labels})
	}
	q, qs, mq := 0, 0.0, 0.0
	for _, o := range outs {
		q += o.Queries
		qs += o.SolverS
		if o.MaxQuery > mq {
			mq = o.MaxQuery
		}
	}
	e.discharged = dis
	c := e.cov
	c["obligations"] = total
	c["discharged"] = dis
	c["discharged_within_a_bound_only"] = inBound
	c["discharged_by"] = map[string]int{"simplifier": triv, "z3": smt}
	c["checker_cmd"] = "bash /verif/check.sh " + e.id + " " + e.tier
	c["functions_under_contract"] = sortedKeys(called)
	c["contracts_used_at_call_sites"] = sortedKeys(used)
	c["loop_summaries"] = sortedKeys(loops)
	c["trusted_base"] = sortedKeys(trusted)
	c["symbolic_paths"] = paths
	c["ssa_instructions_executed"] = steps
	c["solver"] = map[string]any{"name": "z3 4.8.12", "queries": q, "seconds": qs, "slowest_query_s": mq}
	c["lemmas"] = lem
	if e.tier == "thorough" {
		c["cross_check_agree"] = xa
		c["cross_check_unknown"] = xu
	}
}

func (e *Evidence) write(wall float64) {
	loadMeta()
	m := propMeta[e.id]
	if m.Level == "" {
		m.Level = "proof"
	}
	c := e.cov
	c["lemmas_not_applicable_to_this_tree"] = e.Skipped
	c["contracts_not_proved_callers_checked_against_bodies"] = e.DroppedContracts
	if e.tier == "thorough" {
		c["model_validation_native_runs"] = e.NativeRuns
		c["model_validation_native_runs_meeting_preconditions"] = e.NativeHeld
		c["model_validation_notes"] = e.NativeNote
	}
	as := append([]string{}, m.Assumptions...)
	as = append(as, commonAssumptions...)
	doc := map[string]any{"property": e.id, "tier": e.tier, "seed": e.seed, "level": m.Level, "coverage": c, "wall_s": wall, "violations": e.Violations, "assumptions": as}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", e.id+".json"), b, 0o644)
}

var commonAssumptions = []string{
	"the verifier itself: go/packages, go/ssa, the symbolic semantics of SSA instructions in /verif/engine, and z3",
	"every function in trusted_base is replaced by an assumed contract: standard library code by its documented behaviour, cryptographic primitives by uninterpreted functions of all of their inputs",
	"machine integers are bit-vectors of their exact width (wrap-around included); big.Int magnitudes are modelled up to 512 bits and anything beyond is reported as not verified; byte strings and slices are shorter than 2^40",
	"memory is never exhausted; no other goroutine mutates the values involved; reflect, unsafe and the garbage collector do not interfere",
}
