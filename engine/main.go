package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// goverif: contract-based verification of the Go code in /repo.
//
//	goverif -prop C01 -tier quick      decide one property
//	goverif -lemma VL_C01              development: run lemmas and print obligations
//	goverif -replay FILE               re-run a recorded failing input against the real code
func main() {
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "", "quick or thorough")
	lem := flag.String("lemma", "", "run lemmas with this prefix (development)")
	worker := flag.String("worker", "", "internal: lemmas to run, comma separated")
	assume := flag.String("contracts", "", "internal: contracts to use")
	secs := flag.Float64("secs", 240, "time limit per lemma")
	xcheck := flag.Bool("xcheck", false, "cross-check discharged obligations with other solvers")
	trace := flag.Bool("trace", false, "")
	replay := flag.String("replay", "", "replay file")
	slow := flag.Duration("slow", 0, "report slow queries")
	nat := flag.Float64("native", 0, "development: also run lemmas natively for this many seconds")
	flag.Parse()
	debugSlow = *slow
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(3 << 30)
	if p := os.Getenv("GOVERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch {
	case *worker != "":
		runWorker(strings.Split(*worker, ","), splitList(*assume), *secs, *xcheck, *trace)
	case *lem != "":
		devRun(*lem, *secs, *trace, *nat)
	case *replay != "":
		os.Exit(doReplay(*replay))
	case *prop != "":
		if *tier == "" {
			*tier = os.Getenv("VERIF_TIER")
		}
		if *tier != "thorough" {
			*tier = "quick"
		}
		os.Exit(decide(*prop, *tier))
	default:
		flag.Usage()
		os.Exit(2)
	}
}

func splitList(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

// ---- contracts ----

// contractTable finds the specification functions: VS_<name> carries a comment-free
// convention, the target is named by a string constant VT_<name>.
func (l *Loaded) contractTable(use []string) map[string]*Summary {
	out := map[string]*Summary{}
	for _, n := range use {
		for _, d := range []string{"root", "mnemonic", "pgp", "cmd"} {
			p := l.pkgs[d]
			f := p.Func("VS_" + n)
			c := p.Const("VT_" + n)
			if f == nil || c == nil {
				continue
			}
			t, _ := strconv.Unquote(c.Value.Value.ExactString())
			su := &Summary{spec: f, proved: true, opaque: map[string]int{}}
			if o := p.Const("VO_" + n); o != nil { // pure specification functions its users need not look into: name=size
				q, _ := strconv.Unquote(o.Value.Value.ExactString())
				for _, e := range strings.Fields(q) {
					k, v, _ := strings.Cut(e, "=")
					su.opaque[k], _ = strconv.Atoi(v)
				}
			}
			out[t] = su
		}
	}
	return out
}

// ---- worker ----

type WireLemma struct {
	Name, Pkg string
	OK        bool
	Missing   string
	Obls      []*Obligation
	Unsup     []string
	Vacuous   []string
	Soft      []string
	Reached   []string
	Paths     int
	Steps     int
	Secs      float64
	Called    []string
	Trusted   []string
	Contract  []string
	Accels    []string
	Notes     []string
	Params    []string
	XAgree    map[string]int
	XUnknown  map[string]int
	XDisagree []string
}
type WireOut struct {
	RepoErr  string
	Dropped  map[string]string
	Lemmas   []*WireLemma
	Queries  int
	SolverS  float64
	MaxQuery float64
	LoadS    float64
}

func runWorker(names, contracts []string, secs float64, xcheck, trace bool) {
	out := &WireOut{}
	t0 := time.Now()
	l, err := load()
	if err != nil {
		out.RepoErr = "engine: " + err.Error()
		emitJSON(out)
		return
	}
	out.Dropped = l.dropped
	out.LoadS = time.Since(t0).Seconds()
	if l.repoErr != "" {
		out.RepoErr = l.repoErr
		emitJSON(out)
		return
	}
	table := l.contractTable(contracts)
	for _, n := range names {
		fns := l.lemmas(n)
		var w *WireLemma
		for _, fn := range fns {
			if fn.Name() != n {
				continue
			}
			r := l.runLemma(fn, table, time.Now().Add(time.Duration(secs*float64(time.Second))), runOpt{trace: trace, keepGoals: xcheck})
			w = &WireLemma{Name: r.Name, Pkg: r.Pkg, OK: r.OK, Obls: r.Obls, Unsup: r.Unsup, Vacuous: r.Vacuous, Soft: r.Soft, Reached: r.Reached, Paths: r.Paths, Steps: r.Steps,
				Secs: r.Secs, Called: r.Called, Trusted: r.Trusted, Contract: r.Contract, Accels: r.Accels, Notes: r.Notes}
			for _, p := range fn.Params {
				w.Params = append(w.Params, p.Name()+" "+p.Type().String())
			}
			if xcheck {
				crossCheck(w, r)
			}
		}
		if w == nil {
			w = &WireLemma{Name: n, Missing: "lemma not available in this tree"}
		}
		out.Lemmas = append(out.Lemmas, w)
	}
	out.Queries, out.SolverS, out.MaxQuery = primary.queries, primary.elapsed.Seconds(), primary.maxTime.Seconds()
	emitJSON(out)
}

func emitJSON(v any) {
	b, _ := json.Marshal(v)
	os.Stdout.Write(b)
}

// crossCheck re-proves the obligations z3 discharged with independent solvers.
func crossCheck(w *WireLemma, r *LemmaResult) {
	w.XAgree, w.XUnknown = map[string]int{}, map[string]int{}
	sv := []*Solver{{name: "cvc5", argv: []string{"cvc5", "--incremental", "--lang", "smt2"}}, {name: "z3-new", argv: []string{"z3-new", "-in"}}}
	end := time.Now().Add(150 * time.Second)
	for _, s := range sv {
		for _, o := range r.Obls {
			for _, g := range o.goals {
				if time.Now().After(end) {
					w.XUnknown[s.name]++
					continue
				}
				res, _, _ := s.check(g, 10000, nil)
				switch res {
				case Unsat:
					w.XAgree[s.name]++
				case Unknown:
					w.XUnknown[s.name]++
				case Sat:
					w.XDisagree = append(w.XDisagree, s.name+": "+o.Kind+" "+o.Label)
				}
			}
		}
		s.stop()
	}
}

func devRun(prefix string, secs float64, trace bool, nat float64) {
	l, err := load()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for k, e := range l.dropped {
		fmt.Println("DROPPED", k, e)
	}
	if l.repoErr != "" {
		fmt.Println(l.repoErr)
		os.Exit(2)
	}
	for _, fn := range l.lemmas(prefix) {
		r := l.runLemma(fn, l.contractTable(lemmaUses(fn.Name())), time.Now().Add(time.Duration(secs*float64(time.Second))), runOpt{trace: trace})
		fmt.Printf("%s ok=%v paths=%d steps=%d %.1fs  z3 %d queries %.1fs max %.1fs\n", r.Name, r.OK, r.Paths, r.Steps, r.Secs, primary.queries, primary.elapsed.Seconds(), primary.maxTime.Seconds())
		for _, o := range r.Obls {
			if o.Failed > 0 || (o.Kind != "no-panic" && os.Getenv("V") != "") {
				fmt.Printf("   %s %s n=%d triv=%d smt=%d FAILED=%d %s\n", o.Kind, o.Label, o.Instances, o.Trivial, o.BySolver, o.Failed, o.Reason)
			}
			if o.Failed > 0 {
				fmt.Println("      model", o.Model)
			}
		}
		for _, u := range r.Unsup {
			fmt.Println("   UNSUP", u)
		}
		if len(r.Vacuous) > 0 {
			fmt.Println("   vacuous", r.Vacuous)
		}
		if len(r.Contract) > 0 {
			fmt.Println("   contracts", r.Contract)
		}
		if len(r.Accels) > 0 {
			fmt.Println("   loops", r.Accels)
		}
		if nat > 0 {
			n, _ := newNative(l.overlay)
			o, err := n.run(r.Pkg, true, nativeJob{Lemma: r.Name, Seed: 1, Seconds: nat, Timeout: 30}, nil)
			n.close()
			if err != nil {
				fmt.Println("   NATIVE", err)
			} else {
				fmt.Printf("   native runs=%d held=%d failed=%v %s %v %s\n", o.Runs, o.Held, o.Failed, o.Label, o.Show, o.Stack)
			}
		}
	}
}

// ---- deciding a property ----

// specScan lists lemmas and the contracts they use from the committed specification files.
type specInfo struct {
	file     string
	pkg      string
	optional bool
	uses     []string
}

var (
	funcRe = regexp.MustCompile(`(?m)^func (V[LBP]_\w+)\(`)
	bodyRe = regexp.MustCompile(`(?m)^//verif:body (.*)\nfunc (V[LBP]_\w+)\(`)
	usesRe = regexp.MustCompile(`(?m)^//verif:uses (.*)$`)
	optRe  = regexp.MustCompile(`(?m)^//verif:optional`)
)

func specScan() map[string]*specInfo {
	out := map[string]*specInfo{}
	for d := range pkgDirs {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "spec", d, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			si := &specInfo{file: f, pkg: d, optional: optRe.Match(b)}
			for _, m := range usesRe.FindAllStringSubmatch(string(b), -1) {
				si.uses = append(si.uses, strings.Fields(m[1])...)
			}
			for _, m := range funcRe.FindAllStringSubmatch(string(b), -1) {
				out[m[1]] = si
			}
		}
	}
	return out
}

// lemmaBodies: functions that a lemma is about, whose assumed contracts it does not use.
func lemmaBodies(name string) map[string]bool {
	out := map[string]bool{}
	if si := specScan()[name]; si != nil {
		b, _ := os.ReadFile(si.file)
		for _, m := range bodyRe.FindAllStringSubmatch(string(b), -1) {
			if m[2] == name {
				for _, f := range strings.Fields(m[1]) {
					out[f] = true
				}
			}
		}
	}
	return out
}

func lemmaUses(name string) []string {
	if si := specScan()[name]; si != nil {
		return si.uses
	}
	return nil
}

func runWorkers(names []string, contracts func(string) []string, secs float64, xcheck bool) (map[string]*WireLemma, []*WireOut, error) {
	self, _ := os.Executable()
	res := map[string]*WireLemma{}
	var outs []*WireOut
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var firstErr error
	for _, n := range names {
		wg.Add(1)
		go func(n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			args := []string{"-worker", n, "-secs", fmt.Sprint(secs), "-contracts", strings.Join(contracts(n), ",")}
			if xcheck {
				args = append(args, "-xcheck")
			}
			c := exec.Command(self, args...)
			c.Stderr = os.Stderr
			b, err := c.Output()
			mu.Lock()
			defer mu.Unlock()
			var o WireOut
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			if err != nil {
				if firstErr == nil {
					firstErr = fmt.Errorf("verifier process for %s: %v", n, err)
				}
				res[n] = &WireLemma{Name: n, Unsup: []string{"the verifier process failed: " + err.Error()}}
				return
			}
			outs = append(outs, &o)
			for _, l := range o.Lemmas {
				res[l.Name] = l
			}
			if o.RepoErr != "" {
				firstErr = fmt.Errorf("%s", o.RepoErr)
			}
		}(n)
	}
	wg.Wait()
	return res, outs, firstErr
}

func decide(id, tier string) int {
	start := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	scan := specScan()
	var names []string
	for n := range scan {
		if strings.HasPrefix(n, "VL_"+id+"_") || strings.HasPrefix(n, "VB_"+id+"_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no lemma for", id)
		return 2
	}
	// contracts: proved in this very run, in parallel with their uses
	need := map[string]bool{}
	var close func(n string)
	close = func(n string) {
		for _, u := range scan[n].uses {
			if !need[u] {
				need[u] = true
				if scan["VP_"+u] != nil {
					close("VP_" + u)
				}
			}
		}
	}
	for _, n := range names {
		close(n)
	}
	var contracts []string
	for u := range need {
		contracts = append(contracts, u)
	}
	sort.Strings(contracts)
	all := append([]string{}, names...)
	for _, c := range contracts {
		if scan["VP_"+c] != nil {
			all = append(all, "VP_"+c)
		}
	}
	secs := 200.0
	if tier == "thorough" {
		secs = 1500
	}
	bad := map[string]bool{}
	usesOf := func(n string) []string {
		var o []string
		for _, u := range scan[n].uses {
			if !bad[u] {
				o = append(o, u)
			}
		}
		return o
	}
	xc := tier == "thorough"
	res, outs, err := runWorkers(all, usesOf, secs, xc)
	if err != nil && len(outs) > 0 && outs[len(outs)-1].RepoErr != "" {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		return 2
	}
	// a contract that does not hold (or does not fit the current code) is dropped:
	// its callers are checked against the body instead
	var droppedContracts []string
	for round := 0; round < 3; round++ {
		changed := false
		for _, c := range contracts {
			r := res["VP_"+c]
			if !bad[c] && (r == nil || !r.OK) {
				bad[c] = true
				changed = true
				droppedContracts = append(droppedContracts, c)
			}
		}
		if !changed {
			break
		}
		var again []string
		for _, n := range all {
			for _, u := range scan[n].uses {
				if bad[u] && !(strings.HasPrefix(n, "VP_") && bad[n[3:]]) {
					again = append(again, n)
					break
				}
			}
		}
		if len(again) == 0 {
			break
		}
		r2, o2, _ := runWorkers(again, usesOf, secs, xc)
		for k, v := range r2 {
			res[k] = v
		}
		outs = append(outs, o2...)
	}
	ev := newEvidence(id, tier, seed)
	ev.addRun(res, outs, names, contracts, bad)
	reached := map[string]bool{}
	for _, n := range names {
		for _, l := range res[n].Reached {
			reached[l] = true
		}
	}
	for _, n := range names {
		for _, l := range res[n].Soft {
			if !reached[l] {
				res[n].Vacuous, res[n].OK = append(res[n].Vacuous, l), false
			}
		}
	}
	// verdict
	var failed []*WireLemma
	skipped := map[string]string{}
	proved, bounded := 0, 0
	for _, n := range names {
		r := res[n]
		if r.Missing != "" && scan[n].optional {
			skipped[n] = r.Missing
			continue
		}
		if r.OK {
			if strings.HasPrefix(n, "VB_") {
				bounded++
			} else {
				proved++
			}
			continue
		}
		failed = append(failed, r)
	}
	if proved+bounded == 0 && len(failed) == 0 {
		failed = append(failed, &WireLemma{Name: names[0], Missing: "no lemma of this property fits the current code"})
	}
	ev.Skipped = skipped
	ev.DroppedContracts = droppedContracts
	var disagree []string
	for _, r := range res {
		disagree = append(disagree, r.XDisagree...)
	}
	overlay := overlayFiles()
	for _, o := range outs {
		for src := range o.Dropped {
			for k, f := range overlay {
				if f == src {
					delete(overlay, k)
				}
			}
		}
	}
	code := 0
	if len(failed) > 0 {
		code = 1
		ev.Violations = 1
		budget := 100.0
		if tier == "thorough" {
			budget = 400
		}
		rep := reportViolation(id, failed, names, res, scan, overlay, seed, budget, start)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", id, rep.path)
		if !rep.found {
			line += " no-failing-input-found"
		}
		for _, r := range failed {
			for _, s := range describeFailure(r) {
				fmt.Println("  " + s)
			}
		}
		if rep.found {
			fmt.Println("  failing input:", strings.Join(rep.show, " | "), "->", rep.label)
		}
		fmt.Println(line)
	} else {
		fmt.Printf("property %s: %d lemmas proved, %d bounded ones hold, %d obligations discharged\n", id, proved, bounded, ev.discharged)
		if tier == "thorough" {
			// validate the assumed contracts of dependencies by running the lemmas on the real code
			n, err := newNative(overlay)
			if err == nil {
				for _, nm := range names {
					r := res[nm]
					if r == nil || !r.OK {
						continue
					}
					o, err := n.run(r.Pkg, true, nativeJob{Lemma: nm, Seed: seed, Seconds: 20, Timeout: 60}, nil)
					if err != nil {
						ev.NativeNote = append(ev.NativeNote, nm+": "+err.Error())
						continue
					}
					ev.NativeRuns += o.Runs
					ev.NativeHeld += o.Held
					if o.Failed {
						c, err := n.run(r.Pkg, false, nativeJob{Lemma: nm, Replay: o.Inputs, Timeout: 120}, nil)
						if err == nil && c.Failed {
							code = 1
							ev.Violations = 1
							p := writeReplay(id, map[string]any{"property": id, "lemma": nm, "pkg": r.Pkg, "label": c.Label, "inputs": c.Inputs, "show": c.Show,
								"note": "the proof went through but the real code fails the lemma on this input: an assumed contract of a dependency does not hold"})
							fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
							break
						}
					}
				}
				n.close()
			}
		}
	}
	if len(disagree) > 0 {
		fmt.Println("  solver disagreement:", disagree)
		if code == 0 {
			p := writeReplay(id, map[string]any{"property": id, "disagreement": disagree})
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, p)
			code = 1
		}
	}
	ev.write(time.Since(start).Seconds())
	return code
}

func describeFailure(r *WireLemma) []string {
	var out []string
	if r.Missing != "" {
		out = append(out, r.Name+": "+r.Missing)
	}
	for _, o := range r.Obls {
		if o.Failed > 0 {
			out = append(out, fmt.Sprintf("%s: obligation %q (%s) not discharged on %d of %d instances: %s", r.Name, o.Label, o.Kind, o.Failed, o.Instances, o.Reason))
		}
	}
	for _, u := range r.Unsup {
		out = append(out, r.Name+": not verified: "+u)
	}
	for _, v := range r.Vacuous {
		out = append(out, r.Name+": obligation never reached: "+v)
	}
	return out
}

type violation struct {
	path  string
	found bool
	show  []string
	label string
}

func reportViolation(id string, failed []*WireLemma, names []string, res map[string]*WireLemma, scan map[string]*specInfo, overlay map[string]string, seed int64, budget float64, start time.Time) violation {
	v := violation{}
	doc := map[string]any{"property": id}
	var fl []any
	for _, r := range failed {
		fl = append(fl, map[string]any{"lemma": r.Name, "failures": describeFailure(r), "obligations": failedObls(r), "parameters": r.Params})
	}
	doc["failed"] = fl
	var notes []string
	if os.Getenv("GOVERIF_NONATIVE") != "" { // for trying the machinery out
		return v
	}
	n, err := newNative(overlay)
	if err == nil {
		defer n.close()
		order := []string{}
		for _, r := range failed {
			order = append(order, r.Name)
		}
		for _, x := range names {
			dup := false
			for _, y := range order {
				dup = dup || x == y
			}
			if !dup {
				order = append(order, x)
			}
		}
		per := budget
		if len(order) > 1 {
			per = budget / float64(len(failed))
		}
		for i, nm := range order {
			b := per
			if i >= len(failed) {
				b = 15
			}
			if time.Since(start).Seconds()+b > 700 && budget < 200 {
				break
			}
			var hints []map[string]string
			pkg := scan[nm].pkg
			if r := res[nm]; r != nil {
				for _, o := range r.Obls {
					if o.Failed > 0 && o.Model != nil {
						hints = append(hints, o.Model)
					}
				}
			}
			o, note := n.search(pkg, nm, hints, seed, b)
			if note != "" {
				notes = append(notes, nm+": "+note)
			}
			if o != nil {
				v.found, v.show, v.label = true, o.Show, nm+": "+o.Label
				doc["lemma"], doc["pkg"], doc["label"], doc["inputs"], doc["show"], doc["stack"] = nm, pkg, o.Label, o.Inputs, o.Show, o.Stack
				break
			}
		}
	} else {
		notes = append(notes, err.Error())
	}
	doc["search"] = notes
	doc["replay_cmd"] = "bash /verif/check.sh --replay <this file>"
	v.path = writeReplay(id, doc)
	return v
}

func failedObls(r *WireLemma) []any {
	var out []any
	for _, o := range r.Obls {
		if o.Failed > 0 {
			s := o.Script
			if len(s) > 200000 {
				s = s[:200000]
			}
			out = append(out, map[string]any{"label": o.Label, "kind": o.Kind, "at": o.Pos, "reason": o.Reason, "model": o.Model, "smt2": s})
		}
	}
	return out
}

func writeReplay(id string, doc any) string {
	d := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, id+".json")
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d struct {
		Property, Lemma, Pkg string
		Inputs               []json.RawMessage
	}
	if err := json.Unmarshal(b, &d); err != nil || d.Lemma == "" {
		fmt.Println("no input recorded in", path)
		return 2
	}
	l, err := load()
	if err != nil || l.repoErr != "" {
		fmt.Println("cannot load the repository", err)
		return 2
	}
	n, err := newNative(l.overlay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer n.close()
	o, err := n.run(d.Pkg, false, nativeJob{Lemma: d.Lemma, Replay: d.Inputs, Timeout: 120}, nil)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if o.Failed {
		fmt.Printf("reproduced: %s %s on %s\n%s\n", d.Lemma, o.Label, strings.Join(o.Show, " | "), o.Stack)
		return 1
	}
	fmt.Println("the lemma holds on this input")
	return 0
}
