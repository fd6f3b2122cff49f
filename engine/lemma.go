package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Summary is a contract: a specification function that stands for a repository
// function at its call sites once the proof lemma VP_<name> went through in this run.
type Summary struct {
	spec   *ssa.Function
	proved bool
	opaque map[string]int
}

var intrinsics = map[string]modelFn{}

func init() {
	in := intrinsics
	in["Assume"] = func(ex *Exec, st *State, a []Value) Value {
		c := st.simp(a[0].(*Term))
		if c == tTrue {
			return nil
		}
		st.assume(c)
		if !st.dead && ex.feasible(st) == Unsat {
			st.dead = true
		}
		return nil
	}
	in["Assert"] = func(ex *Exec, st *State, a []Value) Value {
		l, ok := constArg(a[0])
		if !ok {
			panic(unsupported{"assert label"})
		}
		if !ex.reached[l] {
			if ex.feasible(st) == Unsat {
				st.dead = true
				return nil
			}
			ex.reached[l] = true
		}
		st.require("assert", l, a[1].(*Term))
		return nil
	}
	// Requires: an assumption while the contract is being proved; at call sites, where it is
	// not provable the body is used instead of the contract
	in["Requires"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		c := a[1].(*Term)
		if ex.curProof != "" && st.top().fn.Name() == "VS_"+ex.curProof {
			return in["Assume"](ex, st, []Value{c})
		}
		if f := st.top(); f.inline != nil && !st.proved(c) {
			panic(inlineReq{l})
		}
		st.require("requires", l, c)
		return nil
	}
	anyAll := func(f func(...*Term) *Term) modelFn {
		return func(ex *Exec, st *State, a []Value) Value {
			var ts []*Term
			for _, e := range st.elems(a[0].(*Slice)) {
				ts = append(ts, st.simp(e.(*Term)))
			}
			return f(ts...)
		}
	}
	in["AnyOf"], in["AllOf"] = anyAll(mkOr), anyAll(mkAnd)
	in["RandByte"] = func(ex *Exec, st *State, a []Value) Value {
		return mkUF("randbyte", 8, a[0].(*Term), a[1].(*Term))
	}
	in["Split"] = func(ex *Exec, st *State, a []Value) Value { // case split on the value
		return mkConst(st.concrete(a[0].(*Term)), 64)
	}
	in["Symbolic"] = func(ex *Exec, st *State, a []Value) Value { return tTrue }
	in["Bytes"] = func(ex *Exec, st *State, a []Value) Value { // uninterpreted n bytes named by label and key
		l, _ := constArg(a[0])
		n := int(st.concrete(a[2].(*Term)).Int64())
		if n == 0 {
			return st.newBytes(Rope{})
		}
		return st.newBytes(ropeBV(mkUF(fmt.Sprintf("oracle:%s:%d", l, n), 8*n, a[1].(*Term))))
	}
	in["Uint64"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		return mkUF("oracle64:"+l, 64, a[1].(*Term), a[2].(*Term))
	}
	// IsFreshRandom: the bytes are exactly values drawn from crypto/rand on this path, none used twice
	in["IsFreshRandom"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.bytesOf(a[0].(*Slice)).asBV()
		if b == nil {
			return tFalse
		}
		parts := []*Term{b}
		if b.op == OpConcat {
			parts = b.args
		}
		seen := map[int]bool{}
		for _, p := range parts {
			q := p
			if q.op == OpExtract {
				q = q.args[0]
			}
			if q.op != OpVar || !strings.HasPrefix(q.name, "rand") || seen[p.id] {
				return tFalse
			}
			seen[p.id] = true
		}
		return tTrue
	}
	// SystemRandom: everything drawn from crypto/rand so far
	in["SystemRandom"] = func(ex *Exec, st *State, a []Value) Value {
		var r Rope
		for _, n := range st.notes {
			if n.kind == "system random" {
				r = ropeCat(r, n.val)
			}
		}
		return st.newBytes(r)
	}
	in["Note"] = func(ex *Exec, st *State, a []Value) Value {
		kind, _ := constArg(a[0])
		st.notes = append(st.notes[:len(st.notes):len(st.notes)], note{kind, st.bytesOf(a[1].(*Slice)), st.bytesOf(a[2].(*Slice))})
		return nil
	}
	in["Noted"] = func(ex *Exec, st *State, a []Value) Value {
		kind, _ := constArg(a[0])
		key := st.bytesOf(a[1].(*Slice))
		for _, n := range st.notes {
			if n.kind == kind && st.simp(ropeEq(n.key, key)) == tTrue {
				return st.newBytes(n.val)
			}
		}
		return st.newBytes(Rope{})
	}
	in["Choose"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		return mkVar(st.freshName("choose:"+l), SBool)
	}
	in["FreshString"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		st.reads++
		return &Str{ropeAtom(mkVar(st.freshName("fresh:"+l), SBytes))}
	}
	// Fun: some function of the parts
	in["Fun"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		var ts []*Term
		for _, e := range st.elems(a[1].(*Slice)) {
			ts = append(ts, strOf(e).bytesTerm())
		}
		return &Str{ropeAtom(mkUF(fmt.Sprintf("fun:%s/%d", l, len(ts)), SBytes, ts...))}
	}
	in["FreshByte"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		st.reads++
		return mkVar(st.freshName("fresh:"+l), 8)
	}
	in["FreshUint32"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		return mkVar(st.freshName("fresh:"+l), 32)
	}
	in["List"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		return st.keyedList(l, strOf(a[1]))
	}
	in["ScanFails"] = func(ex *Exec, st *State, a []Value) Value {
		if r := strOf(a[0]); wordsOnly(r) {
			return tFalse
		}
		return mkUF("scanfails", SBool, strOf(a[0]).bytesTerm())
	}
	in["ScanLimit"] = func(ex *Exec, st *State, a []Value) Value {
		return mkUF("scanlimit", 64, strOf(a[0]).bytesTerm())
	}
	in["FuncName"] = func(ex *Exec, st *State, a []Value) Value {
		if c, ok := a[0].(*Iface).v.(*Closure); ok && c.fn != nil {
			return &Str{ropeStr(fnKey(c.fn))}
		}
		return &Str{}
	}
	in["Unsupported"] = func(ex *Exec, st *State, a []Value) Value {
		l, _ := constArg(a[0])
		panic(unsupported{l})
	}
	// Same: two texts are equal, known without a case split
	in["Same"] = func(ex *Exec, st *State, a []Value) Value {
		return mkBool(st.simp(ropeEq(strOf(a[0]), strOf(a[1]))) == tTrue)
	}
	// PrintedWords: the list words in the text that are not constants
	in["PrintedWords"] = func(ex *Exec, st *State, a []Value) Value {
		var out []Value
		for _, s := range strOf(a[0]).segs {
			if s.atom != nil && s.atom.op == OpUF && s.atom.name == "word" {
				out = append(out, &Str{Rope{segs: []Seg{s}}})
			}
		}
		return st.newSlice(out)
	}
	in["SamePtr"] = func(ex *Exec, st *State, a []Value) Value {
		x, y := a[0].(*Iface), a[1].(*Iface)
		if x.typ == nil || y.typ == nil {
			return mkBool(x.typ == nil && y.typ == nil)
		}
		p, ok1 := x.v.(*Ptr)
		q, ok2 := y.v.(*Ptr)
		if ok1 && ok2 {
			return st.equal(p, q)
		}
		panic(unsupported{"SamePtr"})
	}
}

// inlineReq: a precondition that is not proved.
type inlineReq struct{ label string }

func (ex *Exec) symParam(st *State, name string, t types.Type) Value {
	add := func(t *Term, l *Term) {
		ex.inputs = append(ex.inputs, inputVar{name: name, term: t, lenT: l})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			v := mkVar(name, SBool)
			add(v, nil)
			return v
		case u.Info()&types.IsInteger != 0:
			w, _ := intWidth(u)
			v := mkVar(name, w)
			add(v, nil)
			return v
		case u.Info()&types.IsString != 0:
			v := mkVar(name, SBytes)
			add(nil, lenOf(v))
			return &Str{ropeAtom(v)}
		}
	case *types.Slice:
		if isByteType(u.Elem()) {
			v := mkVar(name, SBytes)
			add(nil, lenOf(v))
			s := st.newBytes(ropeAtom(v))
			s.capUnk = true
			return s
		}
		n := mkVar(name+".n", 64)
		setBound(n, big0, maxLen)
		id := st.newObj(&SymList{name: name, elem: u.Elem(), n: n}, "symbolic list")
		ex.inputs = append(ex.inputs, inputVar{name: name + ".n", term: n})
		return &Slice{obj: id, off: i64(0), len: n, cap: n, capUnk: true}
	case *types.Array:
		if isByteType(u.Elem()) {
			v := mkVar(name, int(u.Len()*8))
			add(v, nil)
			return &ByteArr{ropeBV(v)}
		}
		a := &Array{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, ex.symParam(st, fmt.Sprintf("%s[%d]", name, i), u.Elem()))
		}
		return a
	case *types.Struct:
		s := &Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, ex.symParam(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	}
	panic(unsupported{"lemma parameter of type " + t.String()})
}

type LemmaResult struct {
	Name     string
	Pkg      string
	OK       bool
	Obls     []*Obligation
	Unsup    []string
	Vacuous  []string
	Soft     []string // labels of shared helpers not reached: some lemma of the property must
	Reached  []string
	Paths    int
	Steps    int
	Secs     float64
	Called   []string
	Trusted  []string
	Contract []string
	Accels   []string
	Notes    []string
	Inputs   []inputVar
	fn       *ssa.Function
}

func (l *Loaded) lemmas(prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, d := range []string{"root", "mnemonic", "pgp", "cmd"} {
		var ns []string
		for n, m := range l.pkgs[d].Members {
			if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			out = append(out, l.pkgs[d].Members[n].(*ssa.Function))
		}
	}
	return out
}

func pkgKey(fn *ssa.Function) string {
	for d, rel := range pkgDirs {
		p := modPath
		if rel != "." {
			p += "/" + rel
		}
		if fn.Pkg.Pkg.Path() == p {
			return d
		}
	}
	return "?"
}

// initState runs the package initialisers of the repository packages.
func (ex *Exec) initState(pkg *ssa.Package) *State {
	st := &State{ex: ex, heap: map[ObjID]*Obj{}, known: map[int]*Term{}, memo: map[int]*Term{}, fresh: map[string]int{}, ghost: map[string]Value{}}
	done := false
	f := ex.pushFrame(st, pkg.Func("init"), nil, nil, nil)
	f.onRet = func(s *State, r Value) { done = true; ex.base = s }
	ex.run(st)
	if !done || len(ex.unsup) > 0 {
		return nil
	}
	b := ex.base
	b.frames = nil
	b.dead = false
	return b
}

func (l *Loaded) runLemma(fn *ssa.Function, contracts map[string]*Summary, deadline time.Time, opt runOpt) *LemmaResult {
	start := time.Now()
	ex := l.newExec()
	ex.lemma = fn.Name()
	ex.lemmaPkg = pkgKey(fn)
	ex.bodies = lemmaBodies(fn.Name())
	ex.deadline = deadline
	hardStop = deadline.Add(15 * time.Second)
	ex.trace = opt.trace
	ex.keepGoals = opt.keepGoals
	if opt.qTimeout > 0 {
		ex.qTimeout = opt.qTimeout
	}
	res := &LemmaResult{Name: fn.Name(), Pkg: pkgKey(fn), fn: fn}
	if strings.HasPrefix(fn.Name(), "VP_") {
		ex.curProof = fn.Name()[3:]
	}
	for k, s := range contracts {
		ex.summ[k] = s
		for f, n := range s.opaque {
			if "VP_"+s.spec.Name()[3:] != fn.Name() {
				ex.opaque[f] = n
			}
		}
	}
	if ex.curProof != "" {
		for k, s := range contracts {
			if s.spec.Name() == "VS_"+ex.curProof {
				ex.noSumm[k] = true
			}
		}
	}
	base := ex.initState(fn.Pkg)
	finish := func() *LemmaResult {
		res.Secs = time.Since(start).Seconds()
		for _, k := range ex.order {
			res.Obls = append(res.Obls, ex.obls[k])
		}
		res.Unsup = ex.unsup
		res.Paths, res.Steps = ex.paths, ex.steps
		res.Called, res.Trusted, res.Contract = sortedKeys(ex.called), sortedKeys(ex.trusted), sortedKeys(ex.usedCtr)
		res.Accels, res.Notes = sortedKeys(ex.accels), sortedKeys(ex.notes)
		res.Inputs = ex.inputs
		res.OK = len(ex.unsup) == 0 && len(res.Vacuous) == 0
		for _, o := range res.Obls {
			if o.Failed > 0 {
				res.OK = false
			}
		}
		return res
	}
	if base == nil {
		if len(ex.unsup) == 0 {
			ex.unsup = append(ex.unsup, "package initialisation did not complete")
		}
		return finish()
	}
	ex.paths, ex.steps = 0, 0
	st := base.clone()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					ex.unsup = append(ex.unsup, u.msg)
					return
				}
				panic(r)
			}
		}()
		var args []Value
		for i, p := range fn.Params {
			args = append(args, ex.symParam(st, fmt.Sprintf("p%d", i), p.Type()))
		}
		ex.pushFrame(st, fn, args, nil, nil)
		ex.run(st)
	}()
	// every assertion written in the lemma must have been reached
	var scan func(f *ssa.Function, seen map[*ssa.Function]bool)
	labels := map[string]bool{} // true: written in the lemma itself
	scan = func(f *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[f] || !ex.isOverlay(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil {
					continue
				}
				if cal.Pkg != nil && cal.Pkg.Pkg.Path() == zzvPath {
					if cal.Name() == "Assert" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							lb := strings.Trim(k.Value.ExactString(), "\"")
							if f.Pkg == fn.Pkg { // helpers of other packages serve other lemmas too
								labels[lb] = labels[lb] || f == fn
							}
						}
					}
					continue
				}
				scan(cal, seen)
			}
		}
	}
	scan(fn, map[*ssa.Function]bool{})
	for lb, own := range labels {
		if !ex.reached[lb] && !own {
			res.Soft = append(res.Soft, lb)
		} else if !ex.reached[lb] {
			res.Vacuous = append(res.Vacuous, lb)
		}
	}
	sort.Strings(res.Vacuous)
	sort.Strings(res.Soft)
	res.Reached = sortedKeys(ex.reached)
	if len(labels) == 0 {
		res.Vacuous = append(res.Vacuous, "(no assertion)")
	}
	return finish()
}

type runOpt struct {
	trace     bool
	keepGoals bool
	qTimeout  int
}

// keyedList is a list of strings that is a function of the key.
func (st *State) keyedList(name string, key Rope) *Slice {
	k := key.bytesTerm()
	n := mkUF("count:"+name, 64, k)
	setBound(n, big0, maxLen)
	id := st.newObj(&SymList{name: name, elem: types.Typ[types.String], n: n, key: k}, "list")
	return &Slice{obj: id, off: i64(0), len: n, cap: n, capUnk: true}
}

// wordsOnly: constants and list words.
func wordsOnly(r Rope) bool {
	for _, s := range r.segs {
		if s.atom != nil && s.atom.name != "word" {
			return false
		}
		if s.bv != nil && !s.bv.isConst() {
			return false
		}
	}
	return true
}

// splitWords splits a text of constants and list words (which are letters only) at the
// separators that sep finds in the constants.
func splitWords(r Rope, split func(string) []string) []Value {
	const mark = "\ue000"
	var atoms []*Term
	var sb strings.Builder
	for _, s := range r.segs {
		if s.atom != nil {
			atoms = append(atoms, s.atom)
			sb.WriteString(mark)
			continue
		}
		c, _ := Rope{[]Seg{s}}.constStr()
		sb.WriteString(c)
	}
	var out []Value
	n := 0
	for _, p := range split(sb.String()) {
		var r Rope
		for i, q := range strings.Split(p, mark) {
			if i > 0 {
				r = ropeCat(r, ropeAtom(atoms[n]))
				n++
			}
			r = ropeCat(r, ropeStr(q))
		}
		out = append(out, &Str{r})
	}
	return out
}
