package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof goal of one lemma (aggregated over paths).
type Obligation struct {
	Lemma, Label, Pos string
	Kind              string // assert, no-panic, bounds, requires, frame, invariant
	Instances         int
	Trivial           int // discharged by the simplifier
	BySolver          int
	Failed            int
	Reason            string
	Model             map[string]string
	Script            string
	goals             [][]*Term // for cross-checking
}

type Exec struct {
	prog       *ssa.Program
	repo       map[*ssa.Package]bool
	modPath    string
	lemma      string
	inputs     []inputVar
	obls       map[string]*Obligation
	order      []string
	work       []*State
	paths      int
	steps      int
	unsup      []string
	deadline   time.Time
	reached    map[string]bool
	loopFails  map[*ssa.BasicBlock]int
	opaque     map[string]int
	called     map[string]bool // repo functions executed
	iterDir    int             // in a search loop's generic iteration: how to decide its one condition
	iterCond   *Term           // that condition
	inlined    map[string]bool // contracts whose precondition was not proved at a call
	usedCtr    map[string]bool // contracts used in place of bodies
	trusted    map[string]bool // models used
	summ       map[string]*Summary
	noSumm     map[string]bool
	base       *State
	qTimeout   int
	maxPaths   int
	keepGoals  bool
	accels     map[string]bool
	iter       int  // inside a generic loop iteration
	iterFail   bool // it needed a case split or something unsupported
	notes      map[string]bool
	trace      bool
	failFast   bool
	modelTypes map[string]*types.Named
	loaded     *Loaded
	cuts       map[*ssa.BasicBlock]bool
	ovCache    map[*ssa.Function]bool
	lemmaPkg   string
	redirs     map[string]*ssa.Function
	bodies     map[string]bool // functions whose contracts are not to be used
	native     bool
	curProof   string
}

type inputVar struct {
	name string
	typ  string
	term *Term // BV/Bool value, or B atom
	lenT *Term
	// arrays of terms for composite inputs
}

func (ex *Exec) isRepoFn(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return ex.repo[fn.Pkg]
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return ex.repo[o.Pkg]
	}
	if p := fn.Parent(); p != nil {
		return ex.isRepoFn(p)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), ex.modPath)
	}
	return false
}

func (ex *Exec) modelType(kind string) *types.Named {
	if t, ok := ex.modelTypes[kind]; ok {
		return t
	}
	o := types.NewTypeName(token.NoPos, nil, "model:"+kind, nil)
	t := types.NewNamed(o, types.NewStruct(nil, nil), nil)
	ex.modelTypes[kind] = t
	return t
}
func modelKind(t types.Type) (string, bool) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == nil && strings.HasPrefix(n.Obj().Name(), "model:") {
		return n.Obj().Name()[6:], true
	}
	return "", false
}

// ---- path condition handling ----

func (st *State) simp(t *Term) *Term {
	if len(st.known) == 0 {
		return t
	}
	return subst(t, st.known, st.memo)
}

func (st *State) assume(c *Term) {
	c = st.simp(c)
	if c == tTrue {
		return
	}
	if c == tFalse {
		st.dead = true
		return
	}
	var parts []*Term
	if c.op == OpAnd {
		parts = c.args
	} else if c.op == OpNot && c.args[0].op == OpOr {
		for _, a := range c.args[0].args {
			parts = append(parts, mkNot(a))
		}
	} else {
		parts = []*Term{c}
	}
	for _, p := range parts {
		st.pc = append(st.pc, p)
		st.known[p.id] = tTrue
		st.known[mkNot(p).id] = tFalse
		if p.op == OpEq {
			a, b := p.args[0], p.args[1]
			st.learnEmpty(a, b)
			if b.isConst() && !a.isConst() {
				st.known[a.id] = b
			} else if a.isConst() {
				st.known[b.id] = a
			} else if a.w == SBytes {
				if a.id < b.id {
					a, b = b, a
				}
				if !occurs(a, b) {
					st.known[a.id] = b
				}
			} else if a.op == OpVar && !occurs(a, b) {
				st.known[a.id] = b
			} else if b.op == OpVar && !occurs(b, a) {
				st.known[b.id] = a
			}
		}
	}
	st.memo = map[int]*Term{}
}

func occurs(x, in *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(in)
}

func (ex *Exec) sat(st *State, c *Term) Result {
	r, _, _ := primary.checkAll(cone(st.pc, c), ex.qTimeout, nil)
	return r
}

// feasible asks about the whole path condition.
func (ex *Exec) feasible(st *State) Result {
	r, _, _ := primary.check(st.pc, ex.qTimeout, nil)
	return r
}

// possible reports the truth value of c on the path: +1 true, -1 false, 0 both.
func (st *State) possible(c *Term) int {
	c = st.simp(c)
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return -1
	}
	if st.ex.sat(st, c) == Unsat {
		st.learn(mkNot(c))
		return -1
	}
	if st.ex.sat(st, mkNot(c)) == Unsat {
		st.learn(c)
		return 1
	}
	return 0
}

// learnEmpty: bytes of length zero are the empty bytes.
func (st *State) learnEmpty(a, b *Term) {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val.Sign() == 0 && a.op == OpUF && a.name == "blen" {
		st.known[a.args[0].id] = mkUF("empty", SBytes)
	}
}

// learn records an implied fact (no new path condition).
func (st *State) learn(c *Term) {
	st.known[c.id] = tTrue
	st.known[mkNot(c).id] = tFalse
	if c.op == OpEq && c.args[1].isConst() {
		st.learnEmpty(c.args[0], c.args[1])
		st.known[c.args[0].id] = c.args[1]
	}
	st.memo = map[int]*Term{}
}

func (st *State) decide(c *Term) bool {
	switch st.possible(c) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(forkReq{st.simp(c)})
}

// proved: c holds on the path (no fork)
func (st *State) proved(c *Term) bool {
	c = st.simp(c)
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return false
	}
	return st.ex.sat(st, mkNot(c)) == Unsat
}

func (st *State) concrete(t *Term) *big.Int {
	t = st.simp(t)
	if t.isConst() {
		return t.val
	}
	lo, hi := ubounds(t)
	if lo.Cmp(hi) == 0 {
		return lo
	}
	r, vals, _ := primary.check(append(append([]*Term{}, st.pc...), intern(&Term{op: OpEq, w: SBool, args: sortTwo(t, mkVar(fmt.Sprintf("conc%d", t.w), t.w))})), st.ex.qTimeout, []*Term{t})
	if r != Sat || len(vals) != 1 {
		panic(unsupported{"cannot concretise " + t.String()})
	}
	st.fresh["concretise"]++
	if st.fresh["concretise"] > 400 {
		panic(unsupported{"too many concretisations of " + t.String()})
	}
	if st.decide(mkEq(t, mkConst(vals[0], t.w))) {
		return vals[0]
	}
	panic(unsupported{"concretise " + t.String() + " = " + vals[0].String()})
}

// ---- obligations ----

func (ex *Exec) obl(kind, label, pos string) *Obligation {
	k := kind + "|" + label + "|" + pos
	o := ex.obls[k]
	if o == nil {
		o = &Obligation{Lemma: ex.lemma, Label: label, Pos: pos, Kind: kind}
		ex.obls[k] = o
		ex.order = append(ex.order, k)
	}
	return o
}

func (ex *Exec) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.pc < len(f.block.Instrs) {
			p := f.block.Instrs[f.pc].Pos()
			if p.IsValid() {
				pp := ex.prog.Fset.Position(p)
				fn := pp.Filename
				fn = strings.TrimPrefix(fn, repoDir+"/")
				return fmt.Sprintf("%s:%d (%s)", fn, pp.Line, f.fn.String())
			}
		}
	}
	return "?"
}

// fnWhere gives a position key stable for obligations: the repo function on top.
func (ex *Exec) fnWhere(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if ex.isRepoFn(st.frames[i].fn) {
			return st.frames[i].fn.String()
		}
	}
	return "?"
}

// require proves c on the path as an obligation; on failure records it and the path ends.
func (st *State) require(kind, label string, c *Term) {
	ex := st.ex
	o := ex.obl(kind, label, "")
	o.Instances++
	c = st.simp(c)
	if c == tTrue {
		o.Trivial++
		return
	}
	neg := mkNot(c)
	r := Sat
	if c != tFalse {
		if r = ex.sat(st, neg); r != Unsat {
			r, _, _ = primary.check(append(append([]*Term{}, st.pc...), neg), ex.qTimeout*3, nil)
		}
	} else {
		r = ex.feasible(st)
	}
	if r == Unsat {
		o.BySolver++
		if ex.keepGoals {
			o.goals = append(o.goals, append(append([]*Term{}, st.pc...), neg))
		}
		if c != tFalse {
			st.learn(c)
		} else {
			st.dead = true
		}
		return
	}
	o.Failed++
	if o.Failed == 1 {
		o.Reason = fmt.Sprintf("%s at %s: solver says %s for the negation of %s", label, ex.where(st), r, c.str(8))
		o.Pos = ex.where(st)
		if os.Getenv("GOVERIF_PC") != "" {
			for _, c := range st.pc {
				fmt.Fprintln(os.Stderr, "pc", c.str(12))
			}
		}
		var ts []*Term
		for _, iv := range ex.inputs {
			if iv.term != nil && iv.term.w != SBytes {
				ts = append(ts, iv.term)
			}
			if iv.lenT != nil {
				ts = append(ts, iv.lenT)
			}
		}
		rr, vals, sc := primary.check(append(append([]*Term{}, st.pc...), neg), ex.qTimeout*2, ts)
		o.Script = sc
		if rr == Sat && len(vals) == len(ts) {
			o.Model = map[string]string{}
			i := 0
			for _, iv := range ex.inputs {
				if iv.term != nil && iv.term.w != SBytes {
					o.Model[iv.name] = vals[i].Text(16)
					i++
				}
				if iv.lenT != nil {
					o.Model[iv.name+".len"] = vals[i].Text(16)
					i++
				}
			}
		}
	}
	// continue under the assumption that it holds, to find other failures
	if c == tFalse || ex.sat(st, c) == Unsat {
		st.dead = true
		return
	}
	st.assume(c)
}

// check is require for the implicit run-time checks (a failing one is a Go panic).
func (st *State) check(what string, c *Term) {
	c = st.simp(c)
	if c == tTrue {
		o := st.ex.obl("no-panic", what, "")
		o.Instances++
		o.Trivial++
		return
	}
	st.require("no-panic", what, c)
}

// ---- main loop ----

func (ex *Exec) run(init *State) {
	ex.work = append(ex.work, init)
	for len(ex.work) > 0 {
		if time.Now().After(ex.deadline) {
			ex.unsup = append(ex.unsup, "time limit reached with paths left")
			ex.work = nil
			return
		}
		st := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		for !st.dead && len(st.frames) > 0 {
			ex.stepSafe(st)
			st.steps++
			ex.steps++
			if st.steps > 3000000 {
				ex.addUnsup(st, "step limit")
				st.dead = true
			}
			if st.steps%1000 == 0 && time.Now().After(ex.deadline) {
				ex.addUnsup(st, "time limit")
				st.dead = true
			}
		}
		ex.paths++
		if ex.paths > ex.maxPaths {
			ex.unsup = append(ex.unsup, "path limit")
			ex.work = nil
			return
		}
	}
}

func (ex *Exec) addUnsup(st *State, msg string) {
	if len(ex.unsup) < 20 {
		ex.unsup = append(ex.unsup, msg+" at "+ex.where(st))
	}
}

func (ex *Exec) stepSafe(st *State) {
	st.undo = st.undo[:0]
	nextObj := st.nextObj
	nev := len(st.events)
	nfr := len(st.frames)
	fr := st.top()
	rollback := func() {
		for i := len(st.undo) - 1; i >= 0; i-- {
			u := st.undo[i]
			if u.old == nil {
				delete(st.heap, u.id)
			} else {
				st.heap[u.id] = u.old
			}
		}
		st.undo = st.undo[:0]
		st.nextObj = nextObj
		st.events = st.events[:nev]
		st.frames = st.frames[:nfr]
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if ex.iter > 0 {
			if x, ok := r.(forkReq); ok && ex.iterDir > 0 && (ex.iterCond == nil || ex.iterCond == x.cond) {
				rollback()
				ex.iterCond = x.cond
				if ex.iterDir == 1 {
					st.assume(x.cond)
				} else {
					st.assume(mkNot(x.cond))
				}
				return
			}
			switch r.(type) {
			case forkReq, unsupported, goPanic, inlineReq:
				ex.iterFail = true
				st.dead = true
				return
			}
		}
		switch x := r.(type) {
		case forkReq:
			rollback()
			if len(st.frames) == 0 || st.top() != fr {
				panic("fork rollback lost the frame")
			}
			if os.Getenv("GOVERIF_FORK") != "" {
				fmt.Fprintln(os.Stderr, "fork", ex.where(st), x.cond.str(6))
			}
			s2 := st.clone()
			st.assume(x.cond)
			s2.assume(mkNot(x.cond))
			if !s2.dead {
				ex.work = append(ex.work, s2)
			}
			if len(ex.work) > 20000 {
				ex.unsup = append(ex.unsup, "too many pending paths")
				ex.work = nil
				st.dead = true
			}
		case inlineReq:
			// the contract's precondition is not proved here: use the body instead
			rollback()
			old := st.top()
			st.frames = st.frames[:len(st.frames)-1]
			nf := old.inline(st)
			nf.inDefer, nf.onRet = old.inDefer, old.onRet
			ex.inlined[old.fn.Name()+": "+x.label] = true
		case unsupported:
			if ex.feasible(st) != Unsat {
				ex.addUnsup(st, x.msg)
				if ex.trace {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", x.msg, ex.where(st))
					for _, f := range st.frames {
						fmt.Fprintln(os.Stderr, "   in", f.fn)
					}
				}
			}
			st.dead = true
		case goPanic:
			ex.panicPath(st, x.msg)
		default:
			if os.Getenv("GOVERIF_CRASH") != "" {
				panic(r)
			}
			ex.addUnsup(st, fmt.Sprintf("engine error: %v", r))
			st.dead = true
		}
	}()
	ex.step(st)
}

func (ex *Exec) panicPath(st *State, msg string) {
	// a recover()ing deferred function is not supported: every panic is a failure
	st.require("no-panic", "panic: "+msg, tFalse)
	st.dead = true
}

// ---- operand evaluation ----

func (st *State) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return st.ex.globalPtr(st, x)
	case *ssa.Builtin:
		return &Closure{}
	case *ssa.FreeVar:
		f := st.top()
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.bind[i]
			}
		}
	}
	r, ok := st.top().regs[v]
	if !ok {
		panic(unsupported{"undefined register " + v.Name() + " in " + st.top().fn.String()})
	}
	return r
}
func (st *State) term(v ssa.Value) *Term {
	t, ok := st.get(v).(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("expected scalar for %s, got %T", v, st.get(v))})
	}
	return t
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			panic(unsupported{"const of type param " + tp.String()})
		}
		return zeroVal(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return &Str{ropeStr(constant.StringVal(c.Value))}
	case b.Info()&types.IsInteger != 0:
		w, _ := intWidth(b)
		v := constant.ToInt(c.Value)
		bi, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsupported{"int const " + v.String()})
		}
		return mkConst(bi, w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return &Float{c: f, isC: true}
	}
	panic(unsupported{"const " + c.String()})
}

func (ex *Exec) globalPtr(st *State, g *ssa.Global) *Ptr {
	id := globalID(g)
	if st.heap[id] == nil {
		t := g.Type().(*types.Pointer).Elem()
		var v Value
		if g.Pkg != nil && ex.repo[g.Pkg] {
			v = zeroVal(t)
		} else {
			v = ex.externGlobal(st, g, t)
		}
		st.heap[id] = &Obj{val: v, what: "global " + g.String()}
	}
	return &Ptr{obj: id}
}

var globalIDs = map[*ssa.Global]ObjID{}
var globalByID = map[ObjID]*ssa.Global{}

func globalID(g *ssa.Global) ObjID {
	if id, ok := globalIDs[g]; ok {
		return id
	}
	id := ObjID(-1 - len(globalIDs))
	globalIDs[g] = id
	globalByID[id] = g
	return id
}

// ---- stepping ----

func (ex *Exec) step(st *State) {
	f := st.top()
	if f.pc >= len(f.block.Instrs) {
		panic(unsupported{"fell off block"})
	}
	ins := f.block.Instrs[f.pc]
	if ex.trace {
		fmt.Fprintf(os.Stderr, "%*s%s: %v\n", len(st.frames), "", f.fn.Name(), ins)
	}
	set := func(v ssa.Value, x Value) {
		f.regs[v] = x
		f.pc++
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := st.newObj(zeroVal(t), "alloc "+t.String())
		set(x, &Ptr{obj: id})
	case *ssa.BinOp:
		set(x, st.binop(x.Op, x.X.Type(), x.Y.Type(), st.get(x.X), st.get(x.Y)))
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ex.chanStep(st)
			return
		}
		set(x, st.unop(x))
	case *ssa.Send, *ssa.Select:
		ex.chanStep(st)
	case *ssa.Go:
		ex.goStmt(st, x)
	case *ssa.Call:
		ex.call(st, x.Common(), x)
	case *ssa.ChangeInterface:
		set(x, st.get(x.X))
	case *ssa.ChangeType:
		set(x, st.get(x.X))
	case *ssa.Convert:
		set(x, st.convert(x.X.Type(), x.Type(), st.get(x.X)))
	case *ssa.MultiConvert:
		set(x, st.convert(x.X.Type(), x.Type(), st.get(x.X)))
	case *ssa.SliceToArrayPointer:
		s := st.get(x.X).(*Slice)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		st.check("slice to array length", mkSle(i64(n), s.len))
		if st.dead {
			return
		}
		if !st.proved(mkEq(s.off, i64(0))) || len(s.path) > 0 {
			// copy semantics differ from aliasing: only supported for reads of a fresh copy
			id := st.newObj(&ByteArr{st.bytesOf(&Slice{obj: s.obj, path: s.path, off: s.off, len: i64(n), cap: i64(n)})}, "arrcopy")
			set(x, &Ptr{obj: id})
			return
		}
		set(x, &Ptr{obj: s.obj, path: s.path})
	case *ssa.Extract:
		set(x, st.get(x.Tuple).(*Tuple).v[x.Index])
	case *ssa.Field:
		s, ok := st.get(x.X).(*Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of %T", st.get(x.X))})
		}
		set(x, s.f[x.Field])
	case *ssa.FieldAddr:
		p := st.get(x.X).(*Ptr)
		st.nilCheck(p)
		if st.dead {
			return
		}
		set(x, &Ptr{obj: p.obj, path: append(append([]int{}, p.path...), x.Field)})
	case *ssa.Index:
		set(x, st.indexVal(x))
	case *ssa.IndexAddr:
		set(x, st.indexAddr(x))
	case *ssa.If:
		c := st.term(x.Cond)
		if ex.tryAccel(st, f, c) {
			return
		}
		b := f.block.Succs[1]
		if st.decide(c) {
			b = f.block.Succs[0]
		}
		ex.jump(st, f, b)
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
	case *ssa.Lookup:
		set(x, st.lookup(x))
	case *ssa.MakeClosure:
		var b []Value
		for _, y := range x.Bindings {
			b = append(b, st.get(y))
		}
		set(x, &Closure{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeInterface:
		v := st.get(x.X)
		set(x, &Iface{typ: x.X.Type(), v: v})
	case *ssa.MakeMap:
		set(x, &MapRef{st.newObj(&MapV{}, "map")})
	case *ssa.MakeSlice:
		set(x, st.makeSlice(x.Type(), toInt64(st, x.Len), toInt64(st, x.Cap)))
	case *ssa.MapUpdate:
		m := st.get(x.Map).(*MapRef)
		if m.obj == 0 {
			panic(goPanic{"assignment to entry in nil map"})
		}
		mv, ok := st.obj(m.obj).val.(*MapV)
		if !ok {
			panic(unsupported{"map update"})
		}
		k, v := st.get(x.Key), st.get(x.Value)
		n := &MapV{append([]Value{}, mv.keys...), append([]Value{}, mv.vals...)}
		done := false
		for i := range n.keys {
			if st.decide(st.equal(n.keys[i], k)) {
				n.vals[i] = v
				done = true
				break
			}
		}
		if !done {
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, v)
		}
		o := *st.obj(m.obj)
		o.val = n
		st.setObj(m.obj, &o)
		f.pc++
	case *ssa.Phi:
		panic("phi should be handled by jump")
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
		case 1:
			r = st.get(x.Results[0])
		default:
			tp := &Tuple{}
			for _, y := range x.Results {
				tp.v = append(tp.v, st.get(y))
			}
			r = tp
		}
		ex.ret(st, r)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// run it, come back to this instruction
			ex.runDeferred(st, d)
			return
		}
		f.pc++
	case *ssa.Defer:
		d := deferred{call: x.Common()}
		cc := x.Common()
		if cc.IsInvoke() {
			d.args = append(d.args, st.get(cc.Value))
			d.name = cc.Method.Name()
		} else if b, ok := cc.Value.(*ssa.Builtin); ok {
			d.name = "builtin:" + b.Name()
		} else {
			d.fn = st.get(cc.Value).(*Closure)
		}
		for _, a := range cc.Args {
			d.args = append(d.args, st.get(a))
		}
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.Panic:
		msg := "explicit panic"
		if i, ok := st.get(x.X).(*Iface); ok {
			if s, ok := i.v.(*Str); ok {
				if c, ok := s.r.constStr(); ok {
					msg = c
				}
			}
		}
		panic(goPanic{msg + " in " + f.fn.String()})
	case *ssa.Slice:
		set(x, st.sliceOp(x))
	case *ssa.Store:
		p := st.get(x.Addr).(*Ptr)
		st.nilCheck(p)
		if st.dead {
			return
		}
		st.store(p, st.get(x.Val))
		f.pc++
	case *ssa.TypeAssert:
		set(x, st.typeAssert(x))
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Range:
		set(x, st.rangeInit(x))
	case *ssa.Next:
		set(x, st.rangeNext(x))
	case *ssa.MakeChan:
		set(x, st.makeChan(x))
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", ins)})
	}
}

func toInt64(st *State, v ssa.Value) *Term {
	t := st.term(v)
	b := v.Type().Underlying().(*types.Basic)
	_, signed := intWidth(b)
	if signed {
		return mkSext(t, 64)
	}
	return mkZext(t, 64)
}

func (st *State) nilCheck(p *Ptr) {
	if p.obj == 0 {
		panic(goPanic{"nil pointer dereference in " + st.top().fn.String()})
	}
}

func (ex *Exec) jump(st *State, f *Frame, b *ssa.BasicBlock) {
	if st.cutStop != nil && len(st.frames) == st.depth && st.cutStop[b] {
		f.prev = f.block
		st.onStop(st, b)
		st.dead = true
		return
	}
	prev := f.block
	// evaluate phis
	var vals []Value
	n := 0
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == prev {
				vals = append(vals, st.get(ph.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.prev = prev
	f.block = b
	f.pc = n
	f.visits[b]++
	if f.visits[b] > 100000 {
		panic(unsupported{"loop limit"})
	}
	ex.atHeader(st, f, b)
}

func (ex *Exec) ret(st *State, r Value) {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, r)
		return
	}
	if len(st.frames) == 0 {
		return
	}
	c := st.top()
	if f.inDefer {
		return // RunDefers is re-executed
	}
	if f.retTo != nil {
		c.regs[f.retTo] = r
	}
	c.pc++
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args []Value, bind []Value, retTo ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsupported{"no body for " + fn.String()})
	}
	if len(st.frames) > 200 {
		panic(unsupported{"call depth in " + fn.String()})
	}
	nf := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0], bind: bind, retTo: retTo, visits: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		panic(unsupported{fmt.Sprintf("arity %s: %d vs %d", fn, len(args), len(fn.Params))})
	}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	st.frames = append(st.frames, nf)
	return nf
}

func (ex *Exec) runDeferred(st *State, d deferred) {
	if strings.HasPrefix(d.name, "builtin:") {
		panic(unsupported{"deferred builtin"})
	}
	ex.invokeValue(st, d.call, d.fn, d.args, nil, true)
}

// call executes a call instruction.
func (ex *Exec) call(st *State, cc *ssa.CallCommon, at *ssa.Call) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		r := st.builtin(b, cc, at)
		if st.dead {
			return
		}
		f := st.top()
		f.regs[at] = r
		f.pc++
		return
	}
	var args []Value
	if cc.IsInvoke() {
		args = append(args, st.get(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, st.get(a))
	}
	var cl *Closure
	if !cc.IsInvoke() {
		c, ok := st.get(cc.Value).(*Closure)
		if !ok {
			panic(unsupported{"call of non-closure"})
		}
		cl = c
	}
	ex.invokeValue(st, cc, cl, args, at, false)
}

func (ex *Exec) invokeValue(st *State, cc *ssa.CallCommon, cl *Closure, args []Value, at *ssa.Call, inDefer bool) {
	var retTo ssa.Value
	if at != nil {
		retTo = at
	}
	finish := func(r Value) {
		if st.dead {
			return
		}
		f := st.top()
		if inDefer {
			return
		}
		if retTo != nil {
			f.regs[retTo] = r
		}
		f.pc++
	}
	if cc.IsInvoke() {
		i, ok := args[0].(*Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", args[0])})
		}
		if i.typ == nil {
			panic(goPanic{"method call on nil interface in " + st.top().fn.String()})
		}
		if k, ok := modelKind(i.typ); ok {
			m := lookupModel("model:" + k + "." + cc.Method.Name())
			if m == nil {
				if strings.HasPrefix(k, "err") && cc.Method.Name() == "Error" {
					finish(&Str{ropeAtom(mkVar(st.freshName("errmsg"), SBytes))})
					return
				}
				panic(unsupported{"model method " + k + "." + cc.Method.Name()})
			}
			args[0] = i.v
			finish(m(ex, st, args))
			return
		}
		fn := ex.prog.LookupMethod(i.typ, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			panic(unsupported{"method " + cc.Method.Name() + " of " + i.typ.String()})
		}
		args[0] = i.v
		ex.callFn(st, fn, args, nil, retTo, finish, inDefer)
		return
	}
	if cl.fn == nil {
		panic(goPanic{"call of nil function in " + st.top().fn.String()})
	}
	ex.callFn(st, cl.fn, args, cl.bind, retTo, finish, inDefer)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args []Value, bind []Value, retTo ssa.Value, finish func(Value), inDefer bool) {
	key := fnKey(fn)
	if ex.isRepoFn(fn) {
		if in, ok := intrinsics[fn.Name()]; ok && fn.Signature.Recv() == nil && ex.isOverlay(fn) {
			finish(in(ex, st, args))
			return
		}
		if r := ex.redirect(fn); r != nil {
			ex.trusted["contract used here, its own check decides it: "+key] = true
			fr := ex.pushFrame(st, r, args, nil, retTo)
			fr.inDefer = inDefer
			return
		}
		if n, ok := ex.opaque[fn.Name()]; ok && ex.isOverlay(fn) {
			var as []*Term
			for _, a := range args {
				if t, ok := a.(*Term); ok {
					as = append(as, t)
				} else {
					as = append(as, sliceBytes(st, a).bytesTerm())
				}
			}
			finish(st.newBytes(ropeBV(mkUF("spec:"+fn.Name(), 8*n, as...))))
			return
		}
		if s := ex.summ[key]; s != nil && s.proved && !ex.noSumm[key] && !ex.inContractOf(st, key) {
			ex.usedCtr[key] = true
			fr := ex.pushFrame(st, s.spec, args, nil, retTo)
			fr.inDefer = inDefer
			fr.inline = func(st *State) *Frame {
				ex.called[key] = true
				return ex.pushFrame(st, fn, args, bind, retTo)
			}
			return
		}
		if !ex.isOverlay(fn) {
			ex.called[key] = true
		}
		fr := ex.pushFrame(st, fn, args, bind, retTo)
		fr.inDefer = inDefer
		return
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		finish(nil)
		return
	}
	if m := lookupModel(key); m != nil {
		if r, ok := tryModel(m, ex, st, args); ok {
			ex.trusted[key] = true
			finish(r)
			return
		}
		ex.pushFrame(st, fn, args, bind, retTo).inDefer = inDefer
		return
	}
	if r := ex.redirect(fn); r != nil {
		ex.trusted[key] = true
		fr := ex.pushFrame(st, r, args, nil, retTo)
		fr.inDefer = inDefer
		return
	}
	if ex.allowBody(fn) {
		fr := ex.pushFrame(st, fn, args, bind, retTo)
		fr.inDefer = inDefer
		return
	}
	panic(unsupported{"call of unmodelled function " + key})
}

func tryModel(m modelFn, ex *Exec, st *State, args []Value) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(useBody); !is {
				panic(r)
			}
			v, ok = nil, false
		}
	}()
	return m(ex, st, args), true
}

func (ex *Exec) inContractOf(st *State, key string) bool {
	for _, f := range st.frames {
		if s := ex.summ[key]; s != nil && f.fn == s.spec {
			return true
		}
	}
	return false
}

var bodyPkgs = map[string]bool{
	"io": true, "errors": true, "flag": true, "strconv": true, "internal/strconv": true, "internal/stringslite": true, "encoding/binary": true, "bytes": true, "unicode/utf8": true,
	"sort": true, "slices": true, "math/rand": true, "math/rand/v2": true, "maps": true, "iter": true, "strings": true, "math/bits": true, "cmp": true,
}
var bodyFns = map[string]bool{
	"crypto/rand.Int":                    true,
	"(crypto/ed25519.PrivateKey).Public": true,
	"(crypto/ed25519.PrivateKey).Seed":   true,
	"(crypto/aes.KeySizeError).Error":    true,
	"(time.Duration).Truncate":           true,
}

func (ex *Exec) allowBody(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if bodyFns[fnKey(fn)] {
		return true
	}
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	var pkg *types.Package
	if p.Pkg != nil {
		pkg = p.Pkg.Pkg
	} else if p.Object() != nil {
		pkg = p.Object().Pkg()
	}
	if pkg == nil {
		// wrappers / bound methods / instantiations
		if o := p.Origin(); o != nil && o.Pkg != nil {
			return bodyPkgs[o.Pkg.Pkg.Path()]
		}
		return p.Synthetic != ""
	}
	if fn.Synthetic != "" && (strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound")) {
		return true
	}
	return bodyPkgs[pkg.Path()]
}

// ---- operators ----

func (st *State) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return st.equal(a, b)
	case token.NEQ:
		return mkNot(st.equal(a, b))
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch op {
		case token.ADD:
			return &Str{ropeCat(sa.r, sb.r)}
		}
		ca, ok1 := sa.r.constStr()
		cb, ok2 := sb.r.constStr()
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return mkBool(ca < cb)
			case token.LEQ:
				return mkBool(ca <= cb)
			case token.GTR:
				return mkBool(ca > cb)
			case token.GEQ:
				return mkBool(ca >= cb)
			}
		}
		// single bytes
		if x, y := sa.r.asBV(), sb.r.asBV(); x != nil && y != nil && x.w == y.w {
			switch op {
			case token.LSS:
				return mkUlt(x, y)
			case token.LEQ:
				return mkUle(x, y)
			case token.GTR:
				return mkUlt(y, x)
			case token.GEQ:
				return mkUle(y, x)
			}
		}
		panic(unsupported{"string comparison"})
	}
	if fa, ok := a.(*Float); ok {
		return floatBin(op, fa, b.(*Float))
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s on %T,%T", op, a, b)})
	}
	if x.w == SBool {
		switch op {
		case token.AND, token.LAND:
			return mkAnd(x, y)
		case token.OR, token.LOR:
			return mkOr(x, y)
		case token.XOR:
			return mkNot(mkEq(x, y))
		}
		panic(unsupported{"bool op " + op.String()})
	}
	bt, ok := tx.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"binop type"})
	}
	_, signed := intWidth(bt)
	switch op {
	case token.ADD:
		return mkAdd(x, y)
	case token.SUB:
		return mkSub(x, y)
	case token.MUL:
		return mkMul(x, y)
	case token.QUO, token.REM:
		st.check("division by zero in "+st.top().fn.String(), mkNot(mkEq(y, mkConst(big0, y.w))))
		if st.dead {
			return x
		}
		y = st.simp(y)
		if signed {
			x = st.refineSigned(x)
			if !y.isConst() && st.proved(mkSle(mkConst(big0, y.w), y)) && st.proved(mkSle(mkConst(big0, x.w), x)) {
				signed = false
			}
		}
		if q, r := st.divSplit(x, y); q != nil {
			if op == token.QUO {
				return q
			}
			return r
		}
		if signed && y.isConst() && st.proved(mkSle(mkConst(big0, x.w), x)) && toSigned(y).Sign() > 0 {
			signed = false
		}
		switch {
		case op == token.QUO && signed:
			return mkSDiv(x, y)
		case op == token.QUO:
			return udivGen(x, y)
		case signed:
			return mkSRem(x, y)
		default:
			if y.isConst() {
				return mkURem(x, y)
			}
			return uremGen(x, y)
		}
	case token.AND:
		return mkBin(OpBAnd, x, y)
	case token.OR:
		return mkBin(OpBOr, x, y)
	case token.XOR:
		return mkBin(OpBXor, x, y)
	case token.AND_NOT:
		return mkBin(OpBAnd, x, mkBNot(y))
	case token.SHL, token.SHR:
		yb, _ := ty.Underlying().(*types.Basic)
		if yb != nil {
			if _, s := intWidth(yb); s {
				st.check("negative shift in "+st.top().fn.String(), mkSle(mkConst(big0, y.w), y))
				if st.dead {
					return x
				}
			}
		}
		y = st.simp(y)
		if op == token.SHL {
			return mkShift(OpShl, x, y)
		}
		if signed {
			return mkShift(OpAshr, x, y)
		}
		return mkShift(OpLshr, x, y)
	case token.LSS:
		if signed {
			return mkSlt(x, y)
		}
		return mkUlt(x, y)
	case token.LEQ:
		if signed {
			return mkSle(x, y)
		}
		return mkUle(x, y)
	case token.GTR:
		if signed {
			return mkSlt(y, x)
		}
		return mkUlt(y, x)
	case token.GEQ:
		if signed {
			return mkSle(y, x)
		}
		return mkUle(y, x)
	}
	panic(unsupported{"binop " + op.String()})
}

// udivGen: unsigned division by a possibly symbolic divisor, as a quotient symbol
// with its defining facts.
func udivGen(x, y *Term) *Term {
	if y.isConst() {
		return mkUDiv(x, y)
	}
	if x == y { // a zero divisor has panicked before
		return mkInt(1, x.w)
	}
	q := mkUF("udiv", x.w, x, y)
	if _, ok := extraBound[q.id]; !ok {
		_, h := ubounds(x)
		setBound(q, big0, h)
		w2 := 2 * x.w
		nz := mkNot(mkEq(y, mkConst(big0, y.w)))
		addFact(q, mkImplies(nz, mkEq(mkZext(x, w2), mkAdd(mkMul(mkZext(q, w2), mkZext(y, w2)), mkZext(uremGen(x, y), w2)))))
	}
	return q
}

// uremGen: the remainder, with its bounds; the quotient's fact ties them together.
func uremGen(x, y *Term) *Term {
	if y.isConst() {
		return mkURem(x, y)
	}
	if x == y {
		return mkConst(big0, x.w)
	}
	r := mkUF("urem", x.w, x, y)
	if _, ok := extraBound[r.id]; !ok {
		_, hx := ubounds(x)
		_, hy := ubounds(y)
		if hy.Sign() > 0 && hy.Cmp(hx) <= 0 {
			hx = new(big.Int).Sub(hy, big1)
		}
		setBound(r, big0, hx)
		nz := mkNot(mkEq(y, mkConst(big0, y.w)))
		addFact(r, mkImplies(nz, rawUlt(r, y)))
		addFact(r, mkImplies(nz, mkNot(rawUlt(x, r))))
	}
	return r
}

// divSplit: x = c*A + R with the side conditions (no wrap, 0<=R<c) proved on the path.
func (st *State) divSplit(x, y *Term) (*Term, *Term) {
	if !y.isConst() || x.op != OpLin || y.val.Cmp(big1) <= 0 {
		return nil, nil
	}
	c := y.val
	la, lr := newLin(x.w), newLin(x.w)
	xv := toSigned(mkConst(x.val, x.w))
	q, r := new(big.Int).DivMod(xv, c, new(big.Int))
	la.cons.Set(q)
	lr.cons.Set(r)
	big := false
	for i, t := range x.args {
		cf := toSigned(mkConst(x.coefs[i], x.w))
		q, r := new(bigInt).DivMod(cf, c, new(bigInt))
		if q.Sign() != 0 && r.Sign() == 0 {
			la.add(t, q)
			big = true
		} else {
			lr.add(t, cf)
		}
	}
	if !big {
		return nil, nil
	}
	A, R := la.done(), lr.done()
	z := mkConst(big0, x.w)
	// A*c + R must not wrap and both parts be non-negative
	lim := mkConst(new(bigInt).Div(new(bigInt).Sub(pow2(x.w-2), big1), c), x.w)
	if !st.proved(mkAnd(mkSle(z, A), mkSle(A, lim), mkSle(z, R), mkSlt(R, y))) {
		return nil, nil
	}
	return A, R
}

type bigInt = big.Int

// refineSigned: nothing for now (hook for path-sensitive bounds)
func (st *State) refineSigned(x *Term) *Term { return st.simp(x) }

func floatBin(op token.Token, a, b *Float) Value {
	if a.isC && b.isC {
		switch op {
		case token.ADD:
			return &Float{isC: true, c: a.c + b.c}
		case token.MUL:
			return &Float{isC: true, c: a.c * b.c}
		case token.LSS:
			return mkBool(a.c < b.c)
		case token.GTR:
			return mkBool(a.c > b.c)
		case token.LEQ:
			return mkBool(a.c <= b.c)
		case token.GEQ:
			return mkBool(a.c >= b.c)
		}
	}
	// seconds of a duration compared with an integral constant
	cmp := func(d *Term, c float64, op token.Token) Value {
		if c != float64(int64(c)) || c > 9e9 || c < -9e9 {
			panic(unsupported{"float comparison"})
		}
		k := i64(int64(c) * 1000000000)
		switch op {
		case token.LSS:
			return mkSlt(d, k)
		case token.LEQ:
			return mkSle(d, k)
		case token.GTR:
			return mkSlt(k, d)
		case token.GEQ:
			return mkSle(k, d)
		}
		panic(unsupported{"float op " + op.String()})
	}
	if !a.isC && b.isC {
		return cmp(a.dur, b.c, op)
	}
	if a.isC && !b.isC {
		fl := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		return cmp(b.dur, a.c, fl[op])
	}
	panic(unsupported{"float op " + op.String()})
}

func (st *State) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return mkEq(x, b.(*Term))
	case *Str:
		return ropeEq(x.r, b.(*Str).r)
	case *Ptr:
		y := b.(*Ptr)
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return tFalse
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return tFalse
			}
		}
		if (x.idx == nil) != (y.idx == nil) {
			return tFalse
		}
		if x.idx != nil {
			return mkEq(x.idx, y.idx)
		}
		return tTrue
	case *Slice:
		y := b.(*Slice)
		if x.obj == 0 || y.obj == 0 {
			return mkBool(x.obj == y.obj)
		}
		panic(unsupported{"slice comparison"})
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			panic(unsupported{"iface compare"})
		}
		if x.typ == nil || y.typ == nil {
			return mkBool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return tFalse
		}
		return st.equal(x.v, y.v)
	case *Closure:
		y := b.(*Closure)
		if x.fn == nil || y.fn == nil {
			return mkBool(x.fn == y.fn)
		}
		panic(unsupported{"func comparison"})
	case *MapRef:
		y := b.(*MapRef)
		return mkBool(x.obj == y.obj)
	case *Struct:
		y := b.(*Struct)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, st.equal(x.f[i], y.f[i]))
		}
		return mkAnd(cs...)
	case *Array:
		y := b.(*Array)
		var cs []*Term
		for i := range x.e {
			cs = append(cs, st.equal(x.e[i], y.e[i]))
		}
		return mkAnd(cs...)
	case *ByteArr:
		return ropeEq(x.r, b.(*ByteArr).r)
	case *TimeV:
		y := b.(*TimeV)
		return mkAnd(mkEq(x.sec, y.sec), mkEq(x.nsec, y.nsec))
	case *Float:
		y := b.(*Float)
		if x.isC && y.isC {
			return mkBool(x.c == y.c)
		}
		if x.isC {
			x, y = y, x
		}
		if y.isC && y.c == 0 {
			return mkEq(x.dur, i64(0))
		}
	}
	panic(unsupported{fmt.Sprintf("equality on %T", a)})
}

func (st *State) unop(x *ssa.UnOp) Value {
	v := st.get(x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*Ptr)
		if !ok {
			panic(unsupported{fmt.Sprintf("deref %T", v)})
		}
		st.nilCheck(p)
		if st.dead {
			return nil
		}
		return st.load(p)
	case token.NOT:
		return mkNot(v.(*Term))
	case token.SUB:
		if f, ok := v.(*Float); ok && f.isC {
			return &Float{isC: true, c: -f.c}
		}
		return mkNeg(v.(*Term))
	case token.XOR:
		return mkBNot(v.(*Term))
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (st *State) convert(from, to types.Type, v Value) Value {
	ut := to.Underlying()
	uf := from.Underlying()
	switch tt := ut.(type) {
	case *types.Basic:
		if tt.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *Slice:
				return &Str{st.bytesOf(x)}
			case *Str:
				return x
			case *Term: // string(rune)
				if x.isConst() {
					return &Str{ropeStr(string(rune(toSigned(x).Int64())))}
				}
				if st.decide(mkUlt(x, mkConst(big.NewInt(0x80), x.w))) {
					return &Str{ropeBV(mkExtract(7, 0, x))}
				}
			}
			panic(unsupported{fmt.Sprintf("convert %T to string", v)})
		}
		if tt.Info()&types.IsInteger != 0 {
			w, _ := intWidth(tt)
			switch x := v.(type) {
			case *Term:
				fb, ok := uf.(*types.Basic)
				if !ok {
					break
				}
				_, signed := intWidth(fb)
				if w <= x.w {
					return mkZext(x, w)
				}
				if signed {
					if st.proved(mkSle(mkConst(big0, x.w), x)) {
						return mkZext(x, w)
					}
					return mkSext(x, w)
				}
				return mkZext(x, w)
			case *Float:
				return floatToInt(st, x, w, tt)
			}
		}
		if tt.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case *Float:
				return x
			case *Term:
				if x.isConst() {
					f, _ := new(big.Float).SetInt(toSigned(x)).Float64()
					return &Float{isC: true, c: f}
				}
			}
		}
		if tt.Kind() == types.UnsafePointer {
			return v
		}
	case *types.Slice:
		if s, ok := v.(*Str); ok && isByteType(tt.Elem()) {
			r := st.newBytes(s.r)
			r.capUnk = true
			return r
		}
		if s, ok := v.(*Slice); ok {
			return s
		}
	case *types.Array:
		// slice to array conversion
		if s, ok := v.(*Slice); ok && isByteType(tt.Elem()) {
			st.check("slice to array length", mkSle(i64(tt.Len()), s.len))
			if st.dead {
				return nil
			}
			return &ByteArr{st.bytesOf(s).slice(st, i64(0), i64(tt.Len()))}
		}
	case *types.Pointer:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s (%T)", from, to, v)})
}

// floatToInt: truncation of the seconds of a duration (float64 of whole and
// fractional seconds is exact to far better than 1 s for any int64 nanoseconds).
func floatToInt(st *State, f *Float, w int, tt *types.Basic) Value {
	if f.isC {
		return mkInt(int64(f.c), w)
	}
	q := st.binop(token.QUO, types.Typ[types.Int64], types.Typ[types.Int64], f.dur, i64(1000000000)).(*Term)
	// out of range conversions are implementation-defined
	_, signed := intWidth(tt)
	var lo, hi *Term
	if signed {
		lo = mkConst(new(big.Int).Neg(pow2(w-1)), 64)
		hi = mkConst(new(big.Int).Sub(pow2(w-1), big1), 64)
	} else {
		lo = i64(0)
		hi = mkConst(maskOf(w), 64)
		if w == 64 {
			hi = mkConst(maskOf(63), 64)
		}
	}
	if st.decide(mkAnd(mkSle(lo, q), mkSle(q, hi))) {
		return mkZext(q, w)
	}
	return mkUF("float_out_of_range", w, q)
}

func (st *State) indexAddr(x *ssa.IndexAddr) Value {
	base := st.get(x.X)
	idx := toInt64(st, x.Index)
	switch b := base.(type) {
	case *Slice:
		st.check("index out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), idx), mkSlt(idx, b.len)))
		if st.dead {
			return nil
		}
		return st.elemPtr(b, mkAdd(b.off, st.simp(idx)))
	case *Ptr: // pointer to array
		st.nilCheck(b)
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		st.check("index out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), idx), mkSlt(idx, i64(n.Len()))))
		if st.dead {
			return nil
		}
		if isByteType(n.Elem()) {
			return &Ptr{obj: b.obj, path: b.path, idx: st.simp(idx)}
		}
		i := st.concrete(idx)
		return &Ptr{obj: b.obj, path: append(append([]int{}, b.path...), int(i.Int64()))}
	}
	panic(unsupported{fmt.Sprintf("index addr on %T", base)})
}

func (st *State) indexVal(x *ssa.Index) Value {
	idx := toInt64(st, x.Index)
	switch b := st.get(x.X).(type) {
	case *ByteArr:
		st.check("index out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), idx), mkSlt(idx, b.r.length())))
		if st.dead {
			return nil
		}
		return b.r.at(st, st.simp(idx))
	case *Array:
		st.check("index out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), idx), mkSlt(idx, i64(int64(len(b.e))))))
		if st.dead {
			return nil
		}
		return b.e[st.concrete(idx).Int64()]
	case *Str:
		st.check("index out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), idx), mkSlt(idx, b.r.length())))
		if st.dead {
			return nil
		}
		return b.r.at(st, st.simp(idx))
	}
	panic(unsupported{"index"})
}

func (st *State) lookup(x *ssa.Lookup) Value {
	v := st.get(x.X)
	if s, ok := v.(*Str); ok {
		idx := toInt64(st, x.Index)
		st.check("index out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), idx), mkSlt(idx, s.r.length())))
		if st.dead {
			return nil
		}
		return s.r.at(st, st.simp(idx))
	}
	m := v.(*MapRef)
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	key := st.get(x.Index)
	res := func(v Value, ok *Term) Value {
		if x.CommaOk {
			return &Tuple{[]Value{v, ok}}
		}
		return v
	}
	if m.obj == 0 {
		return res(zeroVal(elem), tFalse)
	}
	switch mv := st.obj(m.obj).val.(type) {
	case *WordMapV:
		k := key.(*Str).r
		st.ex.trusted["wordlist4096.WordMap"] = true
		in, idx := wordLookup(st, k)
		if st.decide(in) {
			return res(mkZext(idx, 16), tTrue)
		}
		return res(mkConst(big0, 16), tFalse)
	case *MapV:
		for i := range mv.keys {
			if st.decide(st.equal(mv.keys[i], key)) {
				return res(mv.vals[i], tTrue)
			}
		}
		return res(zeroVal(elem), tFalse)
	}
	panic(unsupported{"map lookup"})
}

func (st *State) makeSlice(t types.Type, n, c *Term) Value {
	elem := t.Underlying().(*types.Slice).Elem()
	st.check("makeslice: len out of range in "+st.top().fn.String(), mkAnd(mkSle(i64(0), n), mkSle(n, c), mkSle(c, mkConst(maxLen, 64))))
	if st.dead {
		return nil
	}
	n, c = st.simp(n), st.simp(c)
	if isByteType(elem) {
		id := st.newObj(&ByteArr{mkZeros(c)}, "make")
		return &Slice{obj: id, off: i64(0), len: n, cap: c}
	}
	if !c.isConst() && (len(st.top().fn.Params) >= 0) {
		// capacity hints may be symbolic: keep it unspecified
		if n.isConst() {
			k := int(n.val.Int64())
			a := &Array{}
			for i := 0; i < k; i++ {
				a.e = append(a.e, zeroVal(elem))
			}
			id := st.newObj(a, "make")
			return &Slice{obj: id, off: i64(0), len: n, cap: n, capUnk: true}
		}
		n = mkConst(st.concrete(n), 64)
		c = mkConst(st.concrete(c), 64)
	}
	k := int(c.val.Int64())
	if k > 5000 {
		panic(unsupported{"large make"})
	}
	n = mkConst(st.concrete(n), 64)
	a := &Array{}
	for i := 0; i < k; i++ {
		a.e = append(a.e, zeroVal(elem))
	}
	id := st.newObj(a, "make")
	return &Slice{obj: id, off: i64(0), len: n, cap: c}
}

func (st *State) sliceOp(x *ssa.Slice) Value {
	v := st.get(x.X)
	fn := st.top().fn.String()
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = toInt64(st, x.Low)
	} else {
		lo = i64(0)
	}
	if x.High != nil {
		hi = toInt64(st, x.High)
	}
	if x.Max != nil {
		mx = toInt64(st, x.Max)
	}
	switch b := v.(type) {
	case *Str:
		if hi == nil {
			hi = b.r.length()
		}
		st.check("slice bounds out of range in "+fn, mkAnd(mkSle(i64(0), lo), mkSle(lo, hi), mkSle(hi, b.r.length())))
		if st.dead {
			return nil
		}
		lo, hi = st.simp(lo), st.simp(hi)
		return &Str{b.r.slice(st, lo, mkSub(hi, lo))}
	case *Slice:
		if hi == nil {
			hi = b.len
		}
		lim := b.cap
		if b.obj == 0 {
			lim = i64(0)
		}
		if b.capUnk {
			// beyond len the capacity is unspecified: only slicing within len is supported
			lim = b.len
		}
		if mx != nil {
			st.check("slice bounds out of range in "+fn, mkAnd(mkSle(hi, mx), mkSle(mx, lim)))
			if st.dead {
				return nil
			}
		}
		st.check("slice bounds out of range in "+fn, mkAnd(mkSle(i64(0), lo), mkSle(lo, hi), mkSle(hi, lim)))
		if st.dead {
			return nil
		}
		lo, hi = st.simp(lo), st.simp(hi)
		if b.obj == 0 {
			return b
		}
		nc := mkSub(b.cap, lo)
		unk := b.capUnk
		if mx != nil {
			nc = mkSub(mx, lo)
			unk = false
		}
		return &Slice{obj: b.obj, path: b.path, off: mkAdd(b.off, lo), len: mkSub(hi, lo), cap: nc, capUnk: unk}
	case *Ptr: // array pointer
		st.nilCheck(b)
		n := i64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		st.check("slice bounds out of range in "+fn, mkAnd(mkSle(i64(0), lo), mkSle(lo, hi), mkSle(hi, n)))
		if st.dead {
			return nil
		}
		return &Slice{obj: b.obj, path: b.path, off: lo, len: mkSub(hi, lo), cap: mkSub(n, lo)}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", v)})
}

func (st *State) typeAssert(x *ssa.TypeAssert) Value {
	i, ok := st.get(x.X).(*Iface)
	if !ok {
		panic(unsupported{"type assert"})
	}
	okv := false
	var v Value
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.typ != nil {
			if k, m := modelKind(i.typ); m {
				okv = modelImplements(k, x.AssertedType)
			} else {
				okv = types.AssignableTo(i.typ, x.AssertedType) || types.Implements(i.typ, x.AssertedType.Underlying().(*types.Interface))
			}
		}
		v = i
		if !okv {
			v = &Iface{}
		}
	} else {
		okv = i.typ != nil && types.Identical(i.typ, x.AssertedType)
		v = i.v
		if !okv {
			v = zeroVal(x.AssertedType)
		}
	}
	if x.CommaOk {
		return &Tuple{[]Value{v, mkBool(okv)}}
	}
	if !okv {
		panic(goPanic{"type assertion failed in " + st.top().fn.String()})
	}
	return v
}

func (st *State) rangeInit(x *ssa.Range) Value {
	v := st.get(x.X)
	switch b := v.(type) {
	case *Str:
		return &Ptr{obj: st.newObj(&ModelV{kind: "strrange", f: map[string]Value{"s": b, "i": i64(0)}}, "range")}
	case *MapRef:
		if b.obj == 0 {
			return &Ptr{obj: st.newObj(&ModelV{kind: "maprange", f: map[string]Value{"m": &MapV{}, "i": i64(0)}}, "range")}
		}
		mv, ok := st.obj(b.obj).val.(*MapV)
		if ok && len(mv.keys) <= 1 {
			return &Ptr{obj: st.newObj(&ModelV{kind: "maprange", f: map[string]Value{"m": mv, "i": i64(0)}}, "range")}
		}
	}
	panic(unsupported{"range over map"})
}
func (st *State) rangeNext(x *ssa.Next) Value {
	p := st.get(x.Iter).(*Ptr)
	mv := st.obj(p.obj).val.(*ModelV)
	i := mv.f["i"].(*Term)
	adv := func(n *Term) {
		nf := map[string]Value{}
		for k, v := range mv.f {
			nf[k] = v
		}
		nf["i"] = n
		st.setObj(p.obj, &Obj{val: &ModelV{kind: mv.kind, f: nf}})
	}
	if mv.kind == "maprange" {
		m := mv.f["m"].(*MapV)
		k := int(i.val.Int64())
		if k >= len(m.keys) {
			return &Tuple{[]Value{tFalse, nil, nil}}
		}
		adv(i64(int64(k + 1)))
		return &Tuple{[]Value{tTrue, m.keys[k], m.vals[k]}}
	}
	s := mv.f["s"].(*Str)
	if !st.decide(mkSlt(i, s.r.length())) {
		return &Tuple{[]Value{tFalse, i64(0), mkConst(big0, 32)}}
	}
	b := s.r.at(st, i)
	if st.decide(mkUlt(b, mkInt(0x80, 8))) {
		adv(mkAdd(i, i64(1)))
		return &Tuple{[]Value{tTrue, i, mkZext(b, 32)}}
	}
	panic(unsupported{"range over non-ASCII string"})
}

// ---- builtins ----

func (st *State) builtin(b *ssa.Builtin, cc *ssa.CallCommon, at *ssa.Call) Value {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, st.get(a))
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Slice:
			return x.len
		case *Str:
			return x.r.length()
		case *MapRef:
			if x.obj == 0 {
				return i64(0)
			}
			switch mv := st.obj(x.obj).val.(type) {
			case *MapV:
				return i64(int64(len(mv.keys)))
			case *WordMapV:
				return i64(4096)
			}
		case *Ptr:
			return i64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *ByteArr:
			return x.r.length()
		case *Array:
			return i64(int64(len(x.e)))
		}
	case "cap":
		if x, ok := args[0].(*Slice); ok {
			if x.capUnk {
				c := mkVar(st.freshName("cap"), 64)
				setBound(c, big0, maxLen)
				st.assume(mkSle(x.len, c))
				return c
			}
			return x.cap
		}
	case "append":
		return st.doAppend(args[0].(*Slice), args[1], cc.Args[0].Type())
	case "copy":
		return st.doCopy(args[0].(*Slice), args[1])
	case "min", "max":
		x := args[0].(*Term)
		bt := cc.Args[0].Type().Underlying().(*types.Basic)
		_, signed := intWidth(bt)
		for _, y := range args[1:] {
			yt := y.(*Term)
			var c *Term
			if signed {
				c = mkSlt(yt, x)
			} else {
				c = mkUlt(yt, x)
			}
			if b.Name() == "max" {
				c = mkNot(c)
			}
			x = mkIte(c, yt, x)
		}
		return x
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.obj == 0 {
			panic(goPanic{"nil receiver in wrapper"})
		}
		return args[0]
	case "close":
		p := args[0].(*Ptr)
		if p.obj == 0 {
			panic(goPanic{"close of nil channel in " + st.top().fn.String()})
		}
		c := *st.chanOf(p.obj)
		if c.closed {
			panic(goPanic{"close of closed channel in " + st.top().fn.String()})
		}
		c.closed = true
		st.setChan(p.obj, &c)
		return nil
	case "delete":
	case "recover":
		return &Iface{}
	case "clear":
	}
	panic(unsupported{"builtin " + b.Name()})
}

func (st *State) doAppend(s *Slice, add Value, t types.Type) Value {
	elem := t.Underlying().(*types.Slice).Elem()
	if isByteType(elem) {
		var r Rope
		switch x := add.(type) {
		case *Slice:
			r = st.bytesOf(x)
		case *Str:
			r = x.r
		}
		n := r.length()
		if len(r.segs) == 0 {
			return s
		}
		if s.obj != 0 && !s.capUnk {
			if st.decide(mkSle(mkAdd(s.len, n), s.cap)) {
				// in place
				p := &Ptr{obj: s.obj, path: s.path}
				ba := getPath(st.obj(s.obj).val, s.path).(*ByteArr)
				st.store(p, &ByteArr{ba.r.write(st, mkAdd(s.off, s.len), r)})
				return &Slice{obj: s.obj, path: s.path, off: s.off, len: mkAdd(s.len, n), cap: s.cap}
			}
		}
		old := st.bytesOf(s)
		id := st.newObj(&ByteArr{ropeCat(old, r)}, "append")
		l := mkAdd(s.len, n)
		if s.obj != 0 && s.capUnk {
			st.markShared(s, id)
		}
		return &Slice{obj: id, off: i64(0), len: l, cap: l, capUnk: true}
	}
	x, ok := add.(*Slice)
	if !ok {
		panic(unsupported{"append"})
	}
	es := st.elems(x)
	if len(es) == 0 {
		return s
	}
	if s.obj != 0 && !s.capUnk {
		if st.decide(mkSle(mkAdd(s.len, i64(int64(len(es)))), s.cap)) {
			base := int(st.concrete(mkAdd(s.off, s.len)).Int64())
			for i, e := range es {
				st.store(&Ptr{obj: s.obj, path: append(append([]int{}, s.path...), base+i)}, e)
			}
			return &Slice{obj: s.obj, path: s.path, off: s.off, len: mkAdd(s.len, i64(int64(len(es)))), cap: s.cap}
		}
	}
	old := st.elems(s)
	id := st.newObj(&Array{append(append([]Value{}, old...), es...)}, "append")
	if s.obj != 0 && s.capUnk {
		st.markShared(s, id)
	}
	l := i64(int64(len(old) + len(es)))
	return &Slice{obj: id, off: i64(0), len: l, cap: l, capUnk: true}
}

// markShared: a slice with unspecified spare capacity was extended: the result may or
// may not share memory with the original. Writes through one and reads through the other
// would be unpredictable; a second extension of the same original makes the first
// extension's tail unpredictable, so the original is remembered.
func (st *State) markShared(s *Slice, id ObjID) {
	if st.ghost == nil {
		st.ghost = map[string]Value{}
	}
	k := fmt.Sprintf("ext:%d:%d", s.obj, s.len.id)
	if prev, ok := st.ghost[k]; ok {
		if po, ok := prev.(*Slice); ok && st.heap[po.obj] != nil {
			o := *st.heap[po.obj]
			o.stale = true
			st.setObj(po.obj, &o)
		}
	}
	st.ghost[k] = &Slice{obj: id}
}

func (st *State) doCopy(d *Slice, src Value) Value {
	if sl, ok := src.(*Slice); ok && sl.obj != 0 {
		if _, isArr := getPath(st.obj(sl.obj).val, sl.path).(*ByteArr); !isArr {
			// generic copy
			es := st.elems(sl)
			dl := int(st.concrete(d.len).Int64())
			if dl < len(es) {
				es = es[:dl]
			}
			base := 0
			if d.obj != 0 {
				base = int(st.concrete(d.off).Int64())
			}
			for i, e := range es {
				st.store(&Ptr{obj: d.obj, path: append(append([]int{}, d.path...), base+i)}, e)
			}
			return i64(int64(len(es)))
		}
	}
	var r Rope
	switch x := src.(type) {
	case *Slice:
		r = st.bytesOf(x)
	case *Str:
		r = x.r
	}
	n := r.length()
	if d.obj == 0 || len(r.segs) == 0 {
		return i64(0)
	}
	if !st.decide(mkSle(n, d.len)) {
		n = d.len
		r = r.slice(st, i64(0), n)
	}
	if len(r.segs) == 0 {
		return i64(0)
	}
	ba, ok := getPath(st.obj(d.obj).val, d.path).(*ByteArr)
	if !ok {
		panic(unsupported{"copy destination"})
	}
	st.store(&Ptr{obj: d.obj, path: d.path}, &ByteArr{ba.r.write(st, d.off, r)})
	return n
}

// sortedKeys is a helper for deterministic output.
func sortedKeys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
