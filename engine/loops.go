package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Loops whose number of iterations is not a constant are summarised when one
// iteration, executed from a generic state, provably does the same thing each time:
// an index goes up by one, accumulators gain a loop-invariant amount or the byte at
// the index, and hashes and buffers gain a loop-invariant string. Everything else is
// unrolled with a case split per iteration.

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// inLoop: can x reach the header without leaving what the header dominates
func inLoop(x, header *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == header {
			return true
		}
		if seen[b] || !header.Dominates(b) {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(x)
}

type iterResult struct {
	st   *State
	prev *ssa.BasicBlock
	cond *Term
	x, y *Term
}

// tryAccel is called at the If that ends f.block.
func (ex *Exec) tryAccel(st *State, f *Frame, c *Term) bool {
	if c.isConst() || ex.iter > 0 || !isHeader(f.block) || f.visits[f.block] > 64 {
		return false
	}
	h := f.block
	in0, in1 := inLoop(h.Succs[0], h), inLoop(h.Succs[1], h)
	if !in0 || in1 {
		return false
	}
	iff := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op == token.EQL {
		return false
	}
	bt, ok := cmp.X.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	for _, ins := range h.Instrs[len(phis) : len(h.Instrs)-1] {
		switch x := ins.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.DebugRef:
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
	}
	ok = false
	if ex.loopFails[h] > 2 {
		return false
	}
	obls, order, nun := ex.saveObls()
	defer func() {
		if ok {
			ex.loopFails[h] = -1000
		} else {
			ex.loopFails[h]++
			ex.obls, ex.order = obls, order
			ex.unsup = ex.unsup[:nun]
		}
	}()
	gen := make([]*Term, len(phis))
	init := make([]*Term, len(phis))
	for i, ph := range phis {
		if t, isT := f.regs[ph].(*Term); isT && t.w > 0 && t.w <= 64 {
			init[i] = st.simp(t)
			st.fresh["loopvar"]++
			gen[i] = mkVar(fmt.Sprintf("loop%d_%s@%d", i, ph.Name(), st.fresh["loopvar"]), t.w)
		}
	}
	bufs := map[ObjID]*Term{}
	// generic runs an iteration in which the buffers that change are generic too
	generic := func() *iterResult {
		for pass := 0; pass < 3; pass++ {
			ex.iterCond = nil
			end := ex.runIter(st, h, phis, gen, init, bufs, cmp)
			if end == nil {
				return nil
			}
			more := false
			for id, o := range st.heap {
				n := end.st.heap[id]
				if n == o || bufs[id] != nil {
					continue
				}
				switch o.val.(type) {
				case *HashV, *BufV:
					st.fresh["loopbuf"]++
					bufs[id] = mkVar(fmt.Sprintf("loopbuf@%d", st.fresh["loopbuf"]), SBytes)
					more = true
				default:
					return nil
				}
			}
			if !more {
				return end
			}
		}
		return nil
	}
	end := generic()
	if end == nil && (cmp.Op == token.LSS || cmp.Op == token.GTR || cmp.Op == token.NEQ) {
		if ex.trySearch(st, f, h, phis, gen, init, cmp) {
			ok = true
			return true
		}
	}
	isGen := func(t *Term) bool {
		for _, g := range gen {
			if g != nil && occurs(g, t) {
				return true
			}
		}
		for _, b := range bufs {
			if occurs(b, t) {
				return true
			}
		}
		return false
	}
	// the values the phis take next
	nextOf := func(end *iterResult) []Value {
		next := make([]Value, len(phis))
		for i, ph := range phis {
			for j, p := range h.Preds {
				if p == end.prev {
					next[i] = end.st.get(ph.Edges[j])
				}
			}
			if next[i] == nil {
				return nil
			}
			if t, isT := next[i].(*Term); isT {
				next[i] = end.st.simp(t)
			}
		}
		return next
	}
	var next []Value
	var trips *Term
	at := map[int]*Term{} // phis whose last value is known already
	again := false        // whether the loop may go on after these iterations
	idx := -1
	if end != nil {
		if next = nextOf(end); next == nil {
			return false
		}
		if i, last, n := ex.byOne(st, c, cmp, gen, init, end, next, isGen); i >= 0 {
			idx, trips = i, n
			at[i] = last
		} else if i, last, n := ex.stride(st, end.cond, end.cond, gen, init, next, isGen); i >= 0 {
			trips = n
			at[i] = last
		}
	} else {
		defer func() { ex.iterDir = 0 }()
		for dir := 1; dir <= 2 && trips == nil; dir++ {
			for id := range bufs {
				delete(bufs, id)
			}
			ex.iterDir = dir
			end = generic()
			split := ex.iterCond
			if end == nil || split == nil {
				continue
			}
			if dir == 2 {
				split = mkNot(split)
			}
			if next = nextOf(end); next == nil {
				continue
			}
			if i, last, n := ex.stride(st, split, end.cond, gen, init, next, isGen); i >= 0 {
				trips, again = n, true
				at[i] = last
			}
		}
		ex.iterDir, ex.iterCond = 0, nil
	}
	if trips == nil {
		return false
	}
	e := end.st
	final := make([]Value, len(phis))
	for i, ph := range phis {
		switch {
		case at[i] != nil:
			final[i] = at[i]
		case gen[i] == nil:
			if !sameValue(next[i], f.regs[ph]) {
				return false
			}
			final[i] = f.regs[ph]
		default:
			t, isT := next[i].(*Term)
			if !isT {
				return false
			}
			t = e.simp(t)
			if t == gen[i] {
				final[i] = init[i]
				break
			}
			d := mkSub(t, gen[i])
			if !isGen(d) {
				final[i] = mkAdd(init[i], mkMul(d, fitWidth(trips, d.w)))
				break
			}
			if idx < 0 {
				return false
			}
			s := ex.byteSum(st, d, gen[idx], init[idx], trips)
			if s == nil {
				return false
			}
			final[i] = mkAdd(init[i], fitWidth(s, d.w))
		}
	}
	type upd struct {
		id ObjID
		v  Value
	}
	var upds []upd
	for id, b := range bufs {
		var r, r0 Rope
		var mk func(Rope) Value
		switch o := e.heap[id].val.(type) {
		case *HashV:
			h0, isH := st.heap[id].val.(*HashV)
			if !isH || h0.alg != o.alg {
				return false
			}
			r, r0, mk = o.r, h0.r, func(x Rope) Value { return &HashV{o.alg, x} }
		case *BufV:
			b0, isB := st.heap[id].val.(*BufV)
			if !isB {
				return false
			}
			r, r0, mk = o.r, b0.r, func(x Rope) Value { return &BufV{x} }
		default:
			return false
		}
		if len(r.segs) == 0 || r.segs[0].atom != b {
			return false
		}
		delta := Rope{r.segs[1:]}
		for _, s := range delta.segs {
			t := s.bv
			if t == nil {
				t = s.atom
			}
			if isGen(t) {
				return false
			}
		}
		upds = append(upds, upd{id, mk(ropeCat(r0, mkRep(delta, trips)))})
	}
	ok = true
	ex.accels[ex.where(st)] = true
	for _, u := range upds {
		o := *st.heap[u.id]
		o.val = u.v
		st.setObj(u.id, &o)
	}
	for i, ph := range phis {
		f.regs[ph] = final[i]
	}
	f.pc = len(phis)
	if again {
		return true
	}
	for f.pc < len(h.Instrs)-1 {
		ex.step(st)
	}
	ex.jump(st, f, h.Succs[1])
	return true
}

// byOne recognises an index that goes up by one to a loop-invariant end: which phi it is,
// its last value and the number of iterations.
func (ex *Exec) byOne(st *State, c *Term, cmp *ssa.BinOp, gen, init []*Term, end *iterResult, next []Value, isGen func(*Term) bool) (int, *Term, *Term) {
	x, y := end.x, end.y
	switch cmp.Op {
	case token.LSS:
	case token.GTR:
		x, y = y, x
	case token.NEQ:
		if !y.isConst() && isGen(y) {
			x, y = y, x
		}
	default:
		return -1, nil, nil
	}
	if isGen(y) {
		return -1, nil, nil
	}
	idx := -1
	var k *Term
	for i, g := range gen {
		if g == nil || g.w != x.w {
			continue
		}
		d := mkSub(x, g)
		if d.isConst() {
			idx, k = i, d
		}
	}
	if idx < 0 || gen[idx].w != 64 {
		return -1, nil, nil
	}
	nt, isT := next[idx].(*Term)
	if !isT || mkSub(nt, gen[idx]) != mkInt(1, 64) {
		return -1, nil, nil
	}
	last := st.simp(mkSub(y, k)) // value of the index phi when the loop ends
	if !st.proved(mkSle(last, mkConst(maxLen, 64))) {
		return -1, nil, nil
	}
	if !st.proved(mkSle(init[idx], last)) {
		if cmp.Op == token.NEQ || !st.decide(c) {
			return -1, nil, nil
		}
	}
	return idx, last, st.simp(mkSub(last, init[idx]))
}

// stride recognises a condition of the form "at least d remain", where every iteration
// takes d away from what remains: R / d iterations follow, and R % d remain. The loop's own
// condition must hold whenever cond does.
func (ex *Exec) stride(st *State, cond, header *Term, gen, init []*Term, next []Value, isGen func(*Term) bool) (int, *Term, *Term) {
	no := func() (int, *Term, *Term) { return -1, nil, nil }
	c, neg := cond, false
	if c.op == OpNot {
		c, neg = c.args[0], true
	}
	var more *Term // non-negative exactly when cond holds
	switch {
	case c.op == OpSlt && c.args[0].w == 64 && neg:
		more = mkSub(c.args[0], c.args[1])
	case c.op == OpSlt && c.args[0].w == 64:
		more = mkSub(mkSub(c.args[1], c.args[0]), i64(1))
	case c.op == OpEq && c.args[0].w == 64 && neg:
		more = mkSub(mkSub(c.args[1], c.args[0]), i64(1))
		if i, l, n := ex.strideOf(st, more, cond, header, gen, init, next, isGen); i >= 0 {
			return i, l, n
		}
		more = mkSub(mkSub(c.args[0], c.args[1]), i64(1))
	default:
		return no()
	}
	return ex.strideOf(st, more, cond, header, gen, init, next, isGen)
}

func (ex *Exec) strideOf(st *State, more, cond, header *Term, gen, init []*Term, next []Value, isGen func(*Term) bool) (int, *Term, *Term) {
	no := func() (int, *Term, *Term) { return -1, nil, nil }
	idx := -1
	var step *Term
	fwd, start := map[int]*Term{}, map[int]*Term{}
	for i, g := range gen {
		if g == nil {
			continue
		}
		start[g.id] = init[i]
		if !occurs(g, more) {
			continue
		}
		t, isT := next[i].(*Term)
		if !isT || g.w != 64 || idx >= 0 {
			return no()
		}
		idx, step = i, mkSub(t, g)
		fwd[g.id] = t
	}
	if idx < 0 {
		return no()
	}
	d := mkSub(more, subst(more, fwd, map[int]*Term{}))
	if isGen(d) || isGen(step) || !st.proved(mkSlt(i64(0), d)) || !st.proved(mkSle(d, mkConst(maxLen, 64))) {
		return no()
	}
	remain := mkAdd(more, d)
	r0 := st.simp(subst(remain, start, map[int]*Term{}))
	if !st.proved(mkSle(i64(0), r0)) || !st.proved(mkSle(r0, mkConst(maxLen, 64))) || st.proved(mkSlt(r0, d)) {
		return no()
	}
	in := mkAnd(mkSle(i64(0), remain), mkSle(remain, mkConst(maxLen, 64)))
	if !st.proved(mkOr(mkNot(in), mkEq(cond, mkSle(d, remain)))) || !st.proved(mkOr(mkNot(mkAnd(in, cond)), header)) {
		return no()
	}
	trips := st.binop(token.QUO, types.Typ[types.Int], types.Typ[types.Int], r0, d).(*Term)
	left := st.binop(token.REM, types.Typ[types.Int], types.Typ[types.Int], r0, d).(*Term)
	// the index moved with what remains, one way or the other
	switch {
	case mkAdd(step, d) == i64(0):
		return idx, st.simp(mkAdd(mkSub(init[idx], r0), left)), st.simp(trips)
	case step == d:
		return idx, st.simp(mkSub(mkAdd(init[idx], r0), left)), st.simp(trips)
	}
	return no()
}

// search is a range of indexes [first, y) none of which has P, given over the variable bound.
type search struct{ p, bound, first, y *Term }

// not is the instance of "none has P" at an index.
func (n search) not(at *Term) *Term {
	in := mkAnd(mkSle(n.first, at), mkSlt(at, n.y))
	return mkNot(mkAnd(in, subst(n.p, map[int]*Term{n.bound.id: at}, map[int]*Term{})))
}

// refute ends a path whose condition has become contradictory.
func (st *State) refute() bool {
	if len(st.none) > 0 && len(st.found) > 0 && !st.dead && st.ex.feasible(st) == Unsat {
		st.dead = true
	}
	return st.dead
}

// trySearch summarises a loop that only looks for the first index with some property P:
// an iteration without P changes nothing but the index. "Some index in the range has P"
// becomes a fact named by P and the range; either there is a first such index, where
// execution goes on in the loop, or the loop ends without one.
func (ex *Exec) trySearch(st *State, f *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, gen, init []*Term, cmp *ssa.BinOp) bool {
	defer func() { ex.iterDir, ex.iterCond = 0, nil }()
	for dir := 1; dir <= 2; dir++ {
		ex.iterDir, ex.iterCond = dir, nil
		end := ex.runIter(st, h, phis, gen, init, map[ObjID]*Term{}, cmp)
		p := ex.iterCond
		if end == nil || p == nil {
			continue
		}
		if dir == 1 { // the iteration goes on when the condition holds
			p = mkNot(p)
		}
		same := true
		for id, o := range st.heap {
			if end.st.heap[id] != o {
				same = false
			}
		}
		e := end.st
		idx := -1
		var k *Term
		for i, ph := range phis {
			var next Value
			for j, q := range h.Preds {
				if q == end.prev {
					next = e.get(ph.Edges[j])
				}
			}
			if gen[i] == nil {
				same = same && next != nil && sameValue(next, f.regs[ph])
				continue
			}
			t, isT := next.(*Term)
			if !isT {
				same = false
				continue
			}
			switch d := mkSub(e.simp(t), gen[i]); {
			case d == mkInt(0, gen[i].w):
				// not an induction variable: back to its value
				if occurs(gen[i], p) {
					same = false
				}
			case d == mkInt(1, gen[i].w) && gen[i].w == 64 && mkSub(end.x, gen[i]).isConst() && idx < 0:
				idx, k = i, mkSub(end.x, gen[i])
			default:
				same = false
			}
		}
		if !same || idx < 0 || cmp.Op == token.GTR {
			continue
		}
		y := end.y
		for _, g := range gen {
			if g != nil && occurs(g, y) {
				same = false
			}
		}
		first := st.simp(mkAdd(init[idx], k))
		if !same || !st.proved(mkSle(first, y)) || !st.proved(mkSle(y, mkConst(maxLen, 64))) || st.proved(mkSle(y, mkInt(32, 64))) {
			// short loops are unrolled, so that facts about single elements meet
			continue
		}
		bound := mkVar("searchindex", 64)
		t := subst(p, map[int]*Term{gen[idx].id: mkSub(bound, k)}, map[int]*Term{})
		some := mkVar(fmt.Sprintf("some@%d@%d@%d", t.id, first.id, y.id), SBool)
		ex.accels[ex.where(st)] = true
		none := search{t, bound, first, y}
		if !st.decide(some) {
			st.none = append(append([]search{}, st.none...), none)
			for _, at := range st.found {
				st.assume(none.not(at))
			}
			if st.refute() {
				return true
			}
			f.regs[phis[idx]] = mkSub(y, k)
			f.pc = len(phis)
			for f.pc < len(h.Instrs)-1 {
				ex.step(st)
			}
			ex.jump(st, f, h.Succs[1])
			return true
		}
		st.fresh["search"]++
		at := mkVar(fmt.Sprintf("found@%d", st.fresh["search"]), 64)
		st.assume(mkSle(first, at))
		st.assume(mkSlt(at, y))
		st.assume(subst(p, map[int]*Term{gen[idx].id: mkSub(at, k)}, map[int]*Term{}))
		st.found = append(append([]*Term{}, st.found...), at)
		for _, n := range st.none {
			st.assume(n.not(at))
		}
		if st.refute() {
			return true
		}
		f.regs[phis[idx]] = mkSub(at, k)
		f.pc = len(phis)
		for f.pc < len(h.Instrs)-1 {
			ex.step(st)
		}
		ex.jump(st, f, h.Succs[0])
		return true
	}
	return false
}

func fitWidth(t *Term, w int) *Term {
	if t.w > w {
		return mkExtract(w-1, 0, t)
	}
	return mkZext(t, w)
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.obj == y.obj && len(x.path) == 0 && len(y.path) == 0
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.obj == y.obj && len(x.path) == 0 && len(y.path) == 0 && x.off == y.off && x.len == y.len && x.cap == y.cap
	}
	return a == b
}

// byteSum: d is the byte at the index (of one opaque string) widened; the sum of it
// over the remaining iterations.
func (ex *Exec) byteSum(st *State, d, g, init, trips *Term) *Term {
	if d.op == OpConcat && len(d.args) == 2 && d.args[0].isConst() && d.args[0].val.Sign() == 0 {
		d = d.args[1]
	}
	if d.op != OpUF || d.name != "at" || occurs(g, d.args[0]) {
		return nil
	}
	off := mkSub(d.args[1], g)
	if occurs(g, off) {
		return nil
	}
	start := st.simp(mkAdd(init, off))
	a := d.args[0]
	if start.isConst() && start.val.Sign() == 0 && st.proved(mkEq(trips, lenOf(a))) {
		return mkByteSum(a)
	}
	if !st.proved(mkSle(i64(0), start)) || !st.proved(mkSle(mkAdd(start, trips), lenOf(a))) {
		return nil
	}
	r := mkSubAtom(a, start, trips)
	if len(r.segs) == 1 && r.segs[0].atom != nil {
		return mkByteSum(r.segs[0].atom)
	}
	return nil
}

// mkByteSum is the sum of the bytes of an opaque string.
func mkByteSum(a *Term) *Term {
	t := mkUF("bytesum", 64, a)
	if _, ok := extraBound[t.id]; !ok {
		setBound(t, big0, new(big.Int).Lsh(big1, 48))
	}
	return t
}

func (ex *Exec) saveObls() (map[string]*Obligation, []string, int) {
	m := map[string]*Obligation{}
	for k, o := range ex.obls {
		c := *o
		m[k] = &c
	}
	return m, append([]string{}, ex.order...), len(ex.unsup)
}

func (ex *Exec) failedCount() int {
	n := 0
	for _, o := range ex.obls {
		n += o.Failed
	}
	return n
}

// runIter executes one iteration from a generic state, without case splits.
func (ex *Exec) runIter(st *State, h *ssa.BasicBlock, phis []*ssa.Phi, gen, init []*Term, bufs map[ObjID]*Term, cmp *ssa.BinOp) *iterResult {
	s := st.clone()
	f := s.top()
	for i, ph := range phis {
		if gen[i] != nil {
			f.regs[ph] = gen[i]
		}
	}
	for id, b := range bufs {
		o := *s.heap[id]
		switch x := o.val.(type) {
		case *HashV:
			o.val = &HashV{x.alg, ropeAtom(b)}
		case *BufV:
			o.val = &BufV{ropeAtom(b)}
		}
		s.heap[id] = &o
	}
	var res *iterResult
	nun, nfail, nev, nwork := len(ex.unsup), ex.failedCount(), len(s.events), len(ex.work)
	nrand := map[string]int{}
	for k, v := range s.fresh {
		nrand[k] = v
	}
	ex.iter++
	ex.iterFail = false
	defer func() { ex.iter-- }()
	// every integer the loop counts up stays at or above its start
	for i := range phis {
		if gen[i] == nil || gen[i].w != 64 {
			continue
		}
		if countsUp(phis[i]) {
			s.assume(mkSle(init[i], gen[i]))
			s.assume(mkSle(gen[i], mkConst(maxLen, 64)))
		}
	}
	depth := len(s.frames)
	s.depth = depth
	s.cutStop = map[*ssa.BasicBlock]bool{h: true}
	s.onStop = func(x *State, b *ssa.BasicBlock) {
		res.st, res.prev = x, x.top().block
	}
	res = &iterResult{}
	f.pc = len(phis)
	for n := 0; f.pc < len(h.Instrs)-1; n++ {
		ex.stepSafe(s)
		if s.dead || ex.iterFail || n > 100 {
			return nil
		}
	}
	cond, ok := f.regs[cmp].(*Term)
	if !ok {
		return nil
	}
	if res.x, ok = s.get(cmp.X).(*Term); !ok {
		return nil
	}
	if res.y, ok = s.get(cmp.Y).(*Term); !ok {
		return nil
	}
	if s.simp(cond) == tFalse {
		return nil
	}
	res.cond = cond
	s.assume(cond)
	ex.jump(s, f, h.Succs[0])
	for n := 0; !s.dead && len(s.frames) >= depth; n++ {
		ex.stepSafe(s)
		if ex.iterFail || n > 20000 {
			return nil
		}
	}
	if res.st == nil || len(ex.unsup) != nun || ex.failedCount() != nfail || len(s.events) != nev || len(ex.work) != nwork {
		return nil
	}
	for k, v := range s.fresh {
		if nrand[k] != v {
			return nil
		}
	}
	res.st.cutStop, res.st.onStop = nil, nil
	res.st.dead = false
	return res
}

// countsUp: the phi's value along every back edge is the phi plus one
func countsUp(ph *ssa.Phi) bool {
	b := ph.Block()
	for i, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		op, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || op.Op != token.ADD || op.X != ssa.Value(ph) {
			return false
		}
		c, ok := op.Y.(*ssa.Const)
		if !ok || c.Int64() != 1 {
			return false
		}
	}
	return true
}
