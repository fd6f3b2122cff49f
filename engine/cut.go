package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops that read input (keys, lines, passwords) have no bound. They are cut at their
// header: whenever an iteration that read something comes back to it, everything learnt
// since the loop was entered is forgotten, and every value the loop changed becomes
// arbitrary, except for constants and for being the same value as another one. What is
// left is the invariant; a path ends where it comes back with one that was already
// continued from (for the same entry), so the loop is decided when no new one comes up.

// cutPoint is one entry of such a loop.
type cutPoint struct {
	npc    int
	fresh  map[string]int
	heap   map[ObjID]*Obj
	next   ObjID
	notes  []note
	none   []search
	found  []*Term
	defers int
	reads  int
	moves  int
	exts   map[string]bool
	seen   map[string]bool
}

var inputFns = map[string]bool{
	"(*os.File).Read": true, "(*bufio.Scanner).Scan": true, "(*bufio.Reader).ReadString": true,
	"(*bufio.Reader).ReadByte": true, "(*bufio.Reader).ReadRune": true, "(*bufio.Reader).ReadLine": true,
	"golang.org/x/term.ReadPassword":                                true,
	"github.com/kklash/mnemonikey/cmd/mnemonikey.userInputPassword": true,
}

// readsInput: fn may, by static calls within the repository, read what the user enters.
func (ex *Exec) readsInput(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	if inputFns[fnKey(fn)] || fn.Name() == "NextPassword" {
		return true
	}
	if busy[fn] || !ex.isRepoFn(fn) {
		return false
	}
	busy[fn] = true
	for _, b := range fn.Blocks {
		if ex.blockReads(b, busy) {
			return true
		}
	}
	return false
}

func (ex *Exec) blockReads(b *ssa.BasicBlock, busy map[*ssa.Function]bool) bool {
	for _, ins := range b.Instrs {
		if c, ok := ins.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && ex.readsInput(g, busy) {
				return true
			}
			if c.Call.IsInvoke() {
				switch c.Call.Method.Name() {
				case "Read", "ReadByte", "ReadRune", "ReadString":
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) isCutHeader(h *ssa.BasicBlock) bool {
	if v, ok := ex.cuts[h]; ok {
		return v
	}
	r := false
	if ex.isRepoFn(h.Parent()) && isHeader(h) {
		for _, b := range h.Parent().Blocks {
			if !r && h.Dominates(b) && inLoop(b, h) && ex.blockReads(b, map[*ssa.Function]bool{}) {
				r = true
			}
		}
	}
	ex.cuts[h] = r
	return r
}

// atHeader is called after every jump to a loop header.
func (ex *Exec) atHeader(st *State, f *Frame, h *ssa.BasicBlock) {
	if ex.iter > 0 || !ex.isCutHeader(h) {
		return
	}
	if !h.Dominates(f.prev) {
		c := &cutPoint{npc: len(st.pc), next: st.nextObj, notes: st.notes, none: st.none, found: st.found,
			defers: len(f.defers), reads: st.reads, moves: st.switches, fresh: map[string]int{}, heap: map[ObjID]*Obj{}, seen: map[string]bool{}}
		for k, v := range st.fresh {
			c.fresh[k] = v
		}
		for k, v := range st.heap {
			c.heap[k] = v
		}
		c.exts = map[string]bool{}
		for k := range st.ghost {
			c.exts[k] = true
		}
		m := map[*ssa.BasicBlock]*cutPoint{h: c}
		for k, v := range f.cut {
			if k != h {
				m[k] = v
			}
		}
		f.cut = m
		return
	}
	c := f.cut[h]
	if c == nil || st.reads == c.reads {
		return
	}
	if st.switches != c.moves {
		panic(unsupported{"goroutines in a loop that reads input"})
	}
	if len(f.defers) != c.defers {
		panic(unsupported{"defer in a loop that reads input"})
	}
	if ex.feasible(st) == Unsat {
		st.dead = true
		return
	}
	g := &forget{st: st, used: map[ObjID]int{}, c: c, terms: map[int]*Term{}, ropes: map[string]*Term{}, objs: map[ObjID]int{}, nums: map[int]int{}, old: map[int]bool{}}
	var changed []ObjID
	for id, o := range st.heap {
		if (id <= c.next || id < 0) && c.heap[id] != o {
			changed = append(changed, id)
		}
	}
	sort.Slice(changed, func(i, j int) bool { return changed[i] < changed[j] })
	for _, ins := range h.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			g.extent(f.regs[ph])
		}
	}
	for _, id := range changed {
		g.extent(st.heap[id].val)
	}
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		f.regs[ph] = g.value(f.regs[ph])
		g.key.WriteByte(';')
	}
	for _, id := range changed {
		fmt.Fprintf(&g.key, "\n@%d:", id)
		g.object(id)
	}
	for len(g.todo) > 0 {
		id := g.todo[0]
		g.todo = g.todo[1:]
		fmt.Fprintf(&g.key, "\n#%d:", g.objs[id])
		g.object(id)
	}
	var ext []string
	for k := range st.ghost {
		p := strings.SplitN(k, ":", 3)
		if len(p) == 3 && p[0] == "ext" {
			n, _ := strconv.Atoi(p[1])
			if m, ok := g.objs[ObjID(n)]; ok {
				ext = append(ext, fmt.Sprintf("ext#%d:%s", m, p[2]))
			} else if ObjID(n) > c.next {
				continue // unreachable
			} else if !c.exts[k] {
				ext = append(ext, k)
			}
		}
	}
	sort.Strings(ext)
	g.key.WriteString(strings.Join(ext, ","))
	ex.accels[fmt.Sprintf("cut at %s", ex.where(st))] = true
	key := g.key.String()
	if ex.trace || cutDebug {
		fmt.Println("CUT", ex.where(st), c.seen[key], "\n", key)
	}
	if c.seen[key] {
		st.dead = true
		return
	}
	c.seen[key] = true
	if len(c.seen) > 2000 {
		panic(unsupported{"a loop that reads input has too many different states"})
	}
	for id := range st.heap {
		if _, ok := g.objs[id]; !ok && id > c.next {
			delete(st.heap, id)
		}
	}
	for v := range f.regs {
		if ins, ok := v.(ssa.Instruction); ok && ins.Parent() == h.Parent() {
			if _, phi := v.(*ssa.Phi); phi && ins.Block() == h {
				continue
			}
			if h.Dominates(ins.Block()) {
				delete(f.regs, v)
			}
		}
	}
	st.notes, st.none, st.found = c.notes, c.none, c.found
	pc := st.pc[:c.npc]
	st.pc, st.known, st.memo = nil, map[int]*Term{}, map[int]*Term{}
	st.undo = st.undo[:0]
	for _, p := range pc {
		st.assume(p)
	}
	for _, p := range g.facts {
		st.assume(p)
	}
}

var cutDebug = os.Getenv("GOVERIF_CUT") != ""

type forget struct {
	st    *State
	c     *cutPoint
	key   strings.Builder
	terms map[int]*Term
	ropes map[string]*Term
	objs  map[ObjID]int // objects made since the entry, in order of appearance
	nums  map[int]int   // new variables, in order of appearance
	old   map[int]bool
	todo  []ObjID
	used  map[ObjID]int // how much of an array can be reached
	facts []*Term
}

// isOld: t is about values from before the loop only.
func (g *forget) isOld(t *Term) bool {
	if r, ok := g.old[t.id]; ok {
		return r
	}
	r := true
	if t.op == OpVar {
		if i := strings.LastIndexByte(t.name, '@'); i >= 0 {
			n, err := strconv.Atoi(t.name[i+1:])
			r = err == nil && n <= g.c.fresh[t.name[:i]]
		}
	}
	for _, a := range t.args {
		if !r {
			break
		}
		r = g.isOld(a)
	}
	g.old[t.id] = r
	return r
}

func (g *forget) num(v *Term) {
	n, ok := g.nums[v.id]
	if !ok {
		n = len(g.nums)
		g.nums[v.id] = n
	}
	fmt.Fprintf(&g.key, "$%d/%d", n, v.w)
}

func (g *forget) term(t *Term) *Term {
	if t == nil {
		g.key.WriteString("nil")
		return nil
	}
	t = g.st.simp(t)
	if t.isConst() {
		fmt.Fprintf(&g.key, "%v/%d", t.val, t.w)
		return t
	}
	if t == tTrue || t == tFalse {
		fmt.Fprintf(&g.key, "%v", t == tTrue)
		return t
	}
	if g.isOld(t) {
		fmt.Fprintf(&g.key, "t%d", t.id)
		return t
	}
	v := g.terms[t.id]
	if v == nil {
		v = mkVar(g.st.freshName("any"), t.w)
		g.terms[t.id] = v
	}
	g.num(v)
	return v
}

func (g *forget) rope(r Rope) Rope {
	if s, ok := r.constStr(); ok && len(s) <= 64 {
		fmt.Fprintf(&g.key, "%q", s)
		return r
	} else if !ok {
		old := true
		r2 := Rope{}
		for _, s := range r.segs {
			if s.bv != nil {
				r2 = ropeCat(r2, ropeBV(g.st.simp(s.bv)))
			} else if a := g.st.simp(s.atom); a.op != OpUF || a.name != "empty" {
				r2 = ropeCat(r2, ropeOfTerm(a))
			}
		}
		if _, ok := r2.constStr(); ok {
			return g.rope(r2)
		}
		id := "r"
		for _, s := range r2.segs {
			t := s.bv
			if t == nil {
				t = s.atom
			}
			old = old && g.isOld(t)
			id += fmt.Sprintf(",%d", t.id)
		}
		if old && len(r2.segs) == 1 { // longer ones may grow forever
			g.key.WriteString(id)
			return r2
		}
		v := g.ropes[id]
		if v == nil {
			v = mkVar(g.st.freshName("any"), SBytes)
			g.ropes[id] = v
		}
		g.num(v)
		return ropeAtom(v)
	}
	s, _ := r.constStr()
	v := g.ropes[s]
	if v == nil {
		v = mkVar(g.st.freshName("any"), SBytes)
		g.ropes[s] = v
	}
	g.num(v)
	return ropeAtom(v)
}

// bytes are the contents of an array: its length stays.
func (g *forget) bytes(r Rope) Rope {
	out := Rope{}
	for _, s := range r.segs {
		switch {
		case s.bv != nil:
			v := mkVar(g.st.freshName("any"), s.bv.w)
			g.num(v)
			out = ropeCat(out, ropeBV(v))
		default:
			a := g.st.simp(s.atom)
			if a.op == OpUF && a.name == "empty" {
				continue
			}
			n := lenOf(a)
			v := g.term(a)
			if v != a {
				// the length stays arbitrary, but is the same wherever it is used
				g.facts = append(g.facts, mkEq(lenOf(v), g.term(n)))
			}
			out = ropeCat(out, ropeAtom(v))
		}
	}
	return out
}

func (g *forget) ref(id ObjID) {
	if id == 0 {
		g.key.WriteString("nil")
		return
	}
	if id < 0 || id <= g.c.next {
		fmt.Fprintf(&g.key, "@%d", id)
		return
	}
	n, ok := g.objs[id]
	if !ok {
		n = len(g.objs)
		g.objs[id] = n
		g.todo = append(g.todo, id)
	}
	fmt.Fprintf(&g.key, "#%d", n)
}

// extent finds how much of each array made since the entry can be reached: slices whose
// spare capacity is unspecified reach as far as their length.
func (g *forget) extent(v Value) {
	reach := func(id ObjID, n int) {
		if id <= g.c.next {
			return
		}
		m, ok := g.used[id]
		if !ok || n > m {
			g.used[id] = n
		}
		if !ok {
			g.extent(g.st.heap[id].val)
		}
	}
	const all = 1 << 30
	switch x := v.(type) {
	case *Slice:
		n := all
		if x.capUnk && len(x.path) == 0 {
			if e := g.st.simp(mkAdd(x.off, x.len)); e.isConst() {
				n = int(e.val.Int64())
			}
		}
		reach(x.obj, n)
	case *Ptr:
		reach(x.obj, all)
	case *MapRef:
		reach(x.obj, all)
	case *Iface:
		g.extent(x.v)
	case *Closure:
		for _, e := range x.bind {
			g.extent(e)
		}
		g.extent(x.recv)
	case *Struct:
		for _, e := range x.f {
			g.extent(e)
		}
	case *Array:
		for _, e := range x.e {
			g.extent(e)
		}
	case *Tuple:
		for _, e := range x.v {
			g.extent(e)
		}
	case *ModelV:
		for _, e := range x.f {
			g.extent(e)
		}
	case *MapV:
		for i := range x.keys {
			g.extent(x.keys[i])
			g.extent(x.vals[i])
		}
	}
}

func (g *forget) object(id ObjID) {
	o := *g.st.heap[id]
	if a, ok := o.val.(*Array); ok && id > g.c.next && g.used[id] < len(a.e) {
		o.val = &Array{a.e[:g.used[id]]}
	}
	fmt.Fprintf(&g.key, "%v:", o.stale)
	o.val = g.value(o.val)
	g.st.heap[id] = &o
}

func (g *forget) values(vs []Value) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = g.value(v)
		g.key.WriteByte(',')
	}
	return out
}

func (g *forget) value(v Value) Value {
	switch x := v.(type) {
	case nil:
		g.key.WriteString("nil")
		return nil
	case *Term:
		return g.term(x)
	case *Str:
		return &Str{g.rope(x.r)}
	case *ByteArr:
		return &ByteArr{g.bytes(x.r)}
	case *BufV:
		return &BufV{g.rope(x.r)}
	case *HashV:
		g.key.WriteString(x.alg)
		return &HashV{x.alg, g.rope(x.r)}
	case *Slice:
		n := *x
		g.key.WriteString("[")
		g.ref(x.obj)
		fmt.Fprintf(&g.key, "%v %v ", x.path, x.capUnk)
		n.off, n.len = g.term(x.off), g.term(x.len)
		if x.capUnk {
			n.cap = n.len
		} else {
			g.key.WriteByte(' ')
			n.cap = g.term(x.cap)
		}
		g.key.WriteString("]")
		return &n
	case *Ptr:
		n := *x
		g.key.WriteString("*")
		g.ref(x.obj)
		fmt.Fprint(&g.key, x.path)
		if x.idx != nil {
			n.idx = g.term(x.idx)
		}
		return &n
	case *Iface:
		if x.typ == nil {
			g.key.WriteString("nil")
			return x
		}
		g.key.WriteString(x.typ.String() + " ")
		return &Iface{x.typ, g.value(x.v)}
	case *Closure:
		fmt.Fprintf(&g.key, "%v(", x.fn)
		n := *x
		n.bind = g.values(x.bind)
		n.recv = g.value(x.recv)
		g.key.WriteByte(')')
		return &n
	case *Struct:
		g.key.WriteByte('{')
		n := &Struct{g.values(x.f)}
		g.key.WriteByte('}')
		return n
	case *Array:
		g.key.WriteByte('<')
		n := &Array{g.values(x.e)}
		g.key.WriteByte('>')
		return n
	case *Tuple:
		return &Tuple{g.values(x.v)}
	case *MapRef:
		g.ref(x.obj)
		return x
	case *MapV:
		return &MapV{g.values(x.keys), g.values(x.vals)}
	case *Big:
		g.key.WriteString("big")
		neg, mag := g.term(x.neg), g.term(x.mag)
		if neg != x.neg || mag != x.mag {
			panic(unsupported{"an integer of any size that changes in a loop that reads input"})
		}
		return x
	case *TimeV:
		return &TimeV{g.term(x.sec), g.term(x.nsec)}
	case *ModelV:
		n := &ModelV{x.kind, map[string]Value{}}
		ks := map[string]bool{}
		for k := range x.f {
			ks[k] = true
		}
		g.key.WriteString(x.kind + "{")
		for _, k := range sortedKeys(ks) {
			g.key.WriteString(k + ":")
			n.f[k] = g.value(x.f[k])
			g.key.WriteByte(',')
		}
		g.key.WriteByte('}')
		return n
	case *SymList:
		n := *x
		fmt.Fprintf(&g.key, "list %s %v ", x.name, x.low)
		if !g.isOld(x.n) || x.key != nil && !g.isOld(x.key) || strings.Contains(x.name, "@") {
			panic(unsupported{"a list that changes in a loop that reads input"})
		}
		fmt.Fprintf(&g.key, "%d", x.n.id)
		if x.key != nil {
			fmt.Fprintf(&g.key, " %d", x.key.id)
		}
		return &n
	case string, int, bool:
		fmt.Fprintf(&g.key, "%q", fmt.Sprint(x))
		return v
	case *WordListV, WordListV:
		g.key.WriteString("words")
		return v
	case *WordMapV, WordMapV:
		g.key.WriteString("wordmap")
		return v
	}
	panic(unsupported{fmt.Sprintf("%T in a loop that reads input", v)})
}
