package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type ObjID int

type Str struct{ r Rope }
type Slice struct {
	obj           ObjID // 0: nil slice
	path          []int
	off, len, cap *Term
	capUnk        bool // capacity at least len, otherwise unspecified
}
type Ptr struct {
	obj  ObjID
	path []int
	idx  *Term // element of a byte array (after path)
}
type Iface struct {
	typ types.Type // nil: nil interface
	v   Value
}
type Closure struct {
	fn   *ssa.Function
	bind []Value
	recv Value // bound method receiver
}
type Struct struct{ f []Value }
type Array struct{ e []Value }
type ByteArr struct{ r Rope }
type Tuple struct{ v []Value }
type MapRef struct{ obj ObjID }
type MapV struct {
	keys []Value
	vals []Value
}
type Float struct { // only ever the seconds of a duration
	dur *Term
	c   float64
	isC bool
}

// abstract std types
type Big struct{ neg, mag *Term } // value = (-1)^neg * mag; neg implies mag != 0
type TimeV struct{ sec, nsec *Term }
type BufV struct{ r Rope } // bytes.Buffer, strings.Builder: unread contents
type HashV struct {        // hash.Hash
	alg string
	r   Rope
}
type ModelV struct { // any other modelled object
	kind string
	f    map[string]Value
}
type SymList struct { // slice backing array with lazily created elements
	name string
	elem types.Type
	n    *Term
	key  *Term // what the elements are a function of, if not of the name alone
	low  bool  // in lower case
}
type WordListV struct{}
type WordMapV struct{}

const bigW = 512

type Obj struct {
	val   Value
	stale bool // its spare capacity may have been shared with another object that diverged
	alloc int  // allocation serial, for freshness
	what  string
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return typeName(types.Unalias(a))
	}
	return t.String()
}

func intWidth(b *types.Basic) (int, bool) { // width, signed
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func bigConst(v *big.Int) *Big {
	return &Big{neg: mkBool(v.Sign() < 0), mag: mkConst(new(big.Int).Abs(v), bigW)}
}

var nilSlice = &Slice{off: i64(0), len: i64(0), cap: i64(0)}

const unixZero = -62135596800

func zeroTime() *TimeV { return &TimeV{sec: i64(unixZero), nsec: i64(0)} }

func zeroVal(t types.Type) Value {
	switch typeName(t) {
	case "math/big.Int":
		return bigConst(big0)
	case "time.Time":
		return zeroTime()
	case "bytes.Buffer", "strings.Builder":
		return &BufV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return &Str{}
		case u.Info()&types.IsFloat != 0:
			return &Float{isC: true}
		case u.Info()&types.IsInteger != 0:
			w, _ := intWidth(u)
			return mkConst(big0, w)
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return &Ptr{}
		}
	case *types.Pointer:
		return &Ptr{}
	case *types.Slice:
		return nilSlice
	case *types.Interface:
		return &Iface{}
	case *types.Map:
		return &MapRef{}
	case *types.Chan:
		return &Ptr{}
	case *types.Signature:
		return &Closure{}
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteType(u.Elem()) {
			return &ByteArr{mkZeros(i64(u.Len()))}
		}
		if u.Len() > 100000 {
			panic(unsupported{"huge array"})
		}
		a := &Array{e: make([]Value, u.Len())}
		for i := range a.e {
			a.e[i] = zeroVal(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp.v = append(tp.v, zeroVal(u.At(i).Type()))
		}
		return tp
	}
	panic(unsupported{"zero value of " + t.String()})
}

// ---- frames and states ----

type Frame struct {
	fn      *ssa.Function
	regs    map[ssa.Value]Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	retTo   ssa.Value                  // register in the caller receiving the result
	onRet   func(st *State, res Value) // engine continuation instead of a register
	bind    []Value
	visits  map[*ssa.BasicBlock]int
	inDefer bool
	inline  func(st *State) *Frame // of a contract: run the body instead
	result  Value
	accel   map[*ssa.BasicBlock]bool // headers where acceleration already failed
	cut     map[*ssa.BasicBlock]*cutPoint
}

type deferred struct {
	fn   *Closure
	args []Value
	name string
	call *ssa.CallCommon
}

type State struct {
	ex      *Exec
	frames  []*Frame
	heap    map[ObjID]*Obj
	nextObj ObjID
	pc      []*Term
	known   map[int]*Term
	memo    map[int]*Term
	undo    []undoRec
	steps   int
	fresh   map[string]int
	events  []Event
	fs      *FSState
	snap    map[ObjID]*Obj // frame snapshot
	depth   int
	cutStop map[*ssa.BasicBlock]bool
	onStop  func(st *State, b *ssa.BasicBlock)
	dead    bool
	ghost   map[string]Value
	notes   []note
	none    []search // loops that found nothing
	found   []*Term  // indexes found by loops
	reads   int      // inputs read

	gs       []*Gor // goroutines that do not run now
	switches int    // channel operations and switches so far
}

// note is a ghost record made by a contract (zzv.Note).
type note struct {
	kind     string
	key, val Rope
}

type Event struct {
	kind string
	data Rope
}

type undoRec struct {
	id  ObjID
	old *Obj
}

func (st *State) clone() *State {
	n := *st
	n.frames = cloneFrames(st.frames)
	n.gs = make([]*Gor, len(st.gs))
	for i, g := range st.gs {
		n.gs[i] = &Gor{cloneFrames(g.frames)}
	}
	n.heap = make(map[ObjID]*Obj, len(st.heap)+16)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term{}, st.pc...)
	n.known = make(map[int]*Term, len(st.known)+4)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.memo = map[int]*Term{}
	n.fresh = make(map[string]int, len(st.fresh))
	for k, v := range st.fresh {
		n.fresh[k] = v
	}
	n.events = append([]Event{}, st.events...)
	if st.fs != nil {
		n.fs = st.fs.clone()
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.undo = nil
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) setObj(id ObjID, o *Obj) {
	st.undo = append(st.undo, undoRec{id, st.heap[id]})
	st.heap[id] = o
}
func (st *State) newObj(v Value, what string) ObjID {
	st.nextObj++
	id := st.nextObj
	st.setObj(id, &Obj{val: v, alloc: int(id), what: what})
	return id
}
func (st *State) obj(id ObjID) *Obj {
	o := st.heap[id]
	if o == nil {
		panic(unsupported{fmt.Sprintf("dangling object %d", id)})
	}
	return o
}

// name of a fresh symbolic variable, deterministic per path position
func (st *State) freshName(base string) string {
	st.fresh[base]++
	return fmt.Sprintf("%s@%d", base, st.fresh[base])
}

func getPath(v Value, path []int) Value {
	for _, p := range path {
		switch x := v.(type) {
		case *Struct:
			v = x.f[p]
		case *Array:
			if p >= len(x.e) {
				panic(unsupported{"array path out of range"})
			}
			v = x.e[p]
		case *SymList:
			panic(unsupported{"path into symbolic list"})
		default:
			panic(unsupported{fmt.Sprintf("path into %T", v)})
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *Struct:
		f := append([]Value{}, x.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return &Struct{f}
	case *Array:
		e := append([]Value{}, x.e...)
		e[path[0]] = setPath(e[path[0]], path[1:], nv)
		return &Array{e}
	}
	panic(unsupported{fmt.Sprintf("store path into %T", v)})
}

func (st *State) load(p *Ptr) Value {
	if p.obj == 0 {
		panic(unsupported{"load through nil"})
	}
	o := st.obj(p.obj)
	if o.stale {
		panic(unsupported{"read of a slice whose spare capacity was shared by append"})
	}
	if sl, ok := o.val.(*SymList); ok {
		return st.symElem(p.obj, sl, p)
	}
	v := getPath(o.val, p.path)
	if p.idx != nil {
		switch x := v.(type) {
		case *ByteArr:
			return x.r.at(st, p.idx)
		case *WordListV:
			return wordAt(p.idx)
		}
		panic(unsupported{fmt.Sprintf("indexed load from %T", v)})
	}
	return v
}

func (st *State) store(p *Ptr, nv Value) {
	if p.obj == 0 {
		panic(unsupported{"store through nil"})
	}
	o := st.obj(p.obj)
	if _, ok := o.val.(*SymList); ok {
		panic(unsupported{"store into symbolic list"})
	}
	if p.idx != nil {
		v := getPath(o.val, p.path)
		ba, ok := v.(*ByteArr)
		if !ok {
			panic(unsupported{"indexed store"})
		}
		nv = &ByteArr{ba.r.write(st, p.idx, ropeBV(nv.(*Term)))}
	}
	no := *o
	no.val = setPath(o.val, p.path, nv)
	st.setObj(p.obj, &no)
}

func (st *State) bytesOf(s *Slice) Rope {
	if s.obj == 0 {
		return Rope{}
	}
	o := st.obj(s.obj)
	if o.stale {
		panic(unsupported{"read of a slice whose spare capacity was shared by append"})
	}
	ba, ok := getPath(o.val, s.path).(*ByteArr)
	if !ok {
		panic(unsupported{fmt.Sprintf("bytes of %T", getPath(o.val, s.path))})
	}
	return ba.r.slice(st, s.off, s.len)
}

func (st *State) newBytes(r Rope) *Slice {
	l := r.length()
	id := st.newObj(&ByteArr{r}, "bytes")
	return &Slice{obj: id, off: i64(0), len: l, cap: l}
}

// elements of a non-byte slice with concrete length
func (st *State) elems(s *Slice) []Value {
	if s.obj == 0 {
		return nil
	}
	n := int(st.concrete(s.len).Int64())
	off := st.concrete(s.off)
	var out []Value
	for i := 0; i < n; i++ {
		out = append(out, st.load(st.elemPtr(s, i64(off.Int64()+int64(i)))))
	}
	return out
}

// elemPtr addresses element at absolute index idx of the backing array.
func (st *State) elemPtr(s *Slice, abs *Term) *Ptr {
	o := st.obj(s.obj)
	v := getPath(o.val, s.path)
	switch v.(type) {
	case *ByteArr, *WordListV:
		return &Ptr{obj: s.obj, path: s.path, idx: abs}
	case *SymList:
		return &Ptr{obj: s.obj, idx: abs}
	}
	i := st.concrete(abs)
	return &Ptr{obj: s.obj, path: append(append([]int{}, s.path...), int(i.Int64()))}
}

func (st *State) newSlice(es []Value) *Slice {
	id := st.newObj(&Array{append([]Value{}, es...)}, "slice")
	n := i64(int64(len(es)))
	return &Slice{obj: id, off: i64(0), len: n, cap: n}
}

func (st *State) symElem(id ObjID, sl *SymList, p *Ptr) Value {
	idx := p.idx
	if idx == nil {
		idx = i64(int64(p.path[0]))
	}
	key := ""
	if idx.isConst() {
		key = idx.val.String()
	} else {
		key = fmt.Sprintf("t%d", idx.id)
	}
	if b, ok := sl.elem.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		a := mkUF("elem:"+sl.name, SBytes, idx)
		if sl.key != nil {
			a = mkUF("elem:"+sl.name, SBytes, sl.key, idx)
		}
		if idx.isConst() {
			// what loops found of all elements holds of this one
			for _, n := range st.none {
				if i := n.not(idx); occurs(a, i) {
					if i = st.simp(i); i != tTrue {
						st.assume(i)
					}
				}
			}
		}
		if sl.low {
			return &Str{st.lower(ropeAtom(a))}
		}
		return &Str{ropeAtom(a)}
	}
	if b, ok := sl.elem.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		w, _ := intWidth(b)
		return mkUF("elem:"+sl.name, w, idx)
	}
	panic(unsupported{"symbolic list of " + sl.elem.String() + " " + key})
}

func (st *State) getBig(v Value) *Big {
	p := v.(*Ptr)
	if p.obj == 0 {
		panic(goPanic{"nil *big.Int"})
	}
	b, ok := st.load(p).(*Big)
	if !ok {
		panic(unsupported{"big.Int load"})
	}
	return b
}

func describe(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Str:
		return "str(" + x.r.String() + ")"
	case *Slice:
		if x.obj == 0 {
			return "nil-slice"
		}
		return fmt.Sprintf("slice(obj%d off=%s len=%s)", x.obj, x.off, x.len)
	case *Ptr:
		return fmt.Sprintf("ptr(%d%v)", x.obj, x.path)
	case *Iface:
		if x.typ == nil {
			return "nil-iface"
		}
		return "iface(" + x.typ.String() + " " + describe(x.v) + ")"
	case *Struct:
		var p []string
		for _, f := range x.f {
			p = append(p, describe(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *Tuple:
		var p []string
		for _, f := range x.v {
			p = append(p, describe(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *Big:
		return fmt.Sprintf("big(neg=%s %s)", x.neg, x.mag)
	}
	return fmt.Sprintf("%T", v)
}

type goPanic struct{ msg string }
type forkReq struct{ cond *Term }
