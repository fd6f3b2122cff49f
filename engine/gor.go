package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines. One runs until it blocks or ends; then the first of the others that can go on
// runs. A select sees everything the others can offer before they block, and every choice
// it has is explored. So what a path does is decided for every schedule as long as the
// goroutines share nothing but channels (and what they print).

type Gor struct{ frames []*Frame }

type ChanV struct {
	cap    int64
	elem   types.Type
	q      []Value
	closed bool
}

// chanOp is one operation a goroutine waits for.
type chanOp struct {
	ch   ObjID
	send bool
	val  Value
	idx  int
}

func cloneFrames(fs []*Frame) []*Frame {
	out := make([]*Frame, len(fs))
	for i, f := range fs {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs)+8)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		out[i] = &g
	}
	return out
}

func (st *State) in(frames []*Frame, do func()) {
	old := st.frames
	st.frames = frames
	defer func() { st.frames = old }()
	do()
}

func (st *State) chanOf(id ObjID) *ChanV {
	c, ok := st.obj(id).val.(*ChanV)
	if !ok {
		panic(unsupported{"operation on a modelled channel"})
	}
	return c
}

func (st *State) setChan(id ObjID, c *ChanV) {
	o := *st.obj(id)
	o.val = c
	st.setObj(id, &o)
}

func (st *State) makeChan(x *ssa.MakeChan) Value {
	n := st.concrete(toInt64(st, x.Size))
	if n == nil {
		panic(unsupported{"channel size"})
	}
	return &Ptr{obj: st.newObj(&ChanV{cap: n.Int64(), elem: x.Type().Underlying().(*types.Chan).Elem()}, "chan")}
}

// waits lists the operations the goroutine is about to do; nil if its next step is no
// channel operation.
func (st *State) waits(frames []*Frame) (ops []chanOp, is bool) {
	st.in(frames, func() {
		f := st.top()
		ch := func(v ssa.Value) ObjID { return st.get(v).(*Ptr).obj }
		switch x := f.block.Instrs[f.pc].(type) {
		case *ssa.Send:
			ops, is = []chanOp{{ch: ch(x.Chan), send: true, val: st.get(x.X)}}, true
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ops, is = []chanOp{{ch: ch(x.X)}}, true
			}
		case *ssa.Select:
			is = true
			for i, s := range x.States {
				o := chanOp{ch: ch(s.Chan), idx: i}
				if s.Dir == types.SendOnly {
					o.send, o.val = true, st.get(s.Send)
				}
				ops = append(ops, o)
			}
		}
	})
	return
}

// partner finds a goroutine waiting to do the opposite.
func (st *State) partner(o chanOp) (*Gor, chanOp, bool) {
	for _, g := range st.gs {
		ops, _ := st.waits(g.frames)
		for _, p := range ops {
			if p.ch == o.ch && p.send != o.send {
				return g, p, true
			}
		}
	}
	return nil, chanOp{}, false
}

func (st *State) ready(ops []chanOp) []chanOp {
	var out []chanOp
	for _, o := range ops {
		if o.ch == 0 {
			continue
		}
		c := st.chanOf(o.ch)
		_, _, met := st.partner(o)
		switch {
		case o.send && (c.closed || int64(len(c.q)) < c.cap || met),
			!o.send && (c.closed || len(c.q) > 0 || met):
			out = append(out, o)
		}
	}
	return out
}

// done completes the operation a goroutine waited for.
func (st *State) done(frames []*Frame, o chanOp, v Value, ok bool) {
	st.in(frames, func() {
		f := st.top()
		switch x := f.block.Instrs[f.pc].(type) {
		case *ssa.UnOp:
			if x.CommaOk {
				v = &Tuple{v: []Value{v, mkBool(ok)}}
			}
			f.regs[x] = v
		case *ssa.Select:
			t := &Tuple{v: []Value{i64(int64(o.idx)), mkBool(ok)}}
			for i, s := range x.States {
				if s.Dir == types.RecvOnly {
					if i == o.idx {
						t.v = append(t.v, v)
					} else {
						t.v = append(t.v, zeroVal(s.Chan.Type().Underlying().(*types.Chan).Elem()))
					}
				}
			}
			f.regs[x] = t
		}
		f.pc++
	})
}

// chanStep executes a channel operation of the running goroutine.
func (ex *Exec) chanStep(st *State) {
	if ex.iter > 0 {
		panic(unsupported{"channel operation in a summarised loop"})
	}
	ops, _ := st.waits(st.frames)
	can := st.ready(ops)
	if len(can) == 0 {
		f := st.top()
		if s, ok := f.block.Instrs[f.pc].(*ssa.Select); ok && !s.Blocking {
			if len(st.gs) > 0 {
				panic(unsupported{"select with default among goroutines"})
			}
			st.done(st.frames, chanOp{idx: -1}, nil, false)
			return
		}
		me := &Gor{frames: st.frames}
		st.gs = append(append([]*Gor{}, st.gs...), me)
		ex.schedule(st)
		return
	}
	o := can[len(can)-1]
	for i := 0; i < len(can)-1; i++ {
		if st.decide(mkVar(fmt.Sprintf("select@%d.%d", st.switches, i), SBool)) {
			o = can[i]
			break
		}
	}
	c := st.chanOf(o.ch)
	if o.send && c.closed {
		panic(goPanic{"send on closed channel in " + st.top().fn.String()})
	}
	st.switches++
	n := *c
	if o.send {
		if g, p, met := st.partner(o); met && len(c.q) == 0 {
			st.done(g.frames, p, o.val, true)
		} else {
			n.q = append(append([]Value{}, c.q...), o.val)
			st.setChan(o.ch, &n)
		}
		st.done(st.frames, o, nil, false)
		return
	}
	var v Value
	ok := true
	g, p, met := st.partner(o)
	switch {
	case len(c.q) > 0:
		v = c.q[0]
		n.q = append([]Value{}, c.q[1:]...)
		if met {
			n.q = append(n.q, p.val)
			st.done(g.frames, p, nil, false)
		}
		st.setChan(o.ch, &n)
	case met && !c.closed:
		v = p.val
		st.done(g.frames, p, nil, false)
	default:
		v, ok = zeroVal(c.elem), false
	}
	st.done(st.frames, o, v, ok)
}

// schedule runs the next goroutine that can go on.
func (ex *Exec) schedule(st *State) {
	for i, g := range st.gs {
		ops, is := st.waits(g.frames)
		rest := append(append([]*Gor{}, st.gs[:i]...), st.gs[i+1:]...)
		if is {
			all := st.gs
			st.gs = rest
			can := st.ready(ops)
			st.gs = all
			if len(can) == 0 {
				continue
			}
		}
		st.frames, st.gs = g.frames, rest
		st.switches++
		return
	}
	if len(st.frames) == 0 {
		st.frames = st.gs[len(st.gs)-1].frames
	}
	st.require("no-panic", "every goroutine waits for ever", tFalse)
	st.dead = true
}

func (ex *Exec) goStmt(st *State, x *ssa.Go) {
	if ex.iter > 0 {
		panic(unsupported{"go statement in a summarised loop"})
	}
	cc := x.Common()
	if cc.IsInvoke() {
		panic(unsupported{"go statement with a method of an interface"})
	}
	cl, ok := st.get(cc.Value).(*Closure)
	if !ok || cl.fn == nil || !ex.isRepoFn(cl.fn) {
		panic(unsupported{"go statement with a function of another module"})
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, st.get(a))
	}
	g := &Gor{}
	st.in(nil, func() {
		f := ex.pushFrame(st, cl.fn, args, cl.bind, nil)
		f.onRet = func(st *State, _ Value) { ex.schedule(st) }
		g.frames = st.frames
	})
	if !ex.isOverlay(cl.fn) {
		ex.called[fnKey(cl.fn)] = true
	}
	st.gs = append(append([]*Gor{}, st.gs...), g)
	st.top().pc++
}
