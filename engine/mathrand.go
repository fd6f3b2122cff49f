package main

import (
	"fmt"
	"math/big"
)

// math/rand: draws are uninterpreted functions of the generator's seed, the position in
// its stream and the bound; Shuffle and Perm run their real bodies over them.
func init() {
	m := models
	src := func(ex *Exec, st *State, seed *Term) *Ptr {
		return &Ptr{obj: st.newObj(&ModelV{kind: "mrsrc", f: map[string]Value{"seed": seed, "pos": 0}}, "rand source")}
	}
	newRand := func(ex *Exec, st *State, a []Value) Value {
		i := a[0].(*Iface)
		p, ok := i.v.(*Ptr)
		if !ok {
			panic(unsupported{"rand source"})
		}
		if o, ok := st.load(p).(*ModelV); !ok || o.kind != "mrsrc" {
			panic(unsupported{"rand source"})
		}
		return &Ptr{obj: st.newObj(&ModelV{kind: "mrand", f: map[string]Value{"src": p}}, "rand")}
	}
	m["math/rand.NewSource"] = func(ex *Exec, st *State, a []Value) Value {
		return &Iface{typ: ex.modelType("mrsrc"), v: src(ex, st, a[0].(*Term))}
	}
	m["math/rand.New"], m["math/rand/v2.New"] = newRand, newRand
	m["math/rand/v2.NewPCG"] = func(ex *Exec, st *State, a []Value) Value { return src(ex, st, mkConcat(a[0].(*Term), a[1].(*Term))) }
	m["math/rand/v2.NewChaCha8"] = func(ex *Exec, st *State, a []Value) Value {
		return src(ex, st, st.ropeFixed(a[0].(*ByteArr).r, 32))
	}
	global := func(ex *Exec, st *State, a []Value) Value {
		s := src(ex, st, mkVar(st.freshName("globalrand"), 64))
		return &Ptr{obj: st.newObj(&ModelV{kind: "mrand", f: map[string]Value{"src": s}}, "rand")}
	}
	m["math/rand.globalRand"] = global
	draw := func(kind string, w int, bounded bool) modelFn {
		return func(ex *Exec, st *State, a []Value) Value {
			r, ok := st.load(a[0].(*Ptr)).(*ModelV)
			if !ok || r.kind != "mrand" {
				panic(unsupported{"math/rand state"})
			}
			sp := r.f["src"].(*Ptr)
			s := st.load(sp).(*ModelV)
			pos := s.f["pos"].(int)
			st.store(sp, &ModelV{kind: "mrsrc", f: map[string]Value{"seed": s.f["seed"], "pos": pos + 1}})
			seed := s.f["seed"].(*Term)
			if !bounded {
				return mkUF(fmt.Sprintf("mathrand:%s:%d", kind, seed.w), w, seed, mkInt(int64(pos), 32))
			}
			n := st.concrete(a[1].(*Term))
			if toSigned(mkConst(n, w)).Sign() <= 0 {
				panic(goPanic{"invalid argument to " + kind})
			}
			t := mkUF(fmt.Sprintf("mathrand:%s:%d:%s", kind, seed.w, n), w, seed, mkInt(int64(pos), 32))
			setBound(t, big0, new(big.Int).Sub(n, big1))
			if n.Cmp(big.NewInt(64)) <= 0 {
				return mkConst(st.concrete(t), w)
			}
			return t
		}
	}
	for k, w := range map[string]int{"Int63n": 64, "Int31n": 32, "int31n": 32, "Intn": 64} {
		m["(*math/rand.Rand)."+k] = draw(k, w, true)
	}
	for k, w := range map[string]int{"Int64N": 64, "Uint64N": 64, "uint64n": 64, "uint32n": 32, "Int32N": 32, "Uint32N": 32, "IntN": 64, "UintN": 64} {
		m["(*math/rand/v2.Rand)."+k] = draw("v2"+k, w, true)
	}
	for k, w := range map[string]int{"Uint32": 32, "Uint64": 64} {
		m["(*math/rand.Rand)."+k] = draw(k, w, false)
		m["(*math/rand/v2.Rand)."+k] = draw(k, w, false)
	}
}
