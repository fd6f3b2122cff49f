package main

import "sort"

// Cone of influence. A query "path condition and c" is first asked about the part of the
// path condition that shares a variable or an application of an uninterpreted function with
// c. Unsat of a part is unsat of the whole; sat of a part only makes the verifier look at
// a path that may be infeasible, or ask again with the whole path condition.

type coneInfo struct {
	atoms []int   // variables and function applications, not looking inside the latter
	facts []*Term // facts of the terms passed on the way
}

var coneMemo = map[int]*coneInfo{}

func coneOf(t *Term) *coneInfo {
	if c, ok := coneMemo[t.id]; ok {
		return c
	}
	c := &coneInfo{}
	seen := map[int]bool{}
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x.id] {
			continue
		}
		seen[x.id] = true
		c.facts = append(c.facts, termFacts[x.id]...)
		if x.op == OpVar || x.op == OpUF {
			c.atoms = append(c.atoms, x.id)
			continue
		}
		st = append(st, x.args...)
	}
	coneMemo[t.id] = c
	return c
}

func cone(pc []*Term, c *Term) []*Term {
	atoms := map[int]bool{}
	var out []*Term
	in := map[int]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if in[t.id] {
			return
		}
		in[t.id] = true
		out = append(out, t)
		i := coneOf(t)
		for _, a := range i.atoms {
			atoms[a] = true
		}
		for _, f := range i.facts {
			add(f)
		}
	}
	add(c)
	for changed := true; changed; {
		changed = false
		for _, p := range pc {
			if in[p.id] {
				continue
			}
			for _, a := range coneOf(p).atoms {
				if atoms[a] {
					add(p)
					changed = true
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
