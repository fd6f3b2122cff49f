package main

// Hash-consed terms over Bool, bit-vectors of any width and one uninterpreted
// sort B (byte strings), with a normalising simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt // a < b unsigned
	OpSlt // a < b signed
	OpLin // sum coef*arg + val (mod 2^w)
	OpMul
	OpBAnd
	OpBOr
	OpBXor
	OpConcat // args[0] most significant
	OpExtract
	OpSext
	OpShl
	OpLshr
	OpAshr
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
)

const (
	SBool  = 0
	SBytes = -1
)

type Term struct {
	id    int
	op    Op
	w     int // 0 Bool, -1 Bytes, else BV width
	args  []*Term
	coefs []*big.Int
	val   *big.Int
	name  string
	hi    int
	lo    int
	// cached unsigned bounds
	blo, bhi *big.Int
	vars     map[int]bool // ids of free vars/UF apps (lazy)
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	// facts attached to terms: instantiated axioms that hold whenever the term occurs
	termFacts = map[int][]*Term{}
	// extra bounds for opaque terms
	extraBound = map[int][2]*big.Int{}
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }
func maskOf(w int) *big.Int {
	m := pow2(w)
	return m.Sub(m, big1)
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteString(strconv.Itoa(t.w))
	if t.name != "" {
		sb.WriteByte('$')
		sb.WriteString(t.name)
	}
	if t.op == OpExtract {
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(t.hi))
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(t.lo))
	}
	if t.val != nil {
		sb.WriteByte('#')
		sb.WriteString(t.val.Text(62))
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].Text(62))
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	t.id = len(termList)
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

var tTrue = intern(&Term{op: OpConst, w: SBool, val: big.NewInt(1)})
var tFalse = intern(&Term{op: OpConst, w: SBool, val: big.NewInt(0)})

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkConst(v *big.Int, w int) *Term {
	if w <= 0 {
		panic("mkConst width")
	}
	x := new(big.Int).And(v, maskOf(w))
	if v.Sign() < 0 {
		x = new(big.Int).Mod(v, pow2(w))
	}
	return intern(&Term{op: OpConst, w: w, val: x})
}
func mkInt(v int64, w int) *Term { return mkConst(big.NewInt(v), w) }
func i64(v int64) *Term          { return mkInt(v, 64) }
func mkVar(name string, w int) *Term {
	return intern(&Term{op: OpVar, w: w, name: name})
}
func mkUF(name string, w int, args ...*Term) *Term {
	return intern(&Term{op: OpUF, w: w, name: name, args: args})
}
func addFact(t *Term, f *Term) {
	if f == tTrue {
		return
	}
	for _, g := range termFacts[t.id] {
		if g == f {
			return
		}
	}
	termFacts[t.id] = append(termFacts[t.id], f)
	if len(coneMemo) > 0 {
		coneMemo = map[int]*coneInfo{}
	}
}
func setBound(t *Term, lo, hi *big.Int) {
	if t.isConst() {
		return
	}
	if _, ok := extraBound[t.id]; ok {
		return
	}
	extraBound[t.id] = [2]*big.Int{lo, hi}
	t.blo, t.bhi = nil, nil
	if lo.Sign() > 0 {
		addFact(t, mkNot(rawUlt(t, mkConst(lo, t.w))))
	}
	if hi.Cmp(maskOf(t.w)) < 0 {
		addFact(t, mkNot(rawUlt(mkConst(hi, t.w), t)))
	}
}
func rawUlt(a, b *Term) *Term { return intern(&Term{op: OpUlt, w: SBool, args: []*Term{a, b}}) }

// ---------- Bool ----------

func mkNot(a *Term) *Term {
	switch a.op {
	case OpConst:
		return mkBool(a == tFalse)
	case OpNot:
		return a.args[0]
	}
	return intern(&Term{op: OpNot, w: SBool, args: []*Term{a}})
}

func mkAndOr(op Op, xs []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OpOr {
		unit, zero = tFalse, tTrue
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[mkNot(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if x.w != SBool {
			panic("and/or of non-bool")
		}
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: op, w: SBool, args: out})
}
func mkAnd(xs ...*Term) *Term    { return mkAndOr(OpAnd, xs) }
func mkOr(xs ...*Term) *Term     { return mkAndOr(OpOr, xs) }
func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite sorts %d %d", a.w, b.w))
	}
	if c.op == OpNot {
		return mkIte(c.args[0], b, a)
	}
	if a.w == SBool {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	if a.op == OpIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == c {
		b = b.args[2]
	}
	return intern(&Term{op: OpIte, w: a.w, args: []*Term{c, a, b}})
}

// ---------- equality ----------

func cutsOf(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

// alignCuts splits two equal-width terms into pieces at the union of their cuts (msb first).
func alignCuts(a, b *Term) (pa, pb []*Term) {
	cs := map[int]bool{}
	for _, t := range []*Term{a, b} {
		pos := t.w
		for _, p := range cutsOf(t) {
			pos -= p.w
			cs[pos] = true
		}
	}
	var ps []int
	for p := range cs {
		ps = append(ps, p)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ps)))
	hi := a.w - 1
	for _, p := range ps {
		pa = append(pa, mkExtract(hi, p, a))
		pb = append(pb, mkExtract(hi, p, b))
		hi = p - 1
	}
	return
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq sorts %d %d: %s = %s", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return tFalse // interned, different
	}
	if b.op == OpUF && b.name == "bitlen" && a.isConst() {
		a, b = b, a
	}
	if a.op == OpUF && a.name == "bitlen" && b.isConst() { // 2^(k-1) <= x < 2^k
		x := a.args[0]
		if !b.val.IsInt64() || b.val.Int64() > int64(x.w) {
			return tFalse
		}
		k := int(b.val.Int64())
		if k == 0 {
			return mkEq(x, mkConst(big0, x.w))
		}
		top := mkEq(mkExtract(k-1, k-1, x), mkConst(big1, 1))
		if k == x.w {
			return top
		}
		return mkAnd(top, mkEq(mkExtract(x.w-1, k, x), mkConst(big0, x.w-k)))
	}
	if a.w == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return mkNot(a)
		}
		if mkNot(a) == b {
			return tFalse
		}
	} else if a.w == SBytes {
		if a.op == OpUF && b.op == OpUF {
			if strings.HasPrefix(a.name, "bytes_") && strings.HasPrefix(b.name, "bytes_") {
				if a.name != b.name {
					return tFalse
				}
				return mkEq(a.args[0], b.args[0])
			}
			if a.name == "word" && b.name == "word" { // the list has no duplicates
				return mkEq(a.args[0], b.args[0])
			}
			if b.name == "word" {
				a, b = b, a
			}
			if a.name == "word" && strings.HasPrefix(b.name, "bytes_") && b.args[0].isConst() {
				c, _ := ropeBV(b.args[0]).constStr()
				if i, ok := theWordIdx[c]; ok {
					return mkEq(a.args[0], mkInt(int64(i), 12))
				}
				return tFalse
			}
			if a.name == "word" && b.name == "empty" {
				return tFalse
			}
		}
	} else {
		if a.isConst() {
			a, b = b, a
		}
		if a.op == OpConcat || b.op == OpConcat {
			pa, pb := alignCuts(a, b)
			if len(pa) > 1 {
				cs := make([]*Term, 0, len(pa))
				for i := range pa {
					e := mkEq(pa[i], pb[i])
					if e == tFalse {
						return tFalse
					}
					cs = append(cs, e)
				}
				return mkAnd(cs...)
			}
		}
		if b.isConst() && a.op == OpIte {
			if a.args[1].isConst() || a.args[2].isConst() {
				return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
			}
		}
		if a.op == OpLin || b.op == OpLin {
			d := mkSub(a, b)
			if d.isConst() {
				return mkBool(d.val.Sign() == 0)
			}
			// single term with odd coefficient: x = const
			if d.op == OpLin {
				if lo, hi, ok := sLinBounds(d); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
					return tFalse
				}
				if len(d.args) == 1 && d.coefs[0].Bit(0) == 1 {
					inv := new(big.Int).ModInverse(d.coefs[0], pow2(a.w))
					v := new(big.Int).Neg(d.val)
					v.Mul(v, inv)
					na, nb := d.args[0], mkConst(v, a.w)
					if na.op != OpLin {
						if na != a || nb != b {
							return mkEq(na, nb)
						}
					}
				} else {
					// canonical: d = 0 , normalise sign by first coef
					if isNegCoef(d.coefs[0], d.w) {
						d = mkNeg(d)
					}
					z := mkConst(big0, d.w)
					lhs := d
					if lhs.op == OpLin && lhs.val.Sign() != 0 {
						// move constant right
						c := mkConst(new(big.Int).Neg(lhs.val), d.w)
						lhs = mkSub(lhs, mkConst(lhs.val, d.w))
						return intern(&Term{op: OpEq, w: SBool, args: []*Term{lhs, c}})
					}
					return intern(&Term{op: OpEq, w: SBool, args: []*Term{lhs, z}})
				}
			}
		}
		lo1, hi1 := ubounds(a)
		lo2, hi2 := ubounds(b)
		if lo1.Cmp(hi2) > 0 || lo2.Cmp(hi1) > 0 {
			return tFalse
		}
		if b.isConst() && a.op == OpBXor {
			if a.args[0].isConst() {
				return mkEq(a.args[1], mkConst(new(big.Int).Xor(a.args[0].val, b.val), a.w))
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OpEq, w: SBool, args: []*Term{a, b}})
}

func isNegCoef(c *big.Int, w int) bool { return c.Bit(w-1) == 1 }

// ---------- bounds ----------

func ubounds(t *Term) (*big.Int, *big.Int) {
	if t.blo != nil {
		return t.blo, t.bhi
	}
	lo, hi := big0, maskOf(t.w)
	switch t.op {
	case OpConst:
		lo, hi = t.val, t.val
	case OpConcat:
		l, h := new(big.Int), new(big.Int)
		for _, p := range t.args {
			pl, ph := ubounds(p)
			l.Lsh(l, uint(p.w)).Or(l, pl)
			h.Lsh(h, uint(p.w)).Or(h, ph)
		}
		lo, hi = l, h
	case OpIte:
		l1, h1 := ubounds(t.args[1])
		l2, h2 := ubounds(t.args[2])
		lo, hi = minB(l1, l2), maxB(h1, h2)
	case OpLin:
		l, h := new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			al, ah := ubounds(a)
			c := t.coefs[i]
			if isNegCoef(c, t.w) {
				c = new(big.Int).Sub(c, pow2(t.w))
				l.Add(l, new(big.Int).Mul(c, ah))
				h.Add(h, new(big.Int).Mul(c, al))
			} else {
				l.Add(l, new(big.Int).Mul(c, al))
				h.Add(h, new(big.Int).Mul(c, ah))
			}
		}
		if l.Sign() >= 0 && h.Cmp(hi) <= 0 {
			lo, hi = l, h
		} else {
			// shift by 2^w if the constant is "negative"
			m := pow2(t.w)
			l2, h2 := new(big.Int).Sub(l, m), new(big.Int).Sub(h, m)
			if l2.Sign() >= 0 && h2.Cmp(hi) <= 0 {
				lo, hi = l2, h2
			}
		}
	case OpMul:
		l, h := big.NewInt(1), big.NewInt(1)
		for _, a := range t.args {
			al, ah := ubounds(a)
			l = new(big.Int).Mul(l, al)
			h = new(big.Int).Mul(h, ah)
		}
		if h.Cmp(hi) <= 0 {
			lo, hi = l, h
		}
	case OpBAnd:
		for _, a := range t.args {
			_, ah := ubounds(a)
			hi = minB(hi, ah)
		}
	case OpBOr, OpBXor:
		mx := 0
		for _, a := range t.args {
			_, ah := ubounds(a)
			if ah.BitLen() > mx {
				mx = ah.BitLen()
			}
		}
		hi = maskOf(mx)
	case OpLshr:
		_, ah := ubounds(t.args[0])
		bl, _ := ubounds(t.args[1])
		if bl.IsInt64() && bl.Int64() < 1<<20 {
			hi = new(big.Int).Rsh(ah, uint(bl.Int64()))
		}
	case OpUDiv:
		_, ah := ubounds(t.args[0])
		bl, _ := ubounds(t.args[1])
		if bl.Sign() > 0 {
			hi = new(big.Int).Div(ah, bl)
		}
	case OpURem:
		_, bh := ubounds(t.args[1])
		_, ah := ubounds(t.args[0])
		bl, _ := ubounds(t.args[1])
		if bl.Sign() > 0 {
			hi = minB(ah, new(big.Int).Sub(bh, big1))
		}
	case OpExtract:
		al, ah := ubounds(t.args[0])
		if t.lo == 0 && ah.BitLen() <= t.hi+1 {
			lo, hi = al, ah
		} else if t.hi == t.args[0].w-1 {
			hi = new(big.Int).Rsh(ah, uint(t.lo))
			lo = new(big.Int).Rsh(al, uint(t.lo))
		}
	}
	if e, ok := extraBound[t.id]; ok {
		lo, hi = maxB(lo, e[0]), minB(hi, e[1])
	}
	if lo.Cmp(hi) > 0 {
		lo, hi = big0, maskOf(t.w)
	}
	t.blo, t.bhi = lo, hi
	return lo, hi
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

// sLinBounds gives exact integer bounds of the linear form, reading each atom by
// its signed interpretation; ok means the integer value stays inside the signed
// range so the machine value equals it.
func sLinBounds(t *Term) (*big.Int, *big.Int, bool) {
	lo, hi := sboundsRaw(t)
	half := pow2(t.w - 1)
	nhalf := new(big.Int).Neg(half)
	if lo.Cmp(nhalf) >= 0 && hi.Cmp(half) < 0 {
		return lo, hi, true
	}
	return nhalf, new(big.Int).Sub(half, big1), false
}

func sboundsRaw(t *Term) (*big.Int, *big.Int) {
	half := pow2(t.w - 1)
	toS := func(c *big.Int) *big.Int {
		if c.Cmp(half) >= 0 {
			return new(big.Int).Sub(c, pow2(t.w))
		}
		return c
	}
	if t.op == OpLin {
		l := new(big.Int).Set(toS(t.val))
		h := new(big.Int).Set(l)
		for i, a := range t.args {
			al, ah := sbounds(a)
			c := toS(t.coefs[i])
			x, y := new(big.Int).Mul(c, al), new(big.Int).Mul(c, ah)
			l.Add(l, minB(x, y))
			h.Add(h, maxB(x, y))
		}
		return l, h
	}
	return sbounds(t)
}

func sbounds(t *Term) (*big.Int, *big.Int) {
	half := pow2(t.w - 1)
	switch t.op {
	case OpLin:
		l, h, _ := sLinBounds(t)
		return l, h
	case OpSext:
		return sbounds(t.args[0])
	case OpIte:
		l1, h1 := sbounds(t.args[1])
		l2, h2 := sbounds(t.args[2])
		return minB(l1, l2), maxB(h1, h2)
	case OpSDiv:
		if c := t.args[1]; c.isConst() && c.val.Cmp(half) < 0 && c.val.Sign() > 0 {
			l, h := sbounds(t.args[0])
			return new(big.Int).Quo(l, c.val), new(big.Int).Quo(h, c.val)
		}
	case OpSRem:
		if c := t.args[1]; c.isConst() && c.val.Cmp(half) < 0 && c.val.Sign() > 0 {
			l, _ := sbounds(t.args[0])
			cm := new(big.Int).Sub(c.val, big1)
			if l.Sign() >= 0 {
				return big0, cm
			}
			return new(big.Int).Neg(cm), cm
		}
	}
	lo, hi := ubounds(t)
	if hi.Cmp(half) < 0 {
		return lo, hi
	}
	if lo.Cmp(half) >= 0 {
		m := pow2(t.w)
		return new(big.Int).Sub(lo, m), new(big.Int).Sub(hi, m)
	}
	return new(big.Int).Neg(half), new(big.Int).Sub(half, big1)
}

// ---------- comparisons ----------

func mkUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	la, ha := ubounds(a)
	lb, hb := ubounds(b)
	if ha.Cmp(lb) < 0 {
		return tTrue
	}
	if la.Cmp(hb) >= 0 {
		return tFalse
	}
	if r := bitlenCmp(a, b); r != nil {
		return r
	}
	// strip common leading zero bits
	n := ha.BitLen()
	if hb.BitLen() > n {
		n = hb.BitLen()
	}
	if n == 0 {
		return tFalse
	}
	if n < a.w && (a.op == OpConcat || a.isConst() || b.op == OpConcat || b.isConst()) && (a.op == OpConcat || b.op == OpConcat) {
		return mkUlt(mkExtract(n-1, 0, a), mkExtract(n-1, 0, b))
	}
	if b.isConst() && b.val.Cmp(big1) == 0 {
		return mkEq(a, mkConst(big0, a.w))
	}
	// x < 2^k  <=>  high bits zero
	if b.isConst() && isPow2(b.val) {
		k := b.val.BitLen() - 1
		return mkEq(mkExtract(a.w-1, k, a), mkConst(big0, a.w-k))
	}
	// 2^k-1 < x <=> high bits nonzero
	if a.isConst() {
		p := new(big.Int).Add(a.val, big1)
		if isPow2(p) {
			k := p.BitLen() - 1
			if k == 0 {
				return mkNot(mkEq(b, mkConst(big0, b.w)))
			}
			if k < b.w {
				return mkNot(mkEq(mkExtract(b.w-1, k, b), mkConst(big0, b.w-k)))
			}
		}
	}
	if r := iteCmp(mkUlt, a, b); r != nil {
		return r
	}
	return rawUlt(a, b)
}
func isPow2(v *big.Int) bool {
	return v.Sign() > 0 && new(big.Int).And(v, new(big.Int).Sub(v, big1)).Sign() == 0
}

// comparisons of a constant-leaf ite with a constant
func iteCmp(f func(a, b *Term) *Term, a, b *Term) *Term {
	if a.op == OpIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
		return mkIte(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OpIte && a.isConst() && b.args[1].isConst() && b.args[2].isConst() {
		return mkIte(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

// bitlen(x) compared with a constant
func bitlenCmp(a, b *Term) *Term {
	if b.isConst() && a.op == OpUF && a.name == "bitlen" { // bitlen(x) < k  <=> x < 2^(k-1)
		x := a.args[0]
		if !b.val.IsInt64() {
			return tTrue
		}
		k := int(b.val.Int64()) - 1
		if k < 0 {
			return tFalse
		}
		if k >= x.w {
			return tTrue
		}
		return mkEq(mkExtract(x.w-1, k, x), mkConst(big0, x.w-k))
	}
	if a.isConst() && b.op == OpUF && b.name == "bitlen" { // k < bitlen(x) <=> x >= 2^k
		x := b.args[0]
		if !a.val.IsInt64() {
			return tFalse
		}
		k := int(a.val.Int64())
		if k >= x.w {
			return tFalse
		}
		return mkNot(mkEq(mkExtract(x.w-1, k, x), mkConst(big0, x.w-k)))
	}
	if b.op == OpUF && b.name == "bitlen" && b.args[0].w >= 64 && !(a.op == OpUF && a.name == "bitlen") { // k < bitlen(x) <=> x>>k != 0
		x := b.args[0]
		return mkNot(mkEq(mkShift(OpLshr, x, a), mkConst(big0, x.w)))
	}
	return nil
}
func mkUle(a, b *Term) *Term { return mkNot(mkUlt(b, a)) }
func mkSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	la, ha := sbounds(a)
	lb, hb := sbounds(b)
	if ha.Cmp(lb) < 0 {
		return tTrue
	}
	if la.Cmp(hb) >= 0 {
		return tFalse
	}
	if a.op == OpLin || b.op == OpLin {
		// exact difference when nothing overflows
		rla, rha := sboundsRaw(a)
		rlb, rhb := sboundsRaw(b)
		half := pow2(a.w - 1)
		nh := new(big.Int).Neg(half)
		if rla.Cmp(nh) >= 0 && rha.Cmp(half) < 0 && rlb.Cmp(nh) >= 0 && rhb.Cmp(half) < 0 {
			d := mkSub(b, a)
			if dl, dh, ok := sLinBounds(d); ok {
				if dl.Sign() > 0 {
					return tTrue
				}
				if dh.Sign() <= 0 {
					return tFalse
				}
				// canonical: 0 < d, with positive part left if single negative coefficient
				z := mkConst(big0, a.w)
				if !(a == z && b == d) {
					return mkSltLin(d)
				}
			}
		}
	}
	if la.Sign() >= 0 && lb.Sign() >= 0 {
		return mkUlt(a, b)
	}
	if r := iteCmp(mkSlt, a, b); r != nil {
		return r
	}
	return intern(&Term{op: OpSlt, w: SBool, args: []*Term{a, b}})
}

// mkSltLin builds 0 < d for a non-overflowing linear form, moving things so that
// single-atom comparisons become atom-vs-constant.
func mkSltLin(d *Term) *Term {
	if d.op == OpLin && len(d.args) == 1 {
		c := d.coefs[0]
		x := d.args[0]
		if c.Cmp(big1) == 0 { // 0 < x + k  <=> -k < x
			k := mkConst(new(big.Int).Neg(d.val), d.w)
			return mkSltAtom(k, x)
		}
		if c.Cmp(maskOf(d.w)) == 0 { // 0 < k - x <=> x < k
			return mkSltAtom(x, mkConst(d.val, d.w))
		}
	}
	return intern(&Term{op: OpSlt, w: SBool, args: []*Term{mkConst(big0, d.w), d}})
}
func mkSltAtom(a, b *Term) *Term {
	la, ha := sbounds(a)
	lb, hb := sbounds(b)
	if ha.Cmp(lb) < 0 {
		return tTrue
	}
	if la.Cmp(hb) >= 0 {
		return tFalse
	}
	if la.Sign() >= 0 && lb.Sign() >= 0 {
		return mkUlt(a, b)
	}
	if r := iteCmp(mkSlt, a, b); r != nil {
		return r
	}
	return intern(&Term{op: OpSlt, w: SBool, args: []*Term{a, b}})
}
func mkSle(a, b *Term) *Term { return mkNot(mkSlt(b, a)) }

// ---------- arithmetic ----------

type linAcc struct {
	w    int
	m    map[int]*big.Int
	t    map[int]*Term
	cons *big.Int
}

func (l *linAcc) add(t *Term, c *big.Int) {
	if t.isConst() {
		l.cons.Add(l.cons, new(big.Int).Mul(t.val, c))
		return
	}
	if t.op == OpLin {
		l.cons.Add(l.cons, new(big.Int).Mul(t.val, c))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coefs[i], c))
		}
		return
	}
	l.addAtom(t, c)
}
func (l *linAcc) addAtom(t *Term, c *big.Int) {
	// zext of a linear form that does not wrap: pull out
	if t.op == OpConcat && len(t.args) == 2 && t.args[0].isConst() && t.args[0].val.Sign() == 0 && t.args[1].op == OpLin {
		in := t.args[1]
		if exactULin(in) {
			l.cons.Add(l.cons, new(big.Int).Mul(in.val, c))
			for i, a := range in.args {
				l.addAtom(mkZext(a, t.w), new(big.Int).Mul(in.coefs[i], c))
			}
			return
		}
	}
	// x*2^k in concat form -> coefficient
	if t.op == OpConcat && len(t.args) >= 2 {
		last := t.args[len(t.args)-1]
		if last.isConst() && last.val.Sign() == 0 {
			k := last.w
			rest := mkConcat(t.args[:len(t.args)-1]...)
			_, h := ubounds(rest)
			if h.BitLen()+k <= t.w {
				l.add(mkZext(rest, t.w), new(big.Int).Mul(c, pow2(k)))
				return
			}
		}
	}
	if o, ok := l.m[t.id]; ok {
		l.m[t.id] = new(big.Int).Add(o, c)
	} else {
		l.m[t.id] = new(big.Int).Set(c)
		l.t[t.id] = t
	}
}

// exactULin: all coefficients small positive and the sum cannot wrap
func exactULin(t *Term) bool {
	h := new(big.Int).Set(t.val)
	for i, a := range t.args {
		if isNegCoef(t.coefs[i], t.w) {
			return false
		}
		_, ah := ubounds(a)
		h.Add(h, new(big.Int).Mul(t.coefs[i], ah))
	}
	return h.BitLen() <= t.w
}

func (l *linAcc) done() *Term {
	m := pow2(l.w)
	cons := new(big.Int).Mod(l.cons, m)
	var ids []int
	for id, c := range l.m {
		c.Mod(c, m)
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return mkConst(cons, l.w)
	}
	sort.Ints(ids)
	if len(ids) == 1 && cons.Sign() == 0 {
		c := l.m[ids[0]]
		t := l.t[ids[0]]
		if c.Cmp(big1) == 0 {
			return t
		}
		if isPow2(c) {
			return mkShlC(t, c.BitLen()-1)
		}
	}
	// disjoint bits: x*2^k + y with y < 2^k, no negative coefficients -> concat
	if len(ids) <= 3 && cons.Sign() == 0 {
		if r := linAsConcat(l, ids); r != nil {
			return r
		}
	}
	t := &Term{op: OpLin, w: l.w, val: cons}
	for _, id := range ids {
		t.args = append(t.args, l.t[id])
		t.coefs = append(t.coefs, l.m[id])
	}
	return intern(t)
}

func linAsConcat(l *linAcc, ids []int) *Term {
	any := false
	type pc struct {
		t    *Term
		k, n int
	}
	var ps []pc
	for _, id := range ids {
		c := l.m[id]
		if !isPow2(c) {
			return nil
		}
		k := c.BitLen() - 1
		_, h := ubounds(l.t[id])
		n := h.BitLen()
		if n == 0 {
			n = 1
		}
		if k+n > l.w {
			return nil
		}
		if k > 0 {
			any = true
		}
		ps = append(ps, pc{l.t[id], k, n})
	}
	if !any {
		return nil
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].k > ps[j].k })
	for i := 0; i+1 < len(ps); i++ {
		if ps[i+1].k+ps[i+1].n > ps[i].k {
			return nil
		}
	}
	var parts []*Term
	pos := l.w
	for _, p := range ps {
		if pos > p.k+p.n {
			parts = append(parts, mkConst(big0, pos-p.k-p.n))
		}
		parts = append(parts, mkExtract(p.n-1, 0, p.t))
		pos = p.k
	}
	if pos > 0 {
		parts = append(parts, mkConst(big0, pos))
	}
	return mkConcat(parts...)
}

func newLin(w int) *linAcc {
	return &linAcc{w: w, m: map[int]*big.Int{}, t: map[int]*Term{}, cons: new(big.Int)}
}
func mkAdd(a, b *Term) *Term {
	if a.w != b.w {
		panic("add width")
	}
	l := newLin(a.w)
	l.add(a, big1)
	l.add(b, big1)
	return l.done()
}
func mkSub(a, b *Term) *Term {
	if a.w != b.w {
		panic("sub width")
	}
	l := newLin(a.w)
	l.add(a, big1)
	l.add(b, big.NewInt(-1))
	return l.done()
}
func mkNeg(a *Term) *Term { return mkSub(mkConst(big0, a.w), a) }
func mkMul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		l := newLin(a.w)
		l.add(a, b.val)
		return l.done()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func mkUDiv(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		if a.isConst() {
			return mkConst(new(big.Int).Div(a.val, b.val), a.w)
		}
		if isPow2(b.val) {
			return mkLshrC(a, b.val.BitLen()-1)
		}
		if q, _ := splitDiv(a, b.val); q != nil {
			return q
		}
		_, h := ubounds(a)
		if h.Cmp(b.val) < 0 {
			return mkConst(big0, a.w)
		}
		return divTerm(OpUDiv, a, b)
	}
	return intern(&Term{op: OpUDiv, w: a.w, args: []*Term{a, b}})
}
func mkURem(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		if a.isConst() {
			return mkConst(new(big.Int).Mod(a.val, b.val), a.w)
		}
		if isPow2(b.val) {
			k := b.val.BitLen() - 1
			if k == 0 {
				return mkConst(big0, a.w)
			}
			return mkZext(mkExtract(k-1, 0, a), a.w)
		}
		if _, r := splitDiv(a, b.val); r != nil {
			return r
		}
		_, h := ubounds(a)
		if h.Cmp(b.val) < 0 {
			return a
		}
		return mkSub(a, mkMul(mkUDiv(a, b), b))
	}
	return intern(&Term{op: OpURem, w: a.w, args: []*Term{a, b}})
}

// splitDiv: a = c*A + R with 0<=R<c and no wrap-around -> (A, R)
func splitDiv(a *Term, c *big.Int) (*Term, *Term) {
	if a.op != OpLin {
		return nil, nil
	}
	if lo, _, ok := sLinBounds(a); !ok || lo.Sign() < 0 {
		return nil, nil
	}
	la, lr := newLin(a.w), newLin(a.w)
	q, r := new(big.Int).QuoRem(a.val, c, new(big.Int))
	la.cons.Set(q)
	lr.cons.Set(r)
	for i, t := range a.args {
		co := a.coefs[i]
		if isNegCoef(co, a.w) {
			return nil, nil
		}
		q, r := new(big.Int).QuoRem(co, c, new(big.Int))
		if q.Sign() != 0 {
			la.add(t, q)
		}
		if r.Sign() != 0 {
			lr.add(t, r)
		}
	}
	A, R := la.done(), lr.done()
	if A.isConst() && A.val.Sign() == 0 {
		return nil, nil
	}
	_, rh := ubounds(R)
	if rh.Cmp(c) < 0 {
		return A, R
	}
	// carry out of R
	return mkAdd(A, mkUDiv(R, mkConst(c, a.w))), mkURem(R, mkConst(c, a.w))
}

// divTerm introduces quotient terms with multiplication-based defining facts.
func divTerm(op Op, a, b *Term) *Term {
	q := mkUF("udivc", a.w, a, b)
	_, h := ubounds(a)
	qh := new(big.Int).Div(h, b.val)
	setBound(q, big0, qh)
	// a - q*b in [0,b)
	r := mkSub(a, mkMul(q, b))
	addFact(q, rawUlt(r, b))
	if new(big.Int).Add(h, b.val).Cmp(maskOf(a.w)) > 0 {
		addFact(q, mkNot(rawUlt(a, r))) // q*b does not wrap
	}
	return q
}

func mkSDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return mkConst(new(big.Int).Quo(toSigned(a), toSigned(b)), a.w)
	}
	la, _ := sbounds(a)
	lb, _ := sbounds(b)
	if la.Sign() >= 0 && lb.Sign() >= 0 {
		return mkUDiv(a, b)
	}
	if lb.Sign() >= 0 && b.isConst() {
		// truncated: sign(a) * (|a| / b)
		neg := mkSlt(a, mkConst(big0, a.w))
		abs := mkIte(neg, mkNeg(a), a)
		q := mkUDiv(abs, b)
		return mkIte(neg, mkNeg(q), q)
	}
	return intern(&Term{op: OpSDiv, w: a.w, args: []*Term{a, b}})
}
func mkSRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return mkConst(new(big.Int).Rem(toSigned(a), toSigned(b)), a.w)
	}
	la, _ := sbounds(a)
	lb, _ := sbounds(b)
	if la.Sign() >= 0 && lb.Sign() >= 0 {
		return mkURem(a, b)
	}
	if lb.Sign() >= 0 && b.isConst() {
		return mkSub(a, mkMul(mkSDiv(a, b), b))
	}
	return intern(&Term{op: OpSRem, w: a.w, args: []*Term{a, b}})
}
func toSigned(t *Term) *big.Int {
	if t.val.Bit(t.w-1) == 1 {
		return new(big.Int).Sub(t.val, pow2(t.w))
	}
	return t.val
}

// ---------- bit operations ----------

func mkConcat(ps ...*Term) *Term {
	var out []*Term
	w := 0
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == OpConcat {
			for _, q := range p.args {
				push(q)
			}
			return
		}
		w += p.w
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.isConst() && p.isConst() {
				v := new(big.Int).Lsh(l.val, uint(p.w))
				v.Or(v, p.val)
				out[n-1] = mkConst(v, l.w+p.w)
				return
			}
			if p.op == OpExtract && l.op == OpExtract && l.args[0] == p.args[0] && l.lo == p.hi+1 {
				out[n-1] = mkExtract(l.hi, p.lo, p.args[0])
				return
			}
			// low bits of a sum are sums of low bits
			if l.op == OpExtract && l.args[0].op == OpLin && p.w <= l.lo && mkExtract(l.lo-1, l.lo-p.w, l.args[0]) == p {
				out[n-1] = mkExtract(l.hi, l.lo-p.w, l.args[0])
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		if p.w <= 0 {
			panic("concat of non-bv")
		}
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OpConcat, w: w, args: out})
}

func mkExtract(hi, lo int, t *Term) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	if hi < lo || hi >= t.w || lo < 0 {
		panic(fmt.Sprintf("extract %d %d of w=%d", hi, lo, t.w))
	}
	switch t.op {
	case OpConst:
		return mkConst(new(big.Int).Rsh(t.val, uint(lo)), hi-lo+1)
	case OpExtract:
		return mkExtract(t.lo+hi, t.lo+lo, t.args[0])
	case OpConcat:
		pos := t.w
		var ps []*Term
		for _, p := range t.args {
			pos -= p.w // p covers [pos, pos+p.w-1]
			if pos > hi || pos+p.w-1 < lo {
				continue
			}
			h, l := p.w-1, 0
			if pos+p.w-1 > hi {
				h = hi - pos
			}
			if pos < lo {
				l = lo - pos
			}
			ps = append(ps, mkExtract(h, l, p))
		}
		return mkConcat(ps...)
	case OpIte:
		if t.args[1].isConst() || t.args[2].isConst() || t.args[1].op == OpConcat || t.args[2].op == OpConcat {
			return mkIte(t.args[0], mkExtract(hi, lo, t.args[1]), mkExtract(hi, lo, t.args[2]))
		}
	case OpBAnd:
		return mkBin(OpBAnd, mkExtract(hi, lo, t.args[0]), mkExtract(hi, lo, t.args[1]))
	case OpBOr:
		return mkBin(OpBOr, mkExtract(hi, lo, t.args[0]), mkExtract(hi, lo, t.args[1]))
	case OpBXor:
		return mkBin(OpBXor, mkExtract(hi, lo, t.args[0]), mkExtract(hi, lo, t.args[1]))
	case OpLin:
		if lo == 0 {
			l := newLin(hi + 1)
			l.cons.Set(t.val)
			for i, a := range t.args {
				l.add(mkExtract(hi, 0, a), t.coefs[i])
			}
			return l.done()
		}
	case OpSext:
		x := t.args[0]
		if hi < x.w {
			return mkExtract(hi, lo, x)
		}
	case OpUF, OpVar:
		// known-zero high bits
		if e, ok := extraBound[t.id]; ok {
			if e[1].BitLen() <= lo {
				return mkConst(big0, hi-lo+1)
			}
			if n := e[1].BitLen(); hi >= n && n > lo {
				return mkConcat(mkConst(big0, hi-n+1), mkExtract(n-1, lo, t))
			}
		}
	}
	_, h := ubounds(t)
	if h.BitLen() <= lo {
		return mkConst(big0, hi-lo+1)
	}
	if n := h.BitLen(); hi >= n && t.op != OpUF && t.op != OpVar {
		return mkConcat(mkConst(big0, hi-n+1), mkExtract(n-1, lo, t))
	}
	if t.op == OpLin && hi < t.w-1 { // one form: only the bits that matter
		return mkExtract(hi, lo, mkExtract(hi, 0, t))
	}
	return intern(&Term{op: OpExtract, w: hi - lo + 1, hi: hi, lo: lo, args: []*Term{t}})
}

func mkZext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return mkExtract(w-1, 0, t)
	}
	if t.op == OpLin && exactULin(t) {
		l := newLin(w)
		l.cons.Set(t.val)
		for i, a := range t.args {
			l.add(mkZext(a, w), t.coefs[i])
		}
		return l.done()
	}
	return mkConcat(mkConst(big0, w-t.w), t)
}
func mkSext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return mkExtract(w-1, 0, t)
	}
	if t.isConst() {
		return mkConst(toSigned(t), w)
	}
	lo, _ := sbounds(t)
	if lo.Sign() >= 0 {
		return mkZext(t, w)
	}
	return intern(&Term{op: OpSext, w: w, args: []*Term{t}})
}

// constant runs of a mask, msb first: (bit, length)
func constRuns(v *big.Int, w int) (bitsv []uint, lens []int) {
	i := w - 1
	for i >= 0 {
		b := v.Bit(i)
		j := i
		for j >= 0 && v.Bit(j) == b {
			j--
		}
		bitsv = append(bitsv, b)
		lens = append(lens, i-j)
		i = j
	}
	return
}

func mkBin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("bin width")
	}
	if a == b {
		switch op {
		case OpBAnd, OpBOr:
			return a
		case OpBXor:
			return mkConst(big0, a.w)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case OpBAnd:
			r.And(a.val, b.val)
		case OpBOr:
			r.Or(a.val, b.val)
		case OpBXor:
			r.Xor(a.val, b.val)
		}
		return mkConst(r, a.w)
	}
	if b.isConst() {
		if b.val.Sign() == 0 {
			if op == OpBAnd {
				return b
			}
			return a
		}
		all := b.val.Cmp(maskOf(b.w)) == 0
		if all && op == OpBAnd {
			return a
		}
		if all && op == OpBOr {
			return b
		}
		if !all && op != OpBXor {
			bs, ls := constRuns(b.val, b.w)
			if len(bs) <= 64 {
				hi := b.w - 1
				var ps []*Term
				for i := range bs {
					lo := hi - ls[i] + 1
					x := mkExtract(hi, lo, a)
					c := mkConst(new(big.Int).Rsh(b.val, uint(lo)), ls[i])
					ps = append(ps, mkBin(op, x, c))
					hi = lo - 1
				}
				return mkConcat(ps...)
			}
		}
		if !all && op == OpBXor && a.op != OpConcat {
			bs, ls := constRuns(b.val, b.w)
			if len(bs) > 1 && len(bs) <= 64 {
				hi := b.w - 1
				var ps []*Term
				for i := range bs {
					lo := hi - ls[i] + 1
					x := mkExtract(hi, lo, a)
					c := mkConst(new(big.Int).Rsh(b.val, uint(lo)), ls[i])
					ps = append(ps, mkBin(op, x, c))
					hi = lo - 1
				}
				return mkConcat(ps...)
			}
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		pa, pb := alignCuts(a, b)
		if len(pa) > 1 {
			ps := make([]*Term, len(pa))
			for i := range pa {
				ps[i] = mkBin(op, pa[i], pb[i])
			}
			return mkConcat(ps...)
		}
	}
	// xor cancellation: (x^y)^y
	if op == OpBXor {
		for k := 0; k < 2; k++ {
			if a.op == OpBXor {
				if a.args[0] == b {
					return a.args[1]
				}
				if a.args[1] == b {
					return a.args[0]
				}
			}
			a, b = b, a
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if b.isConst() { // canonical: const first? keep const second
		return intern(&Term{op: op, w: a.w, args: []*Term{b, a}})
	}
	return intern(&Term{op: op, w: a.w, args: []*Term{a, b}})
}
func mkBNot(a *Term) *Term { return mkBin(OpBXor, a, mkConst(maskOf(a.w), a.w)) }

func mkShlC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return mkConst(big0, a.w)
	}
	return mkConcat(mkExtract(a.w-1-k, 0, a), mkConst(big0, k))
}
func mkLshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return mkConst(big0, a.w)
	}
	// exact division of a linear form by 2^k
	if a.op == OpLin {
		if q, _ := splitDiv(a, pow2(k)); q != nil {
			return q
		}
	}
	return mkConcat(mkConst(big0, k), mkExtract(a.w-1, k, a))
}

// shifts by a symbolic amount of the same width; amounts >= width give 0 / sign.
func mkShift(op Op, a, s *Term) *Term {
	if s.w != a.w {
		if s.w < a.w {
			s = mkZext(s, a.w)
		} else {
			// saturate
			_, h := ubounds(s)
			if h.BitLen() <= a.w {
				s = mkExtract(a.w-1, 0, s)
			} else {
				big := mkNot(mkUlt(s, mkConst(big.NewInt(int64(a.w)), s.w)))
				s = mkIte(big, mkConst(bigI(a.w), a.w), mkExtract(a.w-1, 0, s))
			}
		}
	}
	if s.isConst() {
		k := a.w
		if s.val.IsInt64() && s.val.Int64() < int64(a.w) {
			k = int(s.val.Int64())
		}
		switch op {
		case OpShl:
			return mkShlC(a, k)
		case OpLshr:
			return mkLshrC(a, k)
		case OpAshr:
			if k >= a.w {
				k = a.w - 1
			}
			if k == 0 {
				return a
			}
			return mkSext(mkExtract(a.w-1, k, a), a.w)
		}
	}
	if a.isConst() && a.val.Sign() == 0 {
		return a
	}
	if op == OpAshr {
		if lo, _ := sbounds(a); lo.Sign() >= 0 {
			op = OpLshr
		}
	}
	return intern(&Term{op: op, w: a.w, args: []*Term{a, s}})
}
func bigI(n int) *big.Int { return big.NewInt(int64(n)) }

// ---------- bitlen ----------

func mkBitlen(x *Term) *Term { // result 64-bit
	if x.isConst() {
		return i64(int64(x.val.BitLen()))
	}
	lo, hi := ubounds(x)
	if lo.BitLen() == hi.BitLen() {
		return i64(int64(lo.BitLen()))
	}
	// strip known leading zeros
	if n := hi.BitLen(); n < x.w {
		return mkBitlen(mkExtract(n-1, 0, x))
	}
	t := mkUF("bitlen", 64, x)
	if _, ok := extraBound[t.id]; !ok {
		setBound(t, bigI(lo.BitLen()), bigI(hi.BitLen()))
		bitlenFacts(t, x)
	}
	return t
}

// definitional facts for bitlen: 2^(l-1) <= x < 2^l, x=0 -> l=0
func bitlenFacts(t, x *Term) {
	one := mkConst(big1, x.w+1)
	xx := mkConcat(mkConst(big0, 1), x)
	l := mkZext(mkExtract(15, 0, t), x.w+1)
	if x.w+1 < 16 {
		l = mkExtract(x.w, 0, t)
	}
	up := intern(&Term{op: OpShl, w: x.w + 1, args: []*Term{one, l}})
	addFact(t, rawUlt(xx, up))
	z := mkEq(x, mkConst(big0, x.w))
	lo := intern(&Term{op: OpShl, w: x.w + 1, args: []*Term{one, mkSub(l, one)}})
	addFact(t, mkOr(z, mkNot(rawUlt(xx, lo))))
	addFact(t, mkOr(mkNot(z), intern(&Term{op: OpEq, w: SBool, args: sortTwo(t, i64(0))})))
}

// ---------- substitution ----------

func subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
		if q, ok := m[r.id]; ok {
			r = q
		}
	}
	memo[t.id] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpUF:
		return mkUFs(t.name, t.w, a...)
	case OpNot:
		return mkNot(a[0])
	case OpAnd, OpOr:
		return mkAndOr(t.op, a)
	case OpIte:
		return mkIte(a[0], a[1], a[2])
	case OpEq:
		return mkEq(a[0], a[1])
	case OpUlt:
		return mkUlt(a[0], a[1])
	case OpSlt:
		return mkSlt(a[0], a[1])
	case OpLin:
		l := newLin(t.w)
		l.cons.Set(t.val)
		for i := range a {
			l.add(a[i], t.coefs[i])
		}
		return l.done()
	case OpMul:
		return mkMul(a[0], a[1])
	case OpBAnd, OpBOr, OpBXor:
		return mkBin(t.op, a[0], a[1])
	case OpConcat:
		return mkConcat(a...)
	case OpExtract:
		return mkExtract(t.hi, t.lo, a[0])
	case OpSext:
		return mkSext(a[0], t.w)
	case OpShl, OpLshr, OpAshr:
		return mkShift(t.op, a[0], a[1])
	case OpUDiv:
		return mkUDiv(a[0], a[1])
	case OpURem:
		return mkURem(a[0], a[1])
	case OpSDiv:
		return mkSDiv(a[0], a[1])
	case OpSRem:
		return mkSRem(a[0], a[1])
	}
	panic("rebuild")
}

// mkUFs applies the UF-specific simplifications on rebuilding.
func mkUFs(name string, w int, a ...*Term) *Term {
	switch name {
	case "bitlen":
		return mkBitlen(a[0])
	case "udivc":
		return mkUDiv(a[0], a[1])
	}
	if f, ok := ufRebuild[name]; ok {
		return f(w, a)
	}
	return mkUF(name, w, a...)
}

var ufRebuild = map[string]func(w int, a []*Term) *Term{}

// ---------- printing ----------

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == SBool {
			return fmt.Sprint(t == tTrue)
		}
		if t.w > 64 {
			return fmt.Sprintf("0x%s:%d", t.val.Text(16), t.w)
		}
		return fmt.Sprintf("%s:%d", t.val, t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	names := map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "u<", OpSlt: "s<", OpLin: "+", OpMul: "*", OpBAnd: "&", OpBOr: "|", OpBXor: "^", OpConcat: "cat", OpExtract: "ext", OpSext: "sext", OpShl: "<<", OpLshr: ">>", OpAshr: ">>s", OpUDiv: "/", OpURem: "%", OpSDiv: "s/", OpSRem: "s%"}
	n := names[t.op]
	if t.op == OpUF {
		n = t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	if t.op == OpExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.hi, t.lo)
	}
	if t.op == OpLin {
		fmt.Fprintf(&sb, " %s", toSigned(mkConst(t.val, t.w)))
	}
	for i, a := range t.args {
		sb.WriteString(" ")
		if t.op == OpLin {
			c := toSigned(mkConst(t.coefs[i], t.w))
			if c.Cmp(big1) != 0 {
				sb.WriteString(c.String() + "*")
			}
		}
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteString(")")
	return sb.String()
}
