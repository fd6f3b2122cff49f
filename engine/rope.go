package main

import (
	"math/big"
	"strconv"
	"strings"
)

// Rope: a byte string as a list of fixed-size chunks (bit-vectors) and opaque
// atoms of sort B with a symbolic length.
type Seg struct {
	bv   *Term // chunk (width multiple of 8), or
	atom *Term // opaque byte string
}
type Rope struct{ segs []Seg }

var maxLen = new(big.Int).Lsh(big1, 40)

func (s Seg) length() *Term {
	if s.bv != nil {
		return i64(int64(s.bv.w / 8))
	}
	return lenOf(s.atom)
}

// lenOf gives the length of an opaque byte string.
func lenOf(a *Term) *Term {
	if a.op == OpUF {
		switch {
		case a.name == "zeros":
			return a.args[0]
		case a.name == "minbytes":
			return byteLen(a.args[0])
		case a.name == "sub":
			return a.args[2]
		case a.name == "empty":
			return i64(0)
		case a.name == "cat":
			return mkAdd(lenOf(a.args[0]), lenOf(a.args[1]))
		case a.name == "rep":
			return mkMul(lenOf(a.args[0]), a.args[1])
		case a.name == "cfb" || a.name == "cfbdec":
			return lenOf(a.args[2])
		case strings.HasPrefix(a.name, "bytes_"):
			return i64(int64(a.args[0].w / 8))
		}
	}
	l := mkUF("blen", 64, a)
	setBound(l, big0, maxLen)
	return l
}

func byteLen(v *Term) *Term { // (bitlen+7)/8
	return mkUDiv(mkAdd(mkBitlen(v), i64(7)), i64(8))
}

func mkBytesN(bv *Term) *Term {
	n := bv.w / 8
	name := "bytes_" + strconv.Itoa(n)
	t := mkUF(name, SBytes, bv)
	if _, ok := termFacts[t.id]; !ok {
		addFact(t, intern(&Term{op: OpEq, w: SBool, args: []*Term{mkUF("unbytes", bv.w, t), bv}}))
	}
	return t
}

func mkMinbytes(v *Term) Rope {
	if l := byteLen(v); l.isConst() {
		n := int(l.val.Int64())
		if n == 0 {
			return Rope{}
		}
		return ropeBV(mkZext(v, 8*n))
	}
	// strip known leading zero bits so equal values have one form
	_, h := ubounds(v)
	if n := h.BitLen(); n < v.w {
		v = mkExtract(n-1, 0, v)
	}
	return Rope{[]Seg{{atom: mkUF("minbytes", SBytes, v)}}}
}

// minbytesOf is the integer whose shortest big-endian form the segment is, or nil.
func minbytesOf(s Seg) *Term {
	if s.atom != nil && s.atom.op == OpUF && s.atom.name == "minbytes" {
		return s.atom.args[0]
	}
	return nil
}

func isZero(t *Term) bool { return t.isConst() && t.val.Sign() == 0 }

func mkZeros(n *Term) Rope {
	if n.isConst() {
		k := n.val.Int64()
		if k == 0 {
			return Rope{}
		}
		if k < 1<<16 {
			return ropeBV(mkConst(big0, int(k)*8))
		}
	}
	return Rope{[]Seg{{atom: mkUF("zeros", SBytes, n)}}}
}

func mkSubAtom(a, off, n *Term) Rope {
	if n.isConst() && n.val.Sign() == 0 {
		return Rope{}
	}
	if a.op == OpUF {
		switch a.name {
		case "zeros":
			return mkZeros(n)
		case "sub":
			return mkSubAtom(a.args[0], mkAdd(a.args[1], off), n)
		}
	}
	if off.isConst() && off.val.Sign() == 0 && n == lenOf(a) {
		return Rope{[]Seg{{atom: a}}}
	}
	if n.isConst() && n.val.IsInt64() && n.val.Int64() <= 4 {
		var ps []*Term
		for i := int64(0); i < n.val.Int64(); i++ {
			ps = append(ps, mkAt(a, mkAdd(off, i64(i))))
		}
		return ropeBV(mkConcat(ps...))
	}
	return Rope{[]Seg{{atom: mkUF("sub", SBytes, a, off, n)}}}
}

func mkAt(a, idx *Term) *Term {
	if a.op == OpUF {
		switch a.name {
		case "zeros":
			return mkConst(big0, 8)
		case "sub":
			return mkAt(a.args[0], mkAdd(a.args[1], idx))
		}
	}
	return mkUF("at", 8, a, idx)
}

func ropeBV(bv *Term) Rope  { return Rope{[]Seg{{bv: bv}}} }
func ropeAtom(a *Term) Rope { return Rope{[]Seg{{atom: a}}} }
func ropeStr(s string) Rope {
	if len(s) == 0 {
		return Rope{}
	}
	return ropeBV(mkConst(new(big.Int).SetBytes([]byte(s)), 8*len(s)))
}

func (r Rope) length() *Term {
	l := newLin(64)
	for _, s := range r.segs {
		l.add(s.length(), big1)
	}
	return l.done()
}

func (r Rope) fixed() bool {
	for _, s := range r.segs {
		if s.bv == nil {
			return false
		}
	}
	return true
}

// bv of a fixed rope (nil when empty)
func (r Rope) asBV() *Term {
	if len(r.segs) == 0 {
		return nil
	}
	ps := make([]*Term, len(r.segs))
	for i, s := range r.segs {
		if s.bv == nil {
			return nil
		}
		ps[i] = s.bv
	}
	return mkConcat(ps...)
}

func (r Rope) constStr() (string, bool) {
	if len(r.segs) == 0 {
		return "", true
	}
	b := r.asBV()
	if b == nil || !b.isConst() {
		return "", false
	}
	buf := make([]byte, b.w/8)
	b.val.FillBytes(buf)
	return string(buf), true
}

func ropeCat(rs ...Rope) Rope {
	var out []Seg
	for _, r := range rs {
		for _, s := range r.segs {
			if s.atom != nil {
				if l := lenOf(s.atom); l.isConst() && l.val.Sign() == 0 {
					continue
				}
			}
			if n := len(out); n > 0 {
				p := out[n-1]
				if p.bv != nil && s.bv != nil {
					out[n-1] = Seg{bv: mkConcat(p.bv, s.bv)}
					continue
				}
				if p.atom != nil && s.atom != nil {
					if p.atom.name == "zeros" && s.atom.name == "zeros" {
						out[n-1] = Seg{atom: mkUF("zeros", SBytes, mkAdd(p.atom.args[0], s.atom.args[0]))}
						continue
					}
					// an integer, padded with zeros to a fixed size
					if v := minbytesOf(s); v != nil && p.atom.name == "zeros" {
						if l := mkAdd(p.atom.args[0], s.length()); l.isConst() && l.val.IsInt64() && l.val.Int64() > 0 && l.val.Int64() < 1<<12 {
							w := 8 * int(l.val.Int64())
							if v.w > w {
								v = mkExtract(w-1, 0, v)
							}
							out[n-1] = Seg{bv: mkZext(v, w)}
							continue
						}
					}
					if p.atom.name == "sub" && s.atom.name == "sub" && p.atom.args[0] == s.atom.args[0] &&
						mkAdd(p.atom.args[1], p.atom.args[2]) == s.atom.args[1] {
						m := mkSubAtom(p.atom.args[0], p.atom.args[1], mkAdd(p.atom.args[2], s.atom.args[2]))
						out = append(out[:n-1], m.segs...)
						continue
					}
				}
				// re-joining single extracted bytes of an atom with its neighbour
				if p.atom != nil && p.atom.name == "sub" && s.bv != nil && s.bv.w == 8 && s.bv.op == OpUF && s.bv.name == "at" &&
					s.bv.args[0] == p.atom.args[0] && mkAdd(p.atom.args[1], p.atom.args[2]) == s.bv.args[1] {
					m := mkSubAtom(p.atom.args[0], p.atom.args[1], mkAdd(p.atom.args[2], i64(1)))
					out = append(out[:n-1], m.segs...)
					continue
				}
			}
			out = append(out, s)
		}
	}
	return Rope{out}
}

// bytesTerm is the canonical B term of the rope.
func (r Rope) bytesTerm() *Term {
	if len(r.segs) == 0 {
		return mkUF("empty", SBytes)
	}
	var t *Term
	for i := len(r.segs) - 1; i >= 0; i-- {
		s := r.segs[i]
		x := s.atom
		if x == nil {
			x = mkBytesN(s.bv)
		}
		if t == nil {
			t = x
		} else {
			t = mkUF("cat", SBytes, x, t)
		}
	}
	return t
}

func init() {
	ufRebuild["cat"] = func(w int, a []*Term) *Term {
		return ropeCat(ropeOfTerm(a[0]), ropeOfTerm(a[1])).bytesTerm()
	}
	ufRebuild["minbytes"] = func(w int, a []*Term) *Term { return mkMinbytes(a[0]).bytesTerm() }
	ufRebuild["zeros"] = func(w int, a []*Term) *Term { return mkZeros(a[0]).bytesTerm() }
	ufRebuild["sub"] = func(w int, a []*Term) *Term {
		if a[0].op == OpUF && (a[0].name == "cat" || strings.HasPrefix(a[0].name, "bytes_")) {
			return mkUF("sub", SBytes, a...)
		}
		return mkSubAtom(a[0], a[1], a[2]).bytesTerm()
	}
	ufRebuild["blen"] = func(w int, a []*Term) *Term { return lenOf(a[0]) }
	ufRebuild["at"] = func(w int, a []*Term) *Term { return mkAt(a[0], a[1]) }
}

func ropeOfTerm(t *Term) Rope {
	if t.op == OpUF {
		switch {
		case t.name == "empty":
			return Rope{}
		case t.name == "cat":
			return ropeCat(ropeOfTerm(t.args[0]), ropeOfTerm(t.args[1]))
		case strings.HasPrefix(t.name, "bytes_"):
			return ropeBV(t.args[0])
		}
	}
	return ropeAtom(t)
}

// ropeEq is a formula implying equality of the two ropes, and equivalent to it
// except that the fallback on misaligned opaque pieces may leave it to congruence.
func ropeEq(a, b Rope) *Term {
	if mkEq(a.length(), b.length()) == tFalse {
		return tFalse
	}
	var cs []*Term
	x := append([]Seg{}, a.segs...)
	y := append([]Seg{}, b.segs...)
	peel := func(front bool) {
		for len(x) > 0 && len(y) > 0 {
			var p, q Seg
			if front {
				p, q = x[0], y[0]
			} else {
				p, q = x[len(x)-1], y[len(y)-1]
			}
			if p.bv != nil && q.bv != nil {
				w := p.bv.w
				if q.bv.w < w {
					w = q.bv.w
				}
				cut := func(t *Term) (*Term, *Term) {
					if t.w == w {
						return t, nil
					}
					if front {
						return mkExtract(t.w-1, t.w-w, t), mkExtract(t.w-w-1, 0, t)
					}
					return mkExtract(w-1, 0, t), mkExtract(t.w-1, w, t)
				}
				pa, pr := cut(p.bv)
				qa, qr := cut(q.bv)
				cs = append(cs, mkEq(pa, qa))
				upd := func(z []Seg, r *Term) []Seg {
					if front {
						if r == nil {
							return z[1:]
						}
						z = append([]Seg{{bv: r}}, z[1:]...)
						return z
					}
					if r == nil {
						return z[:len(z)-1]
					}
					z = append(append([]Seg{}, z[:len(z)-1]...), Seg{bv: r})
					return z
				}
				x, y = upd(x, pr), upd(y, qr)
				continue
			}
			if p.atom != nil && q.atom != nil {
				if p.atom == q.atom || lenOf(p.atom) == lenOf(q.atom) {
					cs = append(cs, mkEq(p.atom, q.atom))
					if front {
						x, y = x[1:], y[1:]
					} else {
						x, y = x[:len(x)-1], y[:len(y)-1]
					}
					continue
				}
			}
			break
		}
	}
	peel(true)
	peel(false)
	if len(x) == 0 && len(y) == 0 {
		return mkAnd(cs...)
	}
	rx, ry := Rope{x}, Rope{y}
	le := mkEq(rx.length(), ry.length())
	cs = append(cs, le)
	if len(x) > 0 && len(y) > 0 {
		cs = append(cs, mkEq(ropeCat(rx).bytesTerm(), ropeCat(ry).bytesTerm()))
	} else {
		// one side empty: all atoms of the other are empty (len 0 is all there is)
		for _, s := range append(x, y...) {
			cs = append(cs, mkEq(s.length(), i64(0)))
		}
	}
	return mkAnd(cs...)
}

// Decider resolves conditions on the current path (forking when both are possible).
type Decider interface {
	decide(c *Term) bool
	proved(c *Term) bool
}

// split cuts the rope at offset k (0<=k<=len must hold on the path).
func (r Rope) split(d Decider, k *Term) (Rope, Rope) {
	if k.isConst() && k.val.Sign() == 0 {
		return Rope{}, r
	}
	if k == r.length() {
		return r, Rope{}
	}
	rem := k
	for i, s := range r.segs {
		sl := s.length()
		if rem.isConst() && rem.val.Sign() == 0 {
			return Rope{append([]Seg{}, r.segs[:i]...)}, Rope{append([]Seg{}, r.segs[i:]...)}
		}
		if rem == sl {
			return Rope{append([]Seg{}, r.segs[:i+1]...)}, Rope{append([]Seg{}, r.segs[i+1:]...)}
		}
		if s.atom != nil && s.atom.op == OpUF && s.atom.name == "zeros" && i == len(r.segs)-1 && d.proved(mkSle(rem, sl)) {
			return ropeCat(Rope{append([]Seg{}, r.segs[:i]...)}, mkZeros(rem)), mkZeros(mkSub(sl, rem))
		}
		if d.decide(mkSle(sl, rem)) { // segment fully on the left
			rem = mkSub(rem, sl)
			continue
		}
		// strictly inside segment i (or at its start)
		left := Rope{append([]Seg{}, r.segs[:i]...)}
		right := Rope{append([]Seg{}, r.segs[i+1:]...)}
		if s.bv != nil {
			if !rem.isConst() {
				// fork over the concrete positions in the chunk
				n := s.bv.w / 8
				for j := 0; j < n; j++ {
					if j == n-1 || d.decide(mkEq(rem, i64(int64(j)))) {
						rem = i64(int64(j))
						break
					}
				}
			}
			j := int(rem.val.Int64())
			w := s.bv.w
			if j == 0 {
				return left, ropeCat(ropeBV(s.bv), right)
			}
			return ropeCat(left, ropeBV(mkExtract(w-1, w-8*j, s.bv))), ropeCat(ropeBV(mkExtract(w-8*j-1, 0, s.bv)), right)
		}
		return ropeCat(left, mkSubAtom(s.atom, i64(0), rem)), ropeCat(mkSubAtom(s.atom, rem, mkSub(sl, rem)), right)
	}
	return r, Rope{}
}

func (r Rope) slice(d Decider, off, n *Term) Rope {
	_, b := r.split(d, off)
	m, _ := b.split(d, n)
	return m
}

// at reads the byte at idx (0<=idx<len must hold on the path).
func (r Rope) at(d Decider, idx *Term) *Term {
	rem := idx
	for i, s := range r.segs {
		sl := s.length()
		last := i == len(r.segs)-1
		if last || d.decide(mkSlt(rem, sl)) {
			if s.bv != nil {
				n := s.bv.w / 8
				if rem.isConst() && rem.val.IsInt64() && rem.val.Int64() < int64(n) {
					j := int(rem.val.Int64())
					return mkExtract(s.bv.w-8*j-1, s.bv.w-8*j-8, s.bv)
				}
				// symbolic: select by ite chain
				t := mkExtract(7, 0, s.bv)
				for j := n - 2; j >= 0; j-- {
					t = mkIte(mkEq(rem, i64(int64(j))), mkExtract(s.bv.w-8*j-1, s.bv.w-8*j-8, s.bv), t)
				}
				return t
			}
			return mkAt(s.atom, rem)
		}
		rem = mkSub(rem, sl)
	}
	panic(unsupported{"byte read from empty rope"})
}

func (r Rope) write(d Decider, off *Term, x Rope) Rope {
	// the bytes of an integer, put at the end of a fixed number of bytes
	if len(x.segs) == 1 && len(r.segs) == 1 && r.segs[0].bv != nil {
		if v, old := minbytesOf(x.segs[0]), r.segs[0].bv; v != nil {
			_, h := ubounds(v)
			w := (h.BitLen() + 7) / 8 * 8
			if w > old.w {
				w = old.w
			}
			if off.isConst() {
				w = old.w - 8*int(off.val.Int64())
			}
			if w > 0 && (off.isConst() || isZero(mkExtract(w-1, 0, old))) &&
				(mkAdd(off, x.length()) == r.length() || d.proved(mkEq(mkAdd(off, x.length()), r.length()))) {
				if v.w > w {
					v = mkExtract(w-1, 0, v)
				}
				y := ropeBV(mkZext(v, w))
				if w < old.w {
					y = ropeCat(ropeBV(mkExtract(old.w-1, w, old)), y)
				}
				return y
			}
		}
	}
	a, b := r.split(d, off)
	_, c := b.split(d, x.length())
	return ropeCat(a, x, c)
}

type unsupported struct{ msg string }

func (r Rope) String() string {
	var p []string
	for _, s := range r.segs {
		if s.bv != nil {
			if s.bv.isConst() {
				c, _ := ropeBV(s.bv).constStr()
				p = append(p, strconv.Quote(c))
			} else {
				p = append(p, strconv.Itoa(s.bv.w/8)+"B:"+s.bv.str(4))
			}
		} else {
			p = append(p, s.atom.str(3))
		}
	}
	return strings.Join(p, " ++ ")
}
