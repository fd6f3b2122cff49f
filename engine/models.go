package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of the standard library and of the cryptographic modules.
// Cryptographic primitives are uninterpreted functions of all of their inputs.

type modelFn func(ex *Exec, st *State, a []Value) Value

var models = map[string]modelFn{}

func lookupModel(key string) modelFn { return models[key] }

func tup(v ...Value) Value { return &Tuple{v} }

var nilErr = &Iface{}

func (ex *Exec) newErr(kind string, wraps ...Value) *Iface {
	return &Iface{typ: ex.modelType("err"), v: &ModelV{kind: kind, f: map[string]Value{"wraps": wraps}}}
}

func sliceBytes(st *State, v Value) Rope {
	switch x := v.(type) {
	case *Slice:
		return st.bytesOf(x)
	case *Str:
		return x.r
	case *ByteArr:
		return x.r
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

func strOf(v Value) Rope { return v.(*Str).r }

func constArg(v Value) (string, bool) {
	s, ok := v.(*Str)
	if !ok {
		return "", false
	}
	return s.r.constStr()
}

// write r into the slice d at its start
func (st *State) fill(d *Slice, r Rope) {
	if len(r.segs) == 0 {
		return
	}
	ba, ok := getPath(st.obj(d.obj).val, d.path).(*ByteArr)
	if !ok {
		panic(unsupported{"fill of non-byte slice"})
	}
	st.store(&Ptr{obj: d.obj, path: d.path}, &ByteArr{ba.r.write(st, d.off, r)})
}

func (st *State) goPanicIf(c *Term, msg string) {
	if st.decide(c) {
		panic(goPanic{msg})
	}
}

// ---------- big.Int ----------

func zx(t *Term) *Term { return mkZext(t, bigW) }

func (st *State) setBig(p Value, b *Big) Value {
	st.store(p.(*Ptr), b)
	return p
}

func (st *State) nonneg(b *Big) *Term {
	if st.decide(b.neg) {
		panic(unsupported{"operation on a negative big.Int"})
	}
	return b.mag
}

func (st *State) fitsBig(mag *Term, room int) {
	_, hi := ubounds(mag)
	if hi.BitLen()+room <= bigW {
		return
	}
	if bigW-room <= 0 || !st.proved(mkUlt(mag, mkConst(pow2(bigW-room), bigW))) {
		panic(unsupported{"big.Int beyond the modelled range"})
	}
}

func bigCmp(a, b *Big) *Term { // 64-bit -1,0,1
	m := mkIte(mkEq(a.mag, b.mag), i64(0), mkIte(mkUlt(a.mag, b.mag), i64(-1), i64(1)))
	if a.neg == tFalse && b.neg == tFalse {
		return m
	}
	mr := mkIte(mkEq(a.mag, b.mag), i64(0), mkIte(mkUlt(a.mag, b.mag), i64(1), i64(-1)))
	return mkIte(a.neg, mkIte(b.neg, mr, i64(-1)), mkIte(b.neg, i64(1), m))
}

func (st *State) bigAdd(a, b *Big) *Big {
	an, bn := st.decide(a.neg), st.decide(b.neg)
	if an == bn {
		st.fitsBig(a.mag, 1)
		st.fitsBig(b.mag, 1)
		return &Big{mkBool(an), mkAdd(a.mag, b.mag)}
	}
	if st.decide(mkUle(b.mag, a.mag)) {
		d := mkSub(a.mag, b.mag)
		if an {
			return &Big{mkNot(mkEq(d, mkConst(big0, bigW))), d}
		}
		return &Big{tFalse, d}
	}
	d := mkSub(b.mag, a.mag)
	return &Big{mkBool(bn), d}
}

func (st *State) bigFromInt64(x *Term) *Big {
	if st.decide(mkSlt(x, i64(0))) {
		return &Big{tTrue, zx(mkNeg(x))}
	}
	return &Big{tFalse, zx(x)}
}

func ropeToBV(r Rope) *Term { return r.asBV() }

func (st *State) bigFromRope(r Rope) *Big {
	if len(r.segs) == 0 {
		return bigConst(big0)
	}
	if b := r.asBV(); b != nil {
		if b.w > bigW {
			hi := mkExtract(b.w-1, bigW, b)
			if !st.proved(mkEq(hi, mkConst(big0, hi.w))) {
				panic(unsupported{"SetBytes beyond the modelled big.Int range"})
			}
			return &Big{tFalse, mkExtract(bigW-1, 0, b)}
		}
		return &Big{tFalse, zx(b)}
	}
	if len(r.segs) == 1 && r.segs[0].atom != nil && r.segs[0].atom.name == "minbytes" {
		return &Big{tFalse, zx(r.segs[0].atom.args[0])}
	}
	// symbolic length: fork on the length if it is small
	l := r.length()
	_, hi := ubounds(l)
	if !hi.IsInt64() || hi.Int64() > bigW/8 {
		if !st.decide(mkUle(l, i64(bigW/8))) {
			panic(unsupported{"SetBytes of a long symbolic string"})
		}
	}
	n := st.concrete(l).Int64()
	var ps []*Term
	for i := int64(0); i < n; i++ {
		ps = append(ps, r.at(st, i64(i)))
	}
	if len(ps) == 0 {
		return bigConst(big0)
	}
	return &Big{tFalse, zx(mkConcat(ps...))}
}

func (st *State) shiftAmt(t *Term) int {
	n := st.concrete(t)
	if !n.IsInt64() || n.Int64() > 1<<20 {
		panic(unsupported{"huge shift"})
	}
	return int(n.Int64())
}

func init() {
	m := models
	bigI := "(*math/big.Int)."
	m["math/big.NewInt"] = func(ex *Exec, st *State, a []Value) Value {
		return &Ptr{obj: st.newObj(st.bigFromInt64(a[0].(*Term)), "big")}
	}
	m[bigI+"SetInt64"] = func(ex *Exec, st *State, a []Value) Value {
		return st.setBig(a[0], st.bigFromInt64(a[1].(*Term)))
	}
	m[bigI+"SetUint64"] = func(ex *Exec, st *State, a []Value) Value {
		return st.setBig(a[0], &Big{tFalse, zx(a[1].(*Term))})
	}
	m[bigI+"Set"] = func(ex *Exec, st *State, a []Value) Value { return st.setBig(a[0], st.getBig(a[1])) }
	m[bigI+"SetBytes"] = func(ex *Exec, st *State, a []Value) Value {
		return st.setBig(a[0], st.bigFromRope(sliceBytes(st, a[1])))
	}
	m[bigI+"Neg"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[1])
		return st.setBig(a[0], &Big{mkAnd(mkNot(b.neg), mkNot(mkEq(b.mag, mkConst(big0, bigW)))), b.mag})
	}
	m[bigI+"Abs"] = func(ex *Exec, st *State, a []Value) Value {
		return st.setBig(a[0], &Big{tFalse, st.getBig(a[1]).mag})
	}
	m[bigI+"BitLen"] = func(ex *Exec, st *State, a []Value) Value { return mkBitlen(st.getBig(a[0]).mag) }
	m[bigI+"Sign"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[0])
		return mkIte(mkEq(b.mag, mkConst(big0, bigW)), i64(0), mkIte(b.neg, i64(-1), i64(1)))
	}
	m[bigI+"Cmp"] = func(ex *Exec, st *State, a []Value) Value { return bigCmp(st.getBig(a[0]), st.getBig(a[1])) }
	m[bigI+"CmpAbs"] = func(ex *Exec, st *State, a []Value) Value {
		x, y := st.getBig(a[0]), st.getBig(a[1])
		return bigCmp(&Big{tFalse, x.mag}, &Big{tFalse, y.mag})
	}
	m[bigI+"Add"] = func(ex *Exec, st *State, a []Value) Value {
		return st.setBig(a[0], st.bigAdd(st.getBig(a[1]), st.getBig(a[2])))
	}
	m[bigI+"Sub"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[2])
		nz := mkNot(mkEq(b.mag, mkConst(big0, bigW)))
		return st.setBig(a[0], st.bigAdd(st.getBig(a[1]), &Big{mkAnd(nz, mkNot(b.neg)), b.mag}))
	}
	m[bigI+"Mul"] = func(ex *Exec, st *State, a []Value) Value {
		x, y := st.nonneg(st.getBig(a[1])), st.nonneg(st.getBig(a[2]))
		if x.isConst() {
			x, y = y, x
		}
		if !y.isConst() {
			panic(unsupported{"big.Int product of two unknowns"})
		}
		st.fitsBig(x, y.val.BitLen())
		if isPow2(y.val) {
			return st.setBig(a[0], &Big{tFalse, mkShlC(x, y.val.BitLen()-1)})
		}
		return st.setBig(a[0], &Big{tFalse, mkMul(x, y)})
	}
	divmod := func(st *State, x, y *Term) (*Term, *Term) {
		if !y.isConst() || y.val.Sign() == 0 {
			if st.decide(mkEq(y, mkConst(big0, bigW))) {
				panic(goPanic{"division by zero (big.Int)"})
			}
			panic(unsupported{"big.Int division by an unknown"})
		}
		if isPow2(y.val) {
			k := y.val.BitLen() - 1
			if k == 0 {
				return x, mkConst(big0, bigW)
			}
			return mkLshrC(x, k), zx(mkExtract(k-1, 0, x))
		}
		q := mkUDiv(x, y)
		return q, mkURem(x, y)
	}
	quo := func(ex *Exec, st *State, a []Value) Value {
		q, _ := divmod(st, st.nonneg(st.getBig(a[1])), st.nonneg(st.getBig(a[2])))
		return st.setBig(a[0], &Big{tFalse, q})
	}
	rem := func(ex *Exec, st *State, a []Value) Value {
		_, r := divmod(st, st.nonneg(st.getBig(a[1])), st.nonneg(st.getBig(a[2])))
		return st.setBig(a[0], &Big{tFalse, r})
	}
	m[bigI+"Quo"], m[bigI+"Div"] = quo, quo
	m[bigI+"Rem"], m[bigI+"Mod"] = rem, rem
	dm := func(ex *Exec, st *State, a []Value) Value {
		q, r := divmod(st, st.nonneg(st.getBig(a[1])), st.nonneg(st.getBig(a[2])))
		st.setBig(a[0], &Big{tFalse, q})
		st.setBig(a[3], &Big{tFalse, r})
		return tup(a[0], a[3])
	}
	m[bigI+"QuoRem"], m[bigI+"DivMod"] = dm, dm
	bit := func(op Op) modelFn {
		return func(ex *Exec, st *State, a []Value) Value {
			return st.setBig(a[0], &Big{tFalse, mkBin(op, st.nonneg(st.getBig(a[1])), st.nonneg(st.getBig(a[2])))})
		}
	}
	m[bigI+"And"] = func(ex *Exec, st *State, a []Value) Value {
		x, y := st.getBig(a[1]), st.getBig(a[2])
		xn, yn := st.decide(x.neg), st.decide(y.neg)
		switch {
		case xn && yn:
			panic(unsupported{"And of two negative big.Ints"})
		case xn: // two's complement
			return st.setBig(a[0], &Big{tFalse, mkBin(OpBAnd, mkNeg(x.mag), y.mag)})
		case yn:
			return st.setBig(a[0], &Big{tFalse, mkBin(OpBAnd, mkNeg(y.mag), x.mag)})
		}
		return st.setBig(a[0], &Big{tFalse, mkBin(OpBAnd, x.mag, y.mag)})
	}
	m[bigI+"Or"] = bit(OpBOr)
	m[bigI+"Xor"] = bit(OpBXor)
	m[bigI+"AndNot"] = func(ex *Exec, st *State, a []Value) Value {
		return st.setBig(a[0], &Big{tFalse, mkBin(OpBAnd, st.nonneg(st.getBig(a[1])), mkBNot(st.nonneg(st.getBig(a[2]))))})
	}
	m[bigI+"Lsh"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[1])
		nt := st.simp(a[2].(*Term))
		if !nt.isConst() {
			if z := st.simp(b.mag); z.isConst() && z.val.Sign() == 0 {
				return st.setBig(a[0], b)
			}
			if w := bigW; st.proved(mkUle(mkAdd(mkBitlen(b.mag), nt), i64(int64(w)))) && st.proved(mkUle(nt, i64(int64(w)))) {
				return st.setBig(a[0], &Big{b.neg, mkShift(OpShl, b.mag, mkZext(nt, bigW))})
			}
		}
		n := st.shiftAmt(nt)
		if n == 0 {
			return st.setBig(a[0], b)
		}
		st.fitsBig(b.mag, n)
		return st.setBig(a[0], &Big{b.neg, mkShlC(b.mag, n)})
	}
	m[bigI+"Rsh"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[1])
		x := st.nonneg(b)
		nt := st.simp(a[2].(*Term))
		if !nt.isConst() {
			nn := mkIte(mkUlt(nt, i64(bigW)), nt, i64(bigW))
			return st.setBig(a[0], &Big{tFalse, mkShift(OpLshr, x, mkZext(nn, bigW))})
		}
		n := st.shiftAmt(nt)
		if n >= bigW {
			return st.setBig(a[0], bigConst(big0))
		}
		if n == 0 {
			return st.setBig(a[0], b)
		}
		return st.setBig(a[0], &Big{tFalse, mkLshrC(x, n)})
	}
	m[bigI+"Bit"] = func(ex *Exec, st *State, a []Value) Value {
		x := st.nonneg(st.getBig(a[0]))
		i := st.shiftAmt(a[1].(*Term))
		if i >= bigW {
			return i64(0)
		}
		return mkZext(mkExtract(i, i, x), 64)
	}
	m[bigI+"SetBit"] = func(ex *Exec, st *State, a []Value) Value {
		x := st.nonneg(st.getBig(a[1]))
		i := st.shiftAmt(a[2].(*Term))
		if i >= bigW {
			panic(unsupported{"SetBit beyond range"})
		}
		b := a[3].(*Term)
		mk := mkConst(pow2(i), bigW)
		cl := mkBin(OpBAnd, x, mkBNot(mk))
		r := mkBin(OpBOr, cl, mkShlC(zx(mkExtract(0, 0, b)), i))
		return st.setBig(a[0], &Big{tFalse, r})
	}
	m[bigI+"Uint64"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[0])
		l := mkExtract(63, 0, b.mag)
		return mkIte(b.neg, mkNeg(l), l)
	}
	m[bigI+"Int64"] = m[bigI+"Uint64"]
	m[bigI+"IsUint64"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[0])
		return mkAnd(mkNot(b.neg), mkUlt(b.mag, mkConst(pow2(64), bigW)))
	}
	m[bigI+"IsInt64"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[0])
		return mkOr(mkUlt(b.mag, mkConst(pow2(63), bigW)), mkAnd(b.neg, mkEq(b.mag, mkConst(pow2(63), bigW))))
	}
	m[bigI+"FillBytes"] = func(ex *Exec, st *State, a []Value) Value {
		mag := st.getBig(a[0]).mag
		d := a[1].(*Slice)
		if !st.simp(d.len).isConst() {
			// a buffer of exactly as many bytes as the value needs
			if r := mkMinbytes(mag); !r.fixed() && st.proved(mkEq(d.len, r.length())) {
				st.fill(d, r)
				return d
			}
		}
		n := int(st.concrete(d.len).Int64())
		if n == 0 {
			st.goPanicIf(mkNot(mkEq(mag, mkConst(big0, bigW))), "math/big: buffer too small to fit value")
			return d
		}
		if 8*n < bigW {
			st.goPanicIf(mkNot(mkUlt(mag, mkConst(pow2(8*n), bigW))), "math/big: buffer too small to fit value")
		}
		st.fill(d, ropeBV(mkZext(mag, 8*n)))
		return d
	}
	m[bigI+"Bytes"] = func(ex *Exec, st *State, a []Value) Value {
		r := mkMinbytes(st.getBig(a[0]).mag)
		s := st.newBytes(r)
		s.capUnk = true
		return s
	}
	m[bigI+"String"] = func(ex *Exec, st *State, a []Value) Value {
		b := st.getBig(a[0])
		return &Str{ropeAtom(mkUF("bigstr", SBytes, mkIte(b.neg, mkInt(1, 8), mkInt(0, 8)), b.mag))}
	}

	// ---------- math/bits, hash/crc32, hashes ----------
	for _, w := range []int{8, 16, 32, 64} {
		w := w
		m[fmt.Sprintf("math/bits.Len%d", w)] = func(ex *Exec, st *State, a []Value) Value { return mkBitlen(a[0].(*Term)) }
		m[fmt.Sprintf("math/bits.LeadingZeros%d", w)] = func(ex *Exec, st *State, a []Value) Value {
			return mkSub(i64(int64(w)), mkBitlen(a[0].(*Term)))
		}
	}
	m["math/bits.Len"] = m["math/bits.Len64"]
	m["math/bits.LeadingZeros"] = m["math/bits.LeadingZeros64"]
	crc := func(st *State, r Rope) *Term { return mkUF("crc32", 32, r.bytesTerm()) }
	m["hash/crc32.ChecksumIEEE"] = func(ex *Exec, st *State, a []Value) Value { return crc(st, sliceBytes(st, a[0])) }
	m["hash/crc32.Checksum"] = func(ex *Exec, st *State, a []Value) Value {
		if tabKind(st, a[1]) == "ieee" {
			return crc(st, sliceBytes(st, a[0]))
		}
		return mkUF("crc32:"+tabKind(st, a[1]), 32, sliceBytes(st, a[0]).bytesTerm())
	}
	m["hash/crc32.MakeTable"] = func(ex *Exec, st *State, a []Value) Value {
		k := st.concrete(a[0].(*Term))
		kind := "poly" + k.Text(16)
		if k.Uint64() == 0xedb88320 {
			kind = "ieee"
		}
		return &Ptr{obj: st.newObj(&ModelV{kind: kind, f: map[string]Value{}}, "crc table")}
	}
	m["hash/crc32.Update"] = func(ex *Exec, st *State, a []Value) Value {
		c := st.simp(a[0].(*Term))
		if c.isConst() && c.val.Sign() == 0 && tabKind(st, a[1]) == "ieee" {
			return crc(st, sliceBytes(st, a[2]))
		}
		return mkUF("crc32upd:"+tabKind(st, a[1]), 32, c, sliceBytes(st, a[2]).bytesTerm())
	}
	newHash := func(alg string) modelFn {
		return func(ex *Exec, st *State, a []Value) Value {
			return &Iface{typ: ex.modelType("hash"), v: &Ptr{obj: st.newObj(&HashV{alg: alg}, "hash")}}
		}
	}
	for k, alg := range map[string]string{"crypto/sha1.New": "sha1", "crypto/sha256.New": "sha256", "crypto/sha256.New224": "sha224",
		"crypto/sha512.New": "sha512", "crypto/sha512.New384": "sha384", "hash/crc32.NewIEEE": "crc32"} {
		m[k] = newHash(alg)
	}
	for k, alg := range map[string]string{"crypto/sha1.Sum": "sha1", "crypto/sha256.Sum256": "sha256", "crypto/sha256.Sum224": "sha224",
		"crypto/sha512.Sum512": "sha512", "crypto/sha512.Sum384": "sha384"} {
		alg := alg
		m[k] = func(ex *Exec, st *State, a []Value) Value {
			return &ByteArr{ropeBV(hashUF(alg, sliceBytes(st, a[0])))}
		}
	}
	getHash := func(st *State, v Value) *HashV { return st.load(v.(*Ptr)).(*HashV) }
	m["model:hash.Write"] = func(ex *Exec, st *State, a []Value) Value {
		h := getHash(st, a[0])
		r := sliceBytes(st, a[1])
		st.store(a[0].(*Ptr), &HashV{h.alg, ropeCat(h.r, r)})
		return tup(r.length(), nilErr)
	}
	m["model:hash.WriteString"] = m["model:hash.Write"]
	m["model:hash.Reset"] = func(ex *Exec, st *State, a []Value) Value {
		st.store(a[0].(*Ptr), &HashV{alg: getHash(st, a[0]).alg})
		return nil
	}
	m["model:hash.Size"] = func(ex *Exec, st *State, a []Value) Value { return i64(int64(hashSize[getHash(st, a[0]).alg])) }
	m["model:hash.BlockSize"] = func(ex *Exec, st *State, a []Value) Value {
		if s := getHash(st, a[0]).alg; s == "sha512" || s == "sha384" {
			return i64(128)
		}
		return i64(64)
	}
	m["model:hash.Sum"] = func(ex *Exec, st *State, a []Value) Value {
		h := getHash(st, a[0])
		d := st.newBytes(ropeBV(hashUF(h.alg, h.r)))
		return st.doAppend(a[1].(*Slice), d, types.NewSlice(types.Typ[types.Uint8]))
	}
	m["model:hash.Sum32"] = func(ex *Exec, st *State, a []Value) Value {
		h := getHash(st, a[0])
		return hashUF(h.alg, h.r)
	}

	// ---------- KDFs, curves, ciphers ----------
	m["golang.org/x/crypto/argon2.IDKey"] = func(ex *Exec, st *State, a []Value) Value {
		t, mem, thr := st.simp(a[2].(*Term)), st.simp(a[3].(*Term)), st.simp(a[4].(*Term))
		if st.decide(mkUlt(t, mkInt(1, 32))) {
			panic(goPanic{"argon2: number of rounds too small"})
		}
		if st.decide(mkUlt(thr, mkInt(1, 8))) {
			panic(goPanic{"argon2: parallelism degree too low"})
		}
		n := st.concrete(a[5].(*Term)).Int64()
		if n == 0 || n > 4096 {
			panic(unsupported{"argon2 output length"})
		}
		k := mkUF("argon2id"+strconv.FormatInt(n, 10), int(8*n), sliceBytes(st, a[0]).bytesTerm(), sliceBytes(st, a[1]).bytesTerm(), t, mem, thr)
		return st.newBytes(ropeBV(k))
	}
	m["golang.org/x/crypto/argon2.Key"] = func(ex *Exec, st *State, a []Value) Value {
		n := st.concrete(a[5].(*Term)).Int64()
		k := mkUF("argon2i"+strconv.FormatInt(n, 10), int(8*n), sliceBytes(st, a[0]).bytesTerm(), sliceBytes(st, a[1]).bytesTerm(), a[2].(*Term), a[3].(*Term), a[4].(*Term))
		return st.newBytes(ropeBV(k))
	}
	hashName := func(ex *Exec, st *State, v Value) string {
		c := v.(*Closure)
		if c.fn == nil {
			panic(goPanic{"nil hash constructor"})
		}
		switch c.fn.String() {
		case "crypto/sha256.New":
			return "sha256"
		case "crypto/sha512.New":
			return "sha512"
		case "crypto/sha512.New384":
			return "sha384"
		case "crypto/sha1.New":
			return "sha1"
		case "crypto/sha256.New224":
			return "sha224"
		}
		panic(unsupported{"hash constructor " + c.fn.String()})
	}
	hk := func(ex *Exec, st *State, h string, prk, info Rope) *Iface {
		return &Iface{typ: ex.modelType("hkdf"), v: &Ptr{obj: st.newObj(&ModelV{kind: "hkdf", f: map[string]Value{
			"h": h, "prk": prk, "info": info, "pos": 0}}, "hkdf")}}
	}
	m["golang.org/x/crypto/hkdf.Expand"] = func(ex *Exec, st *State, a []Value) Value {
		return hk(ex, st, hashName(ex, st, a[0]), sliceBytes(st, a[1]), sliceBytes(st, a[2]))
	}
	m["golang.org/x/crypto/hkdf.Extract"] = func(ex *Exec, st *State, a []Value) Value {
		h := hashName(ex, st, a[0])
		return st.newBytes(ropeBV(mkUF("hmac:"+h, hashSize[h]*8, sliceBytes(st, a[2]).bytesTerm(), sliceBytes(st, a[1]).bytesTerm())))
	}
	m["golang.org/x/crypto/hkdf.New"] = func(ex *Exec, st *State, a []Value) Value {
		h := hashName(ex, st, a[0])
		prk := ropeBV(mkUF("hmac:"+h, hashSize[h]*8, sliceBytes(st, a[2]).bytesTerm(), sliceBytes(st, a[1]).bytesTerm()))
		return hk(ex, st, h, prk, sliceBytes(st, a[3]))
	}
	m["model:hkdf.Read"] = func(ex *Exec, st *State, a []Value) Value {
		p := a[0].(*Ptr)
		o := st.load(p).(*ModelV)
		d := a[1].(*Slice)
		n := int(st.concrete(d.len).Int64())
		h := o.f["h"].(string)
		hs := hashSize[h]
		pos := o.f["pos"].(int)
		if pos+n > 255*hs {
			return tup(i64(0), ex.newErr("hkdf: entropy limit reached"))
		}
		if n > 0 {
			var ps []*Term
			for k := pos / hs; k*hs < pos+n; k++ {
				ps = append(ps, mkUF("hkdf:"+h, hs*8, o.f["prk"].(Rope).bytesTerm(), o.f["info"].(Rope).bytesTerm(), mkInt(int64(k), 16)))
			}
			r, _ := ropeBV(mkConcat(ps...)).split(st, i64(int64(pos%hs+n)))
			_, r = r.split(st, i64(int64(pos%hs)))
			st.fill(d, r)
		}
		nf := map[string]Value{}
		for k, v := range o.f {
			nf[k] = v
		}
		nf["pos"] = pos + n
		st.store(p, &ModelV{kind: "hkdf", f: nf})
		return tup(i64(int64(n)), nilErr)
	}
	m["crypto/ed25519.NewKeyFromSeed"] = func(ex *Exec, st *State, a []Value) Value {
		r := sliceBytes(st, a[0])
		st.goPanicIf(mkNot(mkEq(r.length(), i64(32))), "ed25519: bad seed length")
		s := st.ropeFixed(r, 32)
		return st.newBytes(ropeBV(mkConcat(s, mkUF("ed25519pub", 256, s))))
	}
	m["crypto/ed25519.Sign"] = func(ex *Exec, st *State, a []Value) Value {
		k := sliceBytes(st, a[0])
		st.goPanicIf(mkNot(mkEq(k.length(), i64(64))), "ed25519: bad private key length")
		return st.newBytes(ropeBV(mkUF("ed25519sign", 512, st.ropeFixed(k, 64), sliceBytes(st, a[1]).bytesTerm())))
	}
	x25519 := func(st *State, s *Term, p *Term) *Term {
		// little-endian scalar: clamp byte 0 and byte 31 (s is big-endian over the byte string)
		b0 := mkBin(OpBAnd, mkExtract(255, 248, s), mkInt(248, 8))
		mid := mkExtract(247, 8, s)
		b31 := mkBin(OpBOr, mkBin(OpBAnd, mkExtract(7, 0, s), mkInt(127, 8)), mkInt(64, 8))
		return mkUF("x25519", 256, mkConcat(b0, mid, b31), p)
	}
	m["golang.org/x/crypto/curve25519.X25519"] = func(ex *Exec, st *State, a []Value) Value {
		s, p := sliceBytes(st, a[0]), sliceBytes(st, a[1])
		bad := func() Value { return tup(nilSlice, ex.newErr("bad scalar or point length")) }
		if !st.decide(mkEq(s.length(), i64(32))) {
			return bad()
		}
		if !st.decide(mkEq(p.length(), i64(32))) {
			return bad()
		}
		pt := st.simp(st.ropeFixed(p, 32))
		r := x25519(st, st.ropeFixed(s, 32), pt)
		if !(pt.isConst() && pt.val.BitLen() == 252 && new(big.Int).Rsh(pt.val, 248).Int64() == 9) {
			if st.decide(mkEq(r, mkConst(big0, 256))) {
				return tup(nilSlice, ex.newErr("bad input point: low order point"))
			}
		}
		return tup(st.newBytes(ropeBV(r)), nilErr)
	}
	m["golang.org/x/crypto/curve25519.ScalarBaseMult"] = func(ex *Exec, st *State, a []Value) Value {
		s := st.load(a[1].(*Ptr)).(*ByteArr).r
		bp := new(big.Int).Lsh(big.NewInt(9), 248)
		st.store(a[0].(*Ptr), &ByteArr{ropeBV(x25519(st, st.ropeFixed(s, 32), mkConst(bp, 256)))})
		return nil
	}
	m["crypto/aes.NewCipher"] = func(ex *Exec, st *State, a []Value) Value {
		r := sliceBytes(st, a[0])
		l := r.length()
		if !st.decide(mkOr(mkEq(l, i64(16)), mkEq(l, i64(24)), mkEq(l, i64(32)))) {
			return tup(&Iface{}, ex.newErr("crypto/aes: invalid key size"))
		}
		return tup(&Iface{typ: ex.modelType("aes"), v: &Ptr{obj: st.newObj(&ModelV{kind: "aes", f: map[string]Value{"key": r}}, "aes")}}, nilErr)
	}
	m["model:aes.BlockSize"] = func(ex *Exec, st *State, a []Value) Value { return i64(16) }
	blk := func(uf string) modelFn {
		return func(ex *Exec, st *State, a []Value) Value {
			k := st.load(a[0].(*Ptr)).(*ModelV).f["key"].(Rope)
			d, s := a[1].(*Slice), a[2].(*Slice)
			st.goPanicIf(mkSlt(s.len, i64(16)), "crypto/aes: input not full block")
			st.goPanicIf(mkSlt(d.len, i64(16)), "crypto/aes: output not full block")
			in := st.ropeFixed(st.bytesOf(s).slice(st, i64(0), i64(16)), 16)
			st.fill(d, ropeBV(mkUFs(uf, 128, k.bytesTerm(), in)))
			return nil
		}
	}
	m["model:aes.Encrypt"] = blk("aesenc")
	m["model:aes.Decrypt"] = blk("aesdec")
	ufRebuild["aesenc"] = func(w int, a []*Term) *Term {
		if a[1].op == OpUF && a[1].name == "aesdec" && a[1].args[0] == a[0] {
			return a[1].args[1]
		}
		t := mkUF("aesenc", w, a...)
		if len(termFacts[t.id]) == 0 { // aesdec(k, aesenc(k, x)) = x
			addFact(t, intern(&Term{op: OpEq, w: SBool, args: []*Term{mkUF("aesdec", w, a[0], t), a[1]}}))
		}
		return t
	}
	ufRebuild["aesdec"] = func(w int, a []*Term) *Term {
		if a[1].op == OpUF && a[1].name == "aesenc" && a[1].args[0] == a[0] {
			return a[1].args[1]
		}
		t := mkUF("aesdec", w, a...)
		if len(termFacts[t.id]) == 0 { // aesenc(k, aesdec(k, x)) = x
			addFact(t, intern(&Term{op: OpEq, w: SBool, args: []*Term{mkUF("aesenc", w, a[0], t), a[1]}}))
		}
		return t
	}
	stream := func(kind string) modelFn {
		return func(ex *Exec, st *State, a []Value) Value {
			i := a[0].(*Iface)
			if i.typ == nil {
				panic(goPanic{"nil cipher.Block"})
			}
			b, ok := st.load(i.v.(*Ptr)).(*ModelV)
			if !ok || b.kind != "aes" {
				panic(unsupported{"stream over unknown block cipher"})
			}
			iv := sliceBytes(st, a[1])
			st.goPanicIf(mkNot(mkEq(iv.length(), i64(16))), "cipher: IV length must equal block size")
			return &Iface{typ: ex.modelType("stream"), v: &Ptr{obj: st.newObj(&ModelV{kind: kind, f: map[string]Value{"key": b.f["key"], "iv": st.ropeFixed(iv, 16), "used": false}}, "stream")}}
		}
	}
	m["crypto/cipher.NewCFBEncrypter"] = stream("cfb")
	m["crypto/cipher.NewCFBDecrypter"] = stream("cfbdec")
	m["crypto/cipher.NewCTR"] = stream("ctr")
	m["crypto/cipher.NewOFB"] = stream("ofb")
	m["model:stream.XORKeyStream"] = func(ex *Exec, st *State, a []Value) Value {
		p := a[0].(*Ptr)
		o := st.load(p).(*ModelV)
		d, s := a[1].(*Slice), sliceBytes(st, a[2])
		st.goPanicIf(mkSlt(d.len, s.length()), "crypto/cipher: output smaller than input")
		if o.f["used"].(bool) {
			panic(unsupported{"second XORKeyStream on one stream"})
		}
		nf := map[string]Value{}
		for k, v := range o.f {
			nf[k] = v
		}
		nf["used"] = true
		st.store(p, &ModelV{kind: o.kind, f: nf})
		if len(s.segs) == 0 {
			return nil
		}
		st.fill(d, ropeAtom(mkUFs(o.kind, SBytes, o.f["key"].(Rope).bytesTerm(), o.f["iv"].(*Term), s.bytesTerm())))
		return nil
	}
	ufRebuild["cfbdec"] = func(w int, a []*Term) *Term {
		if a[2].op == OpUF && a[2].name == "cfb" && a[2].args[0] == a[0] && a[2].args[1] == a[1] {
			return a[2].args[2]
		}
		return mkUF("cfbdec", w, a...)
	}
	randFill := func(ex *Exec, st *State, d *Slice) Value {
		if d.obj != 0 {
			if n := st.simp(d.len); n.isConst() {
				k := int(n.val.Int64())
				if k > 0 {
					r := ropeBV(mkVar(st.freshName(fmt.Sprintf("rand%d", k)), 8*k))
					st.notes = append(st.notes[:len(st.notes):len(st.notes)], note{"system random", Rope{}, r})
					st.fill(d, r)
				}
			} else {
				panic(unsupported{"rand.Read of symbolic length"})
			}
		}
		return tup(d.len, nilErr)
	}
	m["crypto/rand.Read"] = func(ex *Exec, st *State, a []Value) Value { return randFill(ex, st, a[0].(*Slice)) }
	m["model:cryptorand.Read"] = func(ex *Exec, st *State, a []Value) Value { return randFill(ex, st, a[1].(*Slice)) }

	// ---------- bytes.Buffer, strings.Builder ----------
	for _, T := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		get := func(st *State, v Value) *BufV {
			b, ok := st.load(v.(*Ptr)).(*BufV)
			if !ok {
				panic(unsupported{"buffer"})
			}
			return b
		}
		app := func(st *State, v Value, r Rope) { st.store(v.(*Ptr), &BufV{ropeCat(get(st, v).r, r)}) }
		wr := func(ex *Exec, st *State, a []Value) Value {
			r := sliceBytes(st, a[1])
			app(st, a[0], r)
			return tup(r.length(), nilErr)
		}
		m[T+"Write"], m[T+"WriteString"] = wr, wr
		m[T+"WriteByte"] = func(ex *Exec, st *State, a []Value) Value {
			app(st, a[0], ropeBV(a[1].(*Term)))
			return nilErr
		}
		m[T+"WriteRune"] = func(ex *Exec, st *State, a []Value) Value {
			r := a[1].(*Term)
			if !st.decide(mkUlt(r, mkInt(128, 32))) {
				panic(unsupported{"WriteRune non-ASCII"})
			}
			app(st, a[0], ropeBV(mkExtract(7, 0, r)))
			return tup(i64(1), nilErr)
		}
		m[T+"Bytes"] = func(ex *Exec, st *State, a []Value) Value {
			s := st.newBytes(get(st, a[0]).r)
			s.capUnk = true
			return s
		}
		m[T+"String"] = func(ex *Exec, st *State, a []Value) Value { return &Str{get(st, a[0]).r} }
		m[T+"Len"] = func(ex *Exec, st *State, a []Value) Value { return get(st, a[0]).r.length() }
		m[T+"Grow"] = func(ex *Exec, st *State, a []Value) Value {
			st.goPanicIf(mkSlt(a[1].(*Term), i64(0)), "negative count in Grow")
			return nil
		}
		m[T+"Reset"] = func(ex *Exec, st *State, a []Value) Value {
			st.store(a[0].(*Ptr), &BufV{})
			return nil
		}
	}
	m["bytes.NewBuffer"] = func(ex *Exec, st *State, a []Value) Value {
		return &Ptr{obj: st.newObj(&BufV{sliceBytes(st, a[0])}, "buffer")}
	}
	m["bytes.NewBufferString"] = m["bytes.NewBuffer"]
	m["bytes.Equal"] = func(ex *Exec, st *State, a []Value) Value {
		return ropeEq(sliceBytes(st, a[0]), sliceBytes(st, a[1]))
	}
	m["crypto/subtle.ConstantTimeCompare"] = func(ex *Exec, st *State, a []Value) Value {
		return mkIte(ropeEq(sliceBytes(st, a[0]), sliceBytes(st, a[1])), i64(1), i64(0))
	}
	m["bytes.Join"] = func(ex *Exec, st *State, a []Value) Value {
		var out Rope
		sep := sliceBytes(st, a[1])
		for i, e := range st.elems(a[0].(*Slice)) {
			if i > 0 {
				out = ropeCat(out, sep)
			}
			out = ropeCat(out, sliceBytes(st, e))
		}
		return st.newBytes(out)
	}
	m["bytes.Repeat"] = func(ex *Exec, st *State, a []Value) Value {
		return st.newBytes(st.repeat(sliceBytes(st, a[0]), a[1].(*Term)))
	}
	m["bytes.Clone"] = func(ex *Exec, st *State, a []Value) Value {
		s := a[0].(*Slice)
		if s.obj == 0 {
			return s
		}
		return st.newBytes(st.bytesOf(s))
	}

	// ---------- armor ----------
	m["golang.org/x/crypto/openpgp/armor.Encode"] = func(ex *Exec, st *State, a []Value) Value {
		i := a[0].(*Iface)
		p, ok := i.v.(*Ptr)
		if !ok {
			panic(unsupported{"armor target"})
		}
		if _, ok := st.load(p).(*BufV); !ok {
			panic(unsupported{"armor target"})
		}
		bt, ok := constArg(a[1])
		if !ok {
			panic(unsupported{"armor type"})
		}
		if mr, ok := a[2].(*MapRef); !ok || (mr.obj != 0 && len(st.obj(mr.obj).val.(*MapV).keys) > 0) {
			panic(unsupported{"armor headers"})
		}
		return tup(&Iface{typ: ex.modelType("armor"), v: &Ptr{obj: st.newObj(&ModelV{kind: "armor", f: map[string]Value{"w": p, "t": bt, "r": Rope{}}}, "armor")}}, nilErr)
	}
	m["model:armor.Write"] = func(ex *Exec, st *State, a []Value) Value {
		p := a[0].(*Ptr)
		o := st.load(p).(*ModelV)
		r := sliceBytes(st, a[1])
		st.store(p, &ModelV{kind: "armor", f: map[string]Value{"w": o.f["w"], "t": o.f["t"], "r": ropeCat(o.f["r"].(Rope), r)}})
		return tup(r.length(), nilErr)
	}
	m["model:armor.Close"] = func(ex *Exec, st *State, a []Value) Value {
		o := st.load(a[0].(*Ptr)).(*ModelV)
		w := o.f["w"].(*Ptr)
		b := st.load(w).(*BufV)
		st.store(w, &BufV{ropeCat(b.r, ropeAtom(mkUF("armor:"+o.f["t"].(string), SBytes, o.f["r"].(Rope).bytesTerm())))})
		return nilErr
	}

	// ---------- errors, fmt ----------
	m["fmt.Errorf"] = func(ex *Exec, st *State, a []Value) Value {
		f, ok := constArg(a[0])
		if !ok {
			f = "%w"
		}
		args := st.elems(a[1].(*Slice))
		var wr []Value
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] == '%' {
				i++
				if f[i] == '%' {
					continue
				}
				for i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] == 'w' && n < len(args) {
					wr = append(wr, args[n])
				}
				n++
			}
		}
		return ex.newErr("errorf", wr...)
	}
	m["errors.Is"] = func(ex *Exec, st *State, a []Value) Value {
		return st.errIs(a[0].(*Iface), a[1].(*Iface))
	}
	m["errors.Unwrap"] = func(ex *Exec, st *State, a []Value) Value {
		i := a[0].(*Iface)
		if mv, ok := i.v.(*ModelV); ok {
			if w, ok := mv.f["wraps"].([]Value); ok && len(w) == 1 {
				return w[0]
			}
		}
		return &Iface{}
	}
	m["model:err.Error"] = func(ex *Exec, st *State, a []Value) Value {
		return &Str{ropeAtom(mkVar(st.freshName("errmsg"), SBytes))}
	}
	m["fmt.Sprintf"] = func(ex *Exec, st *State, a []Value) Value { return &Str{st.format(a[0], a[1])} }
	m["fmt.Sprint"] = func(ex *Exec, st *State, a []Value) Value { return &Str{st.sprint(a[0], false)} }
	m["fmt.Sprintln"] = func(ex *Exec, st *State, a []Value) Value { return &Str{st.sprint(a[0], true)} }

	// ---------- strings, strconv ----------
	m["strings.ToLower"] = func(ex *Exec, st *State, a []Value) Value { return &Str{st.lower(strOf(a[0]))} }
	m["strings.ToUpper"] = func(ex *Exec, st *State, a []Value) Value {
		if c, ok := constArg(a[0]); ok {
			return &Str{ropeStr(strings.ToUpper(c))}
		}
		return &Str{ropeAtom(mkUF("upper", SBytes, strOf(a[0]).bytesTerm()))}
	}
	m["strings.EqualFold"] = func(ex *Exec, st *State, a []Value) Value {
		panic(unsupported{"EqualFold"})
	}
	m["strings.TrimSpace"] = func(ex *Exec, st *State, a []Value) Value {
		r := strOf(a[0])
		if c, ok := r.constStr(); ok {
			return &Str{ropeStr(strings.TrimSpace(c))}
		}
		if isWordRope(r) {
			return a[0]
		}
		return &Str{ropeOfTerm(mkUFs("trimspace", SBytes, r.bytesTerm()))}
	}
	ufRebuild["trimspace"] = func(w int, a []*Term) *Term {
		if a[0].op == OpUF && (a[0].name == "trimspace" || a[0].name == "word" || a[0].name == "empty") {
			return a[0]
		}
		if c, ok := ropeOfTerm(a[0]).constStr(); ok {
			return ropeStr(strings.TrimSpace(c)).bytesTerm()
		}
		return mkUF("trimspace", w, a...)
	}
	m["strings.Repeat"] = func(ex *Exec, st *State, a []Value) Value {
		return &Str{st.repeat(strOf(a[0]), a[1].(*Term))}
	}
	m["strings.Join"] = func(ex *Exec, st *State, a []Value) Value {
		var out Rope
		for i, e := range st.elems(a[0].(*Slice)) {
			if i > 0 {
				out = ropeCat(out, strOf(a[1]))
			}
			out = ropeCat(out, strOf(e))
		}
		return &Str{out}
	}
	m["strings.Split"] = func(ex *Exec, st *State, a []Value) Value {
		r := strOf(a[0])
		sep, ok := constArg(a[1])
		if !ok || sep == "" {
			panic(unsupported{"strings.Split"})
		}
		if wordsOnly(r) && strings.Trim(sep, "abcdefghijklmnopqrstuvwxyz") == sep {
			return st.newSlice(splitWords(r, func(s string) []string { return strings.Split(s, sep) }))
		}
		l := st.keyedList("split:"+sep, r)
		st.assume(mkSle(i64(1), l.len))
		return l
	}
	m["strings.Fields"] = func(ex *Exec, st *State, a []Value) Value {
		r := strOf(a[0])
		if wordsOnly(r) {
			return st.newSlice(splitWords(r, strings.Fields))
		}
		if len(r.segs) == 1 && r.segs[0].atom != nil && r.segs[0].atom.op == OpUF && r.segs[0].atom.name == "lower" {
			// lower case moves no white space
			l := st.keyedList("fields", ropeOfTerm(r.segs[0].atom.args[0]))
			st.obj(l.obj).val.(*SymList).low = true
			return l
		}
		return st.keyedList("fields", r)
	}
	m["strings.HasPrefix"] = func(ex *Exec, st *State, a []Value) Value {
		s, p := strOf(a[0]), strOf(a[1])
		if !st.decide(mkSle(p.length(), s.length())) {
			return tFalse
		}
		return ropeEq(s.slice(st, i64(0), p.length()), p)
	}
	m["strings.HasSuffix"] = func(ex *Exec, st *State, a []Value) Value {
		s, p := strOf(a[0]), strOf(a[1])
		if !st.decide(mkSle(p.length(), s.length())) {
			return tFalse
		}
		return ropeEq(s.slice(st, mkSub(s.length(), p.length()), p.length()), p)
	}
	m["strings.TrimSuffix"] = func(ex *Exec, st *State, a []Value) Value {
		s, p := strOf(a[0]), strOf(a[1])
		if !st.decide(mkSle(p.length(), s.length())) {
			return a[0]
		}
		if st.decide(ropeEq(s.slice(st, mkSub(s.length(), p.length()), p.length()), p)) {
			return &Str{s.slice(st, i64(0), mkSub(s.length(), p.length()))}
		}
		return a[0]
	}
	m["strings.TrimPrefix"] = func(ex *Exec, st *State, a []Value) Value {
		s, p := strOf(a[0]), strOf(a[1])
		if !st.decide(mkSle(p.length(), s.length())) {
			return a[0]
		}
		if st.decide(ropeEq(s.slice(st, i64(0), p.length()), p)) {
			return &Str{s.slice(st, p.length(), mkSub(s.length(), p.length()))}
		}
		return a[0]
	}
	m["internal/bytealg.IndexByteString"] = func(ex *Exec, st *State, a []Value) Value {
		c, ok := constArg(a[0])
		b := a[1].(*Term)
		if !ok || !b.isConst() {
			panic(unsupported{"IndexByteString"})
		}
		return i64(int64(strings.IndexByte(c, byte(b.val.Uint64()))))
	}
	m["strings.Clone"] = func(ex *Exec, st *State, a []Value) Value { return a[0] }
	m["internal/stringslite.Clone"] = m["strings.Clone"]
	m["strconv.Itoa"] = func(ex *Exec, st *State, a []Value) Value { return &Str{itoa(a[0].(*Term))} }
	m["strconv.ParseUint"] = func(ex *Exec, st *State, a []Value) Value {
		base, bits := st.concrete(a[1].(*Term)).Int64(), st.concrete(a[2].(*Term)).Int64()
		if s, ok := constArg(a[0]); ok {
			v, err := strconv.ParseUint(s, int(base), int(bits))
			e := nilErr
			if err != nil {
				e = ex.newErr("strconv")
			}
			return tup(mkConst(new(big.Int).SetUint64(v), 64), e)
		}
		shortText(strOf(a[0]))
		b := strOf(a[0]).bytesTerm()
		nm := fmt.Sprintf("parseuint%d_%d", base, bits)
		okT := mkUF(nm+"_ok", SBool, b)
		v := mkUF(nm, 64, b)
		if bits > 0 && bits < 64 {
			setBound(v, big0, maskOf(int(bits)))
		}
		addFact(okT, mkNot(mkEq(b, mkUF("empty", SBytes))))
		if st.decide(okT) {
			return tup(v, nilErr)
		}
		return tup(mkUF(nm+"_bad", 64, b), ex.newErr("strconv"))
	}
	parseInt := func(base, bits int64, ex *Exec, st *State, s Value) Value {
		if c, ok := constArg(s); ok {
			v, err := strconv.ParseInt(c, int(base), int(bits))
			e := nilErr
			if err != nil {
				e = ex.newErr("strconv")
			}
			return tup(i64(v), e)
		}
		shortText(strOf(s))
		b := strOf(s).bytesTerm()
		nm := fmt.Sprintf("parseint%d_%d", base, bits)
		okT := mkUF(nm+"_ok", SBool, b)
		if st.decide(okT) {
			return tup(mkUF(nm, 64, b), nilErr)
		}
		return tup(mkUF(nm+"_bad", 64, b), ex.newErr("strconv"))
	}
	m["strconv.ParseInt"] = func(ex *Exec, st *State, a []Value) Value {
		return parseInt(st.concrete(a[1].(*Term)).Int64(), st.concrete(a[2].(*Term)).Int64(), ex, st, a[0])
	}
	m["strconv.Atoi"] = func(ex *Exec, st *State, a []Value) Value { return parseInt(10, 64, ex, st, a[0]) }
	m["math/big.init"] = func(ex *Exec, st *State, a []Value) Value { return nil }
}

func tabKind(st *State, v Value) string {
	p := v.(*Ptr)
	if p.obj == 0 {
		panic(goPanic{"nil crc32 table"})
	}
	if mv, ok := st.load(p).(*ModelV); ok {
		return mv.kind
	}
	panic(unsupported{"crc32 table"})
}

var hashSize = map[string]int{"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "crc32": 4}

func hashUF(alg string, r Rope) *Term { return mkUF(alg, hashSize[alg]*8, r.bytesTerm()) }

// ropeFixed gives the n-byte rope as one bit-vector.
func (st *State) ropeFixed(r Rope, n int) *Term {
	if b := r.asBV(); b != nil && b.w == 8*n {
		return b
	}
	if len(r.segs) == 1 && r.segs[0].atom != nil {
		// an opaque string of known length
		a := r.segs[0].atom
		t := mkUF("unbytes", 8*n, a)
		if a.op == OpUF && strings.HasPrefix(a.name, "bytes_") {
			return a.args[0]
		}
		addFact(t, mkImplies(mkEq(lenOf(a), i64(int64(n))), intern(&Term{op: OpEq, w: SBool, args: []*Term{mkBytesN(t), a}})))
		return t
	}
	var ps []*Term
	for i := 0; i < n; i++ {
		ps = append(ps, r.at(st, i64(int64(i))))
	}
	return mkConcat(ps...)
}

func (st *State) repeat(r Rope, n *Term) Rope {
	st.goPanicIf(mkSlt(n, i64(0)), "negative Repeat count")
	n = st.simp(n)
	if n.isConst() && n.val.Cmp(big.NewInt(4096)) <= 0 {
		var out Rope
		for i := int64(0); i < n.val.Int64(); i++ {
			out = ropeCat(out, r)
		}
		return out
	}
	return mkRep(r, n)
}

// mkRep: r repeated n times (n >= 0)
func mkRep(r Rope, n *Term) Rope {
	if len(r.segs) == 0 || (n.isConst() && n.val.Sign() == 0) {
		return Rope{}
	}
	if n.isConst() && n.val.Cmp(big1) == 0 {
		return r
	}
	t := mkUF("rep", SBytes, r.bytesTerm(), n)
	return ropeAtom(t)
}

func (st *State) errIs(e, target *Iface) *Term {
	if e.typ == nil || target.typ == nil {
		return mkBool(e.typ == nil && target.typ == nil)
	}
	if types.Identical(e.typ, target.typ) {
		if _, m := modelKind(e.typ); m {
			if e.v == target.v {
				return tTrue
			}
		} else if c := st.equal(e.v, target.v); c == tTrue {
			return tTrue
		} else if c != tFalse {
			panic(unsupported{"symbolic error comparison"})
		}
	}
	if mv, ok := e.v.(*ModelV); ok {
		if ws, ok := mv.f["wraps"].([]Value); ok {
			for _, w := range ws {
				if wi, ok := w.(*Iface); ok && st.errIs(wi, target) == tTrue {
					return tTrue
				}
			}
		}
	}
	return tFalse
}

// useBody: the model declines, the real body is executed.
type useBody struct{}

// shortText: numbers of known, small length are parsed by the real code.
func shortText(r Rope) {
	if l := r.length(); l.isConst() && l.val.IsInt64() && l.val.Int64() <= 24 {
		panic(useBody{})
	}
}

func itoa(t *Term) Rope {
	if t.isConst() {
		return ropeStr(toSigned(t).String())
	}
	return ropeAtom(mkUF("itoa", SBytes, mkSext(t, 64)))
}

func (st *State) fmtVal(v Value, verb byte) Rope {
	i, ok := v.(*Iface)
	if !ok {
		panic(unsupported{"fmt argument"})
	}
	if i.typ == nil {
		return ropeStr("<nil>")
	}
	opaque := func(args ...*Term) Rope {
		return ropeAtom(mkUF("fmt:"+string(verb)+":"+i.typ.String(), SBytes, args...))
	}
	hasStringer := func() bool {
		ms := types.NewMethodSet(i.typ)
		return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
	}
	switch x := i.v.(type) {
	case *Str:
		if (verb == 's' || verb == 'v') && !hasStringer() {
			return x.r
		}
		if c, ok := x.r.constStr(); ok && verb == 'q' {
			return ropeStr(strconv.Quote(c))
		}
		return opaque(x.r.bytesTerm())
	case *Slice:
		if x.obj == 0 || isByteSlice(i.typ) {
			r := st.bytesOf(x)
			if verb == 's' {
				return r
			}
			return opaque(r.bytesTerm())
		}
	case *Term:
		if x.w == SBool {
			return opaque(mkIte(x, mkInt(1, 8), mkInt(0, 8)))
		}
		if b, ok := i.typ.Underlying().(*types.Basic); ok && (verb == 'd' || verb == 'v') && !hasStringer() {
			_, signed := intWidth(b)
			if x.isConst() && !signed {
				return ropeStr(x.val.String())
			}
			if signed || x.w < 64 {
				if signed {
					return itoa(mkSext(x, 64))
				}
				return itoa(mkZext(x, 64))
			}
		}
		return opaque(x)
	}
	return ropeAtom(mkVar(st.freshName("fmt"), SBytes))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(s.Elem())
}

func (st *State) format(fv, av Value) Rope {
	f, ok := constArg(fv)
	if !ok {
		return ropeAtom(mkVar(st.freshName("fmt"), SBytes))
	}
	args := st.elems(av.(*Slice))
	var out Rope
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = ropeCat(out, ropeStr(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = ropeCat(out, ropeStr("%"))
			continue
		}
		flags := ""
		for i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
			flags += string(f[i])
			i++
		}
		if n >= len(args) || i >= len(f) {
			out = ropeCat(out, ropeAtom(mkVar(st.freshName("fmt"), SBytes)))
			continue
		}
		r := st.fmtVal(args[n], f[i])
		n++
		if flags != "" {
			r = ropeAtom(mkUF("fmtflag:"+flags, SBytes, r.bytesTerm()))
		}
		out = ropeCat(out, r)
	}
	return out
}

func (st *State) sprint(av Value, ln bool) Rope {
	args := st.elems(av.(*Slice))
	var out Rope
	for i, a := range args {
		if i > 0 && ln {
			out = ropeCat(out, ropeStr(" "))
		} else if i > 0 {
			_, s1 := a.(*Iface).v.(*Str)
			_, s0 := args[i-1].(*Iface).v.(*Str)
			if !s1 && !s0 {
				out = ropeCat(out, ropeStr(" "))
			}
		}
		out = ropeCat(out, st.fmtVal(a, 'v'))
	}
	if ln {
		out = ropeCat(out, ropeStr("\n"))
	}
	return out
}

// ---------- word list ----------

func wordTerm(i12 *Term) *Term {
	t := mkUF("word", SBytes, i12)
	if _, ok := termFacts[t.id]; !ok {
		addFact(t, mkUF("inlist", SBool, t))
		addFact(t, intern(&Term{op: OpEq, w: SBool, args: []*Term{mkUF("widx", 12, t), i12}}))
		if i12.isConst() {
			if l := ropeStr(theWords[i12.val.Int64()]).bytesTerm(); l != t {
				addFact(t, intern(&Term{op: OpEq, w: SBool, args: sortTwo(t, l)}))
			}
		}
	}
	return t
}

func isWordRope(r Rope) bool {
	return len(r.segs) == 1 && r.segs[0].atom != nil && r.segs[0].atom.name == "word"
}

func wordAt(idx *Term) Value {
	i := mkExtract(11, 0, idx)
	return &Str{ropeAtom(wordTerm(i))}
}

func wordLookup(st *State, r Rope) (*Term, *Term) {
	if c, ok := r.constStr(); ok {
		if i, ok := theWordIdx[c]; ok {
			return tTrue, mkInt(int64(i), 12)
		}
		return tFalse, mkInt(0, 12)
	}
	b := r.bytesTerm()
	if b.op == OpUF && b.name == "word" {
		return tTrue, b.args[0]
	}
	in := mkUFs("inlist", SBool, b)
	ix := mkUFs("widx", 12, b)
	if ix.op != OpUF {
		return in, ix
	}
	if len(termFacts[ix.id]) == 0 {
		w := mkUF("word", SBytes, ix)
		// a member of the list is the word at its index
		addFact(ix, mkImplies(in, intern(&Term{op: OpEq, w: SBool, args: sortTwo(w, b)})))
		// words are not empty
		addFact(in, mkImplies(in, mkUlt(i64(0), lenOf(b))))
	}
	return in, ix
}

func sortTwo(a, b *Term) []*Term {
	if a.id < b.id {
		return []*Term{a, b}
	}
	return []*Term{b, a}
}

func (st *State) lower(r Rope) Rope {
	if c, ok := r.constStr(); ok {
		return ropeStr(strings.ToLower(c))
	}
	if isWordRope(r) {
		return r
	}
	if wordsOnly(r) {
		var out []Rope
		for _, s := range r.segs {
			out = append(out, st.lower(Rope{[]Seg{s}}))
		}
		return ropeCat(out...)
	}
	if b := r.asBV(); b != nil && b.w == 8 { // one ASCII byte
		if st.decide(mkUlt(b, mkInt(0x80, 8))) {
			up := mkAnd(mkUle(mkInt('A', 8), b), mkUle(b, mkInt('Z', 8)))
			return ropeBV(mkIte(up, mkAdd(b, mkInt(32, 8)), b))
		}
		return ropeStr("\uFFFD")
	}
	return ropeOfTerm(mkUFs("lower", SBytes, r.bytesTerm()))
}

func init() {
	ufRebuild["lower"] = func(w int, a []*Term) *Term {
		if a[0].op == OpUF && (a[0].name == "lower" || a[0].name == "word" || a[0].name == "empty") {
			return a[0]
		}
		if c, ok := ropeOfTerm(a[0]).constStr(); ok {
			return ropeStr(strings.ToLower(c)).bytesTerm()
		}
		t := mkUF("lower", w, a...)
		if len(termFacts[t.id]) == 0 {
			// words of the list are lower case
			addFact(t, mkImplies(mkUF("inlist", SBool, a[0]), intern(&Term{op: OpEq, w: SBool, args: sortTwo(t, a[0])})))
		}
		return t
	}
	ufRebuild["widx"] = func(w int, a []*Term) *Term {
		if a[0].op == OpUF && a[0].name == "word" {
			return a[0].args[0]
		}
		if c, ok := ropeOfTerm(a[0]).constStr(); ok {
			if i, ok := theWordIdx[c]; ok {
				return mkInt(int64(i), 12)
			}
		}
		return mkUF("widx", w, a...)
	}
	ufRebuild["inlist"] = func(w int, a []*Term) *Term {
		if a[0].op == OpUF && a[0].name == "word" {
			return tTrue
		}
		if c, ok := ropeOfTerm(a[0]).constStr(); ok {
			_, ok := theWordIdx[c]
			return mkBool(ok)
		}
		return mkUF("inlist", w, a...)
	}
	ufRebuild["word"] = func(w int, a []*Term) *Term {
		return wordTerm(a[0])
	}
	ufRebuild["rep"] = func(w int, a []*Term) *Term { return mkRep(ropeOfTerm(a[0]), a[1]).bytesTerm() }
}

// ---------- time ----------

const e9 = 1000000000

func (st *State) durSplit(d *Term) (*Term, *Term) { // floor seconds and remaining nanoseconds
	d = st.simp(d)
	if d.isConst() {
		q, r := new(big.Int).DivMod(toSigned(d), big.NewInt(e9), new(big.Int))
		return mkConst(q, 64), mkConst(r, 64)
	}
	if q, r := st.divSplit(d, i64(e9)); q != nil {
		return q, r
	}
	if st.decide(mkSle(i64(0), d)) {
		return mkUDiv(d, i64(e9)), mkURem(d, i64(e9))
	}
	n := mkNeg(d) // positive (or 2^63)
	q, r := mkUDiv(n, i64(e9)), mkURem(n, i64(e9))
	if st.decide(mkEq(r, i64(0))) {
		return mkNeg(q), i64(0)
	}
	return mkSub(mkNeg(q), i64(1)), mkSub(i64(e9), r)
}

func (st *State) timeAdd(t *TimeV, d *Term) *TimeV {
	q, r := st.durSplit(d)
	ns := mkAdd(t.nsec, r)
	if st.decide(mkUlt(ns, i64(e9))) {
		return &TimeV{mkAdd(t.sec, q), ns}
	}
	return &TimeV{mkAdd(mkAdd(t.sec, q), i64(1)), mkSub(ns, i64(e9))}
}

func timeLess(a, b *TimeV) *Term {
	return mkOr(mkSlt(a.sec, b.sec), mkAnd(mkEq(a.sec, b.sec), mkUlt(a.nsec, b.nsec)))
}
func timeEq(a, b *TimeV) *Term { return mkAnd(mkEq(a.sec, b.sec), mkEq(a.nsec, b.nsec)) }

var maxDurSec = int64(9223372036)

func (st *State) timeSub(a, b *TimeV) *Term {
	ds := mkSub(a.sec, b.sec)
	// seconds in the modelled time range never wrap
	if st.decide(mkAnd(mkSle(i64(-maxDurSec+2), ds), mkSle(ds, i64(maxDurSec-2)))) {
		return mkAdd(mkMul(ds, i64(e9)), mkSub(a.nsec, b.nsec))
	}
	if st.decide(mkSlt(ds, i64(-maxDurSec-2))) {
		return mkConst(new(big.Int).Neg(pow2(63)), 64)
	}
	if st.decide(mkSlt(i64(maxDurSec+2), ds)) {
		return mkConst(maskOf(63), 64)
	}
	// at the very edge of the representable range
	return mkUF("dur_edge", 64, ds, a.nsec, b.nsec)
}

func init() {
	m := models
	T := "(time.Time)."
	tv := func(st *State, v Value) *TimeV {
		switch x := v.(type) {
		case *TimeV:
			return x
		case *Ptr:
			return st.load(x).(*TimeV)
		}
		panic(unsupported{fmt.Sprintf("time value %T", v)})
	}
	m["time.Date"] = func(ex *Exec, st *State, a []Value) Value {
		var c [7]int
		for i := 0; i < 7; i++ {
			t := a[i].(*Term)
			if !t.isConst() {
				panic(unsupported{"time.Date of unknowns"})
			}
			c[i] = int(toSigned(t).Int64())
		}
		if p, ok := a[7].(*Ptr); !ok || p.obj == 0 || p.obj != permID("time.utcLoc") {
			panic(unsupported{"time.Date outside UTC"})
		}
		d := time.Date(c[0], time.Month(c[1]), c[2], c[3], c[4], c[5], c[6], time.UTC)
		return &TimeV{i64(d.Unix()), i64(int64(d.Nanosecond()))}
	}
	m["time.Unix"] = func(ex *Exec, st *State, a []Value) Value {
		return st.timeAdd(&TimeV{a[0].(*Term), i64(0)}, a[1].(*Term))
	}
	m["time.Now"] = func(ex *Exec, st *State, a []Value) Value {
		s := mkVar(st.freshName("now_sec"), 64)
		n := mkVar(st.freshName("now_nsec"), 64)
		setBound(n, big0, big.NewInt(e9-1))
		setBound(s, big0, big.NewInt(1<<40))
		if last, ok := st.ghost["clock"].(*Term); ok { // the clock is not set back
			st.assume(mkUle(last, s))
		}
		st.ghost["clock"] = s
		return &TimeV{s, n}
	}
	m["time.Since"] = func(ex *Exec, st *State, a []Value) Value { return mkVar(st.freshName("since"), 64) }
	id := func(ex *Exec, st *State, a []Value) Value { return tv(st, a[0]) }
	m[T+"UTC"], m[T+"Local"], m[T+"In"] = id, id, id
	m[T+"Unix"] = func(ex *Exec, st *State, a []Value) Value { return tv(st, a[0]).sec }
	m[T+"Nanosecond"] = func(ex *Exec, st *State, a []Value) Value { return tv(st, a[0]).nsec }
	m[T+"UnixNano"] = func(ex *Exec, st *State, a []Value) Value {
		t := tv(st, a[0])
		return mkAdd(mkMul(t.sec, i64(e9)), t.nsec)
	}
	m[T+"UnixMilli"] = func(ex *Exec, st *State, a []Value) Value {
		t := tv(st, a[0])
		return mkAdd(mkMul(t.sec, i64(1000)), mkUDiv(t.nsec, i64(1000000)))
	}
	m[T+"Add"] = func(ex *Exec, st *State, a []Value) Value { return st.timeAdd(tv(st, a[0]), a[1].(*Term)) }
	m[T+"Sub"] = func(ex *Exec, st *State, a []Value) Value { return st.timeSub(tv(st, a[0]), tv(st, a[1])) }
	m[T+"After"] = func(ex *Exec, st *State, a []Value) Value { return timeLess(tv(st, a[1]), tv(st, a[0])) }
	m[T+"Before"] = func(ex *Exec, st *State, a []Value) Value { return timeLess(tv(st, a[0]), tv(st, a[1])) }
	m[T+"Equal"] = func(ex *Exec, st *State, a []Value) Value { return timeEq(tv(st, a[0]), tv(st, a[1])) }
	m[T+"Compare"] = func(ex *Exec, st *State, a []Value) Value {
		x, y := tv(st, a[0]), tv(st, a[1])
		return mkIte(timeEq(x, y), i64(0), mkIte(timeLess(x, y), i64(-1), i64(1)))
	}
	m[T+"IsZero"] = func(ex *Exec, st *State, a []Value) Value { return timeEq(tv(st, a[0]), zeroTime()) }
	m[T+"Truncate"] = func(ex *Exec, st *State, a []Value) Value {
		t := tv(st, a[0])
		d := st.simp(a[1].(*Term))
		if d.isConst() && d.val.Int64() == e9 {
			return &TimeV{t.sec, i64(0)}
		}
		panic(unsupported{"Time.Truncate"})
	}
	m[T+"Format"] = func(ex *Exec, st *State, a []Value) Value {
		t := tv(st, a[0])
		return &Str{ropeAtom(mkUF("timefmt", SBytes, t.sec, t.nsec, strOf(a[1]).bytesTerm()))}
	}
	m[T+"String"] = func(ex *Exec, st *State, a []Value) Value {
		t := tv(st, a[0])
		return &Str{ropeAtom(mkUF("timestr", SBytes, t.sec, t.nsec))}
	}
	D := "(time.Duration)."
	m[D+"Seconds"] = func(ex *Exec, st *State, a []Value) Value { return &Float{dur: a[0].(*Term)} }
	m[D+"Nanoseconds"] = func(ex *Exec, st *State, a []Value) Value { return a[0] }
	m[D+"String"] = func(ex *Exec, st *State, a []Value) Value {
		return &Str{ropeAtom(mkUF("durstr", SBytes, a[0].(*Term)))}
	}
}

// ---------- extern globals ----------

var permIDs = map[string]ObjID{}

func permID(name string) ObjID {
	if id, ok := permIDs[name]; ok {
		return id
	}
	id := ObjID(-1000000 - len(permIDs))
	permIDs[name] = id
	return id
}
func (st *State) perm(name string, v Value) ObjID {
	id := permID(name)
	if st.heap[id] == nil {
		st.heap[id] = &Obj{val: v, what: name}
	}
	return id
}

func (ex *Exec) externGlobal(st *State, g *ssa.Global, t types.Type) Value {
	name := g.String()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + g.Name()
	}
	if x := strings.TrimPrefix(name, "os.Err"); x != name && (x == "NotExist" || x == "Exist" || x == "Permission" || x == "Invalid" || x == "Closed") {
		name = "io/fs.Err" + x
	}
	switch name {
	case "github.com/kklash/wordlist4096.WordList":
		id := st.perm(name, &WordListV{})
		return &Slice{obj: id, off: i64(0), len: i64(4096), cap: i64(4096)}
	case "github.com/kklash/wordlist4096.WordMap":
		return &MapRef{st.perm(name, &WordMapV{})}
	case "golang.org/x/crypto/curve25519.Basepoint":
		bp := new(big.Int).Lsh(big.NewInt(9), 248)
		id := st.perm(name, &ByteArr{ropeBV(mkConst(bp, 256))})
		return &Slice{obj: id, off: i64(0), len: i64(32), cap: i64(32)}
	case "crypto/rand.Reader":
		return &Iface{typ: ex.modelType("cryptorand"), v: &Ptr{obj: st.perm(name, &ModelV{kind: "cryptorand"})}}
	case "hash/crc32.IEEETable":
		return &Ptr{obj: st.perm(name, &ModelV{kind: "ieee"})}
	case "time.UTC":
		return &Ptr{obj: st.perm("time.utcLoc", &ModelV{kind: "loc"})}
	case "time.Local":
		return &Ptr{obj: st.perm("time.localLoc", &ModelV{kind: "loc"})}
	case "encoding/binary.BigEndian", "encoding/binary.LittleEndian":
		return zeroVal(t)
	case "os.Stdin", "os.Stdout", "os.Stderr":
		return &Ptr{obj: st.perm(name, &ModelV{kind: "file", f: map[string]Value{"name": name}})}
	case "os.Interrupt", "os.Kill":
		return &Iface{typ: ex.modelType("signal:" + name), v: i64(0)}
	case "os.Args":
		panic(unsupported{"os.Args"})
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return &Iface{typ: ex.modelType("err:" + name), v: i64(0)}
	}
	// scalar set once in the package initialiser
	if g.Pkg != nil {
		if init := g.Pkg.Func("init"); init != nil {
			var val *ssa.Const
			n := 0
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						n++
						val, _ = s.Val.(*ssa.Const)
					}
				}
			}
			if n == 1 && val != nil {
				return constVal(val)
			}
		}
	}
	panic(unsupported{"global " + name})
}

func modelImplements(kind string, t types.Type) bool {
	switch kind {
	case "err":
		return typeName(t) == "error"
	}
	if strings.HasPrefix(kind, "err:") {
		return typeName(t) == "error"
	}
	panic(unsupported{"type assertion on modelled " + kind + " to " + t.String()})
}

type FSState struct {
	files map[string]Value
}

func (f *FSState) clone() *FSState {
	n := &FSState{files: map[string]Value{}}
	for k, v := range f.files {
		n.files[k] = v
	}
	return n
}
