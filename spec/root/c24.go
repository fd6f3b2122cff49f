//verif:optional
package mnemonikey

import (
	"math/big"

	v "github.com/kklash/mnemonikey/zzv"
)

func specFits(x *big.Int, n uint) bool { return new(big.Int).Rsh(x, n).Sign() == 0 }

// specJoin is the bit string hi followed by the n bits of lo.
func specJoin(hi, lo *big.Int, n uint) *big.Int {
	r := new(big.Int).Lsh(hi, n)
	return r.Or(r, lo)
}

// specLow is the last n bits of x.
func specLow(x *big.Int, n uint) *big.Int {
	hi := new(big.Int).Rsh(x, n)
	return hi.Xor(x, hi.Lsh(hi, n))
}

func specBuffer(mag [32]byte, n uint8) (*bitBuffer, *big.Int) {
	x := new(big.Int).SetBytes(mag[:])
	v.Assume(specFits(x, uint(n)))
	orig := new(big.Int).Set(x)
	bb := newBitBuffer(x, uint(n))
	v.Assert("the integer passed in is not modified", x.Cmp(orig) == 0)
	x.SetUint64(7)
	v.Assert("the buffer does not alias the integer passed in", bb.Int().Cmp(orig) == 0)
	v.Assert("the size is the one given", bb.BitLen() == uint(n))
	return bb, orig
}

func specBuf(label string, bb *bitBuffer, want *big.Int, n uint) {
	out := bb.Int()
	v.Assert("contents "+label, out.Cmp(want) == 0)
	v.Assert("size "+label, bb.BitLen() == n)
	out.SetUint64(9)
	v.Assert("the integer handed out is a copy", bb.Int().Cmp(want) == 0)
}

func specOnes() {
	v.Assert("shared constants keep their value", bigOne.Cmp(big.NewInt(1)) == 0)
}

// C24: appending at the trailing edge.
func VL_C24_appendTrailing(mag [32]byte, n uint8, add [32]byte, m uint8) {
	bb, orig := specBuffer(mag, n)
	a := new(big.Int).SetBytes(add[:])
	v.Assume(specFits(a, uint(m)))
	keep := new(big.Int).Set(a)
	bb.AppendTrailingBits(a, uint(m))
	v.Assert("the bits passed in are not modified", a.Cmp(keep) == 0)
	a.SetUint64(5)
	specBuf("old bits then new bits", bb, specJoin(orig, keep, uint(m)), uint(n)+uint(m))
	specOnes()
}

// C24: appending at the leading edge.
func VL_C24_appendLeading(mag [32]byte, n uint8, add [32]byte, m uint8) {
	bb, orig := specBuffer(mag, n)
	a := new(big.Int).SetBytes(add[:])
	v.Assume(specFits(a, uint(m)))
	keep := new(big.Int).Set(a)
	bb.AppendLeadingBits(a, uint(m))
	v.Assert("the bits passed in are not modified", a.Cmp(keep) == 0)
	a.SetUint64(5)
	specBuf("new bits then old bits", bb, specJoin(keep, orig, uint(n)), uint(n)+uint(m))
	specOnes()
}

// C24: taking bits from the trailing edge.
func VL_C24_popTrailing0(mag [32]byte, n uint8, k uint8) { specPopTrailing(mag, n, k, 0) }
func VL_C24_popTrailing1(mag [32]byte, n uint8, k uint8) { specPopTrailing(mag, n, k, 1) }

func specPopTrailing(mag [32]byte, n uint8, k uint8, half uint8) {
	v.Assume(k>>7 == half)
	bb, orig := specBuffer(mag, n)
	v.Assume(k <= n)
	k = uint8(v.Split(uint64(k)))
	got := bb.PopTrailingBits(uint(k))
	v.Assert("the last bits are taken", got.Cmp(specLow(orig, uint(k))) == 0)
	got.SetUint64(3)
	specBuf("the leading bits stay", bb, new(big.Int).Rsh(orig, uint(k)), uint(n)-uint(k))
	specOnes()
}

// C24: taking bits from the leading edge.
func VL_C24_popLeading0(mag [32]byte, n uint8, k uint8) { specPopLeading(mag, n, k, 0) }
func VL_C24_popLeading1(mag [32]byte, n uint8, k uint8) { specPopLeading(mag, n, k, 1) }
func VL_C24_popLeading2(mag [32]byte, n uint8, k uint8) { specPopLeading(mag, n, k, 2) }
func VL_C24_popLeading3(mag [32]byte, n uint8, k uint8) { specPopLeading(mag, n, k, 3) }

func specPopLeading(mag [32]byte, n uint8, k uint8, quarter uint8) {
	v.Assume(k>>6 == quarter)
	rest := uint(v.Split(uint64(k)))
	v.Assume(rest <= uint(n))
	bb, orig := specBuffer(mag, n)
	got := bb.PopLeadingBits(uint(n) - rest)
	v.Assert("the first bits are taken", got.Cmp(new(big.Int).Rsh(orig, rest)) == 0)
	got.SetUint64(3)
	specBuf("the trailing bits stay", bb, specLow(orig, rest), rest)
	specOnes()
}

// C24: the byte form.
func VL_C24_bytes(mag [32]byte, n uint8) {
	bb, orig := specBuffer(mag, n)
	b := bb.Bytes()
	v.Assert("as many bytes as the bits need", len(b) == (int(n)+7)/8)
	want := make([]byte, (int(n)+7)/8)
	orig.FillBytes(want)
	v.Assert("big-endian with leading zero bits", string(b) == string(want))
	for i := range b {
		b[i] = 0xAA
	}
	specBuf("not changed by the bytes", bb, orig, uint(n))
}
