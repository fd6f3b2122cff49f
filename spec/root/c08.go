package mnemonikey

import (
	"math/big"

	v "github.com/kklash/mnemonikey/zzv"
)

// C08: seeds exist exactly for era 0 and 0..2^128-1, and are immutable.
func VL_C08_new(era int, mag [64]byte, neg bool, junk uint64) {
	x := new(big.Int).SetBytes(mag[:])
	if neg {
		x.Neg(x)
	}
	orig := new(big.Int).Set(x)
	seed, err := NewSeed(Era(era), x)
	ok := era == 0 && x.Sign() >= 0 && x.BitLen() <= 128
	v.Assert("accepted exactly for era 0 and 0..2^128-1", (err == nil) == ok)
	v.Assert("the argument is not modified", x.Cmp(orig) == 0)
	if err != nil {
		v.Assert("no seed with an error", seed == nil)
		return
	}
	want := make([]byte, 16)
	orig.FillBytes(want)
	x.SetUint64(junk)
	v.Assert("changing the integer passed in does not change the seed", seed.Int().Cmp(orig) == 0)
	seed.Int().SetUint64(junk)
	v.Assert("changing the integer handed out does not change the seed", seed.Int().Cmp(orig) == 0)
	b := seed.Bytes()
	v.Assert("sixteen bytes", len(b) == 16)
	v.Assert("the bytes are the big-endian integer", string(b) == string(want))
	for i := range b {
		b[i] = byte(junk)
	}
	v.Assert("changing the bytes handed out does not change the seed", string(seed.Bytes()) == string(want) && seed.Int().Cmp(orig) == 0)
	v.Assert("the era is kept", seed.Era() == 0)
}

// C08: a generated seed is exactly the next 16 bytes of the source.
func VL_C08_generate(rnd uint64, short bool, pos uint16) {
	r := &v.Reader{Key: rnd, Pos: int(pos), Limit: -1, Short: short}
	seed, err := GenerateSeed(r)
	v.Assert("generation succeeds", err == nil)
	b := seed.Bytes()
	v.Assert("sixteen bytes", len(b) == 16)
	for i := 0; i < 16; i++ {
		v.Assert("the seed is the random bytes", b[i] == v.RandByte(rnd, int(pos)+i))
	}
	v.Assert("no other randomness is consumed", r.Pos == int(pos)+16)
	v.Assert("era latest", seed.Era() == EraLatest)
}

// C08: a failing random source is reported.
func VL_C08_fail(rnd uint64, limit uint8) {
	v.Assume(limit < 16)
	seed, err := GenerateSeed(&v.Reader{Key: rnd, Limit: int(limit)})
	v.Assert("a failing source is an error", err != nil)
	v.Assert("no seed with an error", seed == nil)
}

// C08: seeds handed out by a decoded phrase are independent of each other and of it.
func VL_C08_decoded(seedBytes [16]byte, offset uint32, junk uint64) {
	v.Assume(offset < 1<<31)
	words, err := EncodeMnemonicPlaintext(specSeed(seedBytes), offset)
	v.Assert("encoding succeeds", err == nil)
	dm, err := DecodeMnemonic(words)
	v.Assert("decoding succeeds", err == nil)
	s1, err := dm.Seed()
	v.Assert("first seed", err == nil)
	s1.Int().SetUint64(junk)
	s2, err := dm.Seed()
	v.Assert("second seed", err == nil)
	v.Assert("both are the original", s1.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0 && s2.Int().Cmp(s1.Int()) == 0)
}
