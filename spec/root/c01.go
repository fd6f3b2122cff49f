package mnemonikey

import (
	"hash/crc32"
	"math/big"

	v "github.com/kklash/mnemonikey/zzv"
	"github.com/kklash/wordlist4096"
)

// specSeed builds the seed with the given 16 bytes.
func specSeed(b [16]byte) *Seed {
	seed, err := NewSeed(EraLatest, new(big.Int).SetBytes(b[:]))
	v.Assert("every 128-bit integer is a seed", err == nil)
	return seed
}

// specWords asserts that the words spell the bit string: payload (already containing
// the checksum), 12 bits per word, most significant first.
func specWords(words []string, payload *big.Int) {
	n := len(words)
	all := make([]byte, n/2*3)
	payload.FillBytes(all)
	for i := 0; i < n; i += 2 {
		a, b, c := uint(all[i/2*3]), uint(all[i/2*3+1]), uint(all[i/2*3+2])
		v.Assert("word carries its 12 bits (even position)", words[i] == wordlist4096.WordList[a<<4|b>>4])
		v.Assert("word carries its 12 bits (odd position)", words[i+1] == wordlist4096.WordList[(b&15)<<8|c])
	}
}

// specAppend is value<<n | low
func specAppend(value *big.Int, low uint64, n uint) *big.Int {
	r := new(big.Int).Lsh(value, n)
	return r.Or(r, new(big.Int).SetUint64(low))
}

// specChecksum appends the low 5 bits of the CRC-32 of the payload, right-aligned in nBytes bytes.
func specChecksum(payload *big.Int, nBytes int) *big.Int {
	covered := make([]byte, nBytes)
	payload.FillBytes(covered)
	return specAppend(payload, uint64(crc32.ChecksumIEEE(covered)&31), 5)
}

// C01: the plaintext phrase is version(4)=0, seed(128), offset(31), checksum(5).
func VL_C01_layout(seedBytes [16]byte, offset uint32) {
	v.Assume(offset < 1<<31)
	seed := specSeed(seedBytes)
	words, err := EncodeMnemonicPlaintext(seed, offset)
	v.Assert("encoding succeeds", err == nil)
	v.Assert("fourteen words", len(words) == 14)
	payload := specAppend(new(big.Int).SetBytes(seedBytes[:]), uint64(offset), 31)
	specWords(words, specChecksum(payload, 21))
	v.Assert("the seed is unchanged", seed.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
	again, err := EncodeMnemonicPlaintext(seed, offset)
	v.Assert("encoding again succeeds", err == nil)
	v.Assert("fourteen words again", len(again) == 14)
	for i := 0; i < 14; i++ {
		v.Assert("encoding again gives the same words", again[i] == words[i])
	}
}

// C01: offsets that do not fit are refused.
func VL_C01_refuse(seedBytes [16]byte, offset uint32) {
	v.Assume(offset >= 1<<31)
	seed := specSeed(seedBytes)
	words, err := EncodeMnemonicPlaintext(seed, offset)
	v.Assert("an offset wider than 31 bits is refused", err != nil)
	v.Assert("no words come with the error", words == nil)
}
