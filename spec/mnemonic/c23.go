package mnemonic

import (
	"math/big"
	"strings"

	"github.com/kklash/wordlist4096"

	v "github.com/kklash/mnemonikey/zzv"
)

// C23: what an integer encodes to, and that decoding gives it back.
func VL_C23_indices0(mag [64]byte, neg bool, bitSize uint8) {
	vIndices(mag, neg, uint(bitSize), 0, 120)
}
func VL_C23_indices1(mag [64]byte, neg bool, bitSize uint8) {
	vIndices(mag, neg, uint(bitSize), 120, 168)
}
func VL_C23_indices2(mag [64]byte, neg bool, bitSize uint8) {
	vIndices(mag, neg, uint(bitSize), 168, 216)
}
func VL_C23_indices3(mag [64]byte, neg bool, bitSize uint8) {
	vIndices(mag, neg, uint(bitSize), 216, 256)
}

func vIndices(mag [64]byte, neg bool, bitSize, lo, hi uint) {
	v.Assume(lo <= bitSize && bitSize <= hi)
	x := new(big.Int).SetBytes(mag[:])
	if neg {
		x.Neg(x)
	}
	orig := new(big.Int).Set(x)
	neg0 := x.Sign() < 0
	mg := new(big.Int).Abs(x)
	indices, err := EncodeToIndices(x, bitSize)
	v.Assert("the integer passed in is not modified", x.Cmp(orig) == 0)
	fits := !neg0 && new(big.Int).Rsh(mg, bitSize).Sign() == 0
	v.Assert("accepted exactly when it fits", (err == nil) == fits)
	if err != nil {
		return
	}
	n := (int(bitSize) + 11) / 12
	v.Assert("ceil(size/12) positions", len(indices) == n)
	spelt := new(big.Int)
	for i := 0; i < n; i++ {
		v.Assert("each position has twelve bits", indices[i] < 4096)
		spelt.Lsh(spelt, 12)
		spelt.Or(spelt, big.NewInt(int64(indices[i])))
	}
	v.Assert("the positions spell the integer, twelve bits each", spelt.Cmp(orig) == 0)
	kept := append([]uint16{}, indices...)
	back, err := DecodeIndices(indices)
	v.Assert("decoding the positions succeeds", err == nil)
	v.Assert("decoding gives the integer back", back.Cmp(orig) == 0)
	for i := range kept {
		v.Assert("the positions passed in are not modified", indices[i] == kept[i])
	}
}

// C23: positions outside the list are refused, and positions become words and back.
func VL_C23_words(indices []uint16) {
	v.Assume(len(indices) <= 22)
	n := len(indices)
	kept := append([]uint16{}, indices...)
	valid := true
	for i := 0; i < n; i++ {
		if indices[i] >= 4096 {
			valid = false
			break
		}
	}
	value, err := DecodeIndices(indices)
	v.Assert("decodes exactly positions below 4096", (err == nil) == valid)
	words, werr := EncodeToWords(indices)
	v.Assert("makes words exactly of positions below 4096", (werr == nil) == valid)
	for i := range kept {
		v.Assert("the positions passed in are not modified", indices[i] == kept[i])
	}
	if !valid {
		v.Assert("no result with an error", value == nil && words == nil)
		return
	}
	v.Assert("a word per position", len(words) == n)
	want := new(big.Int)
	for i := 0; i < n; i++ {
		want.Lsh(want, 12)
		want.Or(want, big.NewInt(int64(kept[i])))
	}
	v.Assert("the integer is the positions' bits", value.Cmp(want) == 0)
	back, err := DecodeWords(words)
	v.Assert("the words decode", err == nil)
	v.Assert("a position per word", len(back) == n)
	for i := 0; i < n; i++ {
		v.Assert("the words decode to the positions", back[i] == kept[i])
	}
}

// C23: words in any case decode to the positions that encode to them; others are refused.
func VL_C23_typed(words []string) {
	v.Assume(len(words) <= 22)
	n := len(words)
	kept := append([]string{}, words...)
	indices, err := DecodeWords(words)
	for i := 0; i < n; i++ {
		v.Assert("the words passed in are not modified", words[i] == kept[i])
	}
	if err != nil {
		v.Assert("no positions with an error", indices == nil)
		bad := false
		for i := 0; i < n; i++ {
			if !vListed(words[i]) {
				bad = true
				break
			}
		}
		v.Assert("refused only for an unlisted word", bad)
		return
	}
	v.Assert("a position per word", len(indices) == n)
	again, err := EncodeToWords(indices)
	v.Assert("the positions encode", err == nil)
	v.Assert("as many words", len(again) == n)
	for i := 0; i < n; i++ {
		v.Assert("the positions encode to the words in lower case", again[i] == strings.ToLower(words[i]))
	}
}

func vListed(w string) bool {
	_, ok := wordlist4096.WordMap[strings.ToLower(w)]
	return ok
}
