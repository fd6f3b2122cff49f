package mnemonikey

import (
	"math/big"
	"math/rand"
	"strings"

	"github.com/kklash/mnemonikey/zzv"
)

// Native input generators: phrases in odd letter case, and damaged phrases.

func genCase(r *rand.Rand, w string) string {
	switch r.Intn(4) {
	case 0:
		return w
	case 1:
		return strings.ToUpper(w)
	}
	b := []byte(w)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func genSeed(r *rand.Rand) (b [16]byte) {
	r.Read(b[:])
	switch r.Intn(4) {
	case 0:
		for i := 0; i < r.Intn(17); i++ {
			b[i] = 0
		}
	case 1:
		b = [16]byte{}
		b[r.Intn(16)] = byte(r.Intn(256))
	}
	return
}

func genOffset(r *rand.Rand) uint32 {
	switch r.Intn(3) {
	case 0:
		return uint32(r.Intn(5))
	case 1:
		return 1<<31 - 1 - uint32(r.Intn(5))
	}
	return r.Uint32() >> (1 + uint(r.Intn(31)))
}

func genSpecSeed(b [16]byte) *Seed {
	s, err := NewSeed(EraLatest, new(big.Int).SetBytes(b[:]))
	if err != nil {
		panic(err)
	}
	return s
}

func VG_C02_case(r *rand.Rand) []any {
	b, o := genSeed(r), genOffset(r)
	words, _ := EncodeMnemonicPlaintext(genSpecSeed(b), o)
	var typed [14]string
	for i := range typed {
		if i < len(words) {
			typed[i] = genCase(r, words[i])
		}
	}
	return []any{b, o, typed}
}

func VG_C04_roundtrip(r *rand.Rand) []any {
	b, o, k := genSeed(r), genOffset(r), r.Uint64()
	pw := make([]byte, 1+r.Intn(20))
	r.Read(pw)
	words, _ := EncodeMnemonicEncrypted(genSpecSeed(b), o, pw, &zzv.Reader{Key: k, Limit: -1})
	var typed [16]string
	for i := range typed {
		if i < len(words) {
			typed[i] = genCase(r, words[i])
		}
	}
	return []any{b, o, pw, k, typed}
}

// genPhrase: a valid phrase, possibly damaged.
func genPhrase(r *rand.Rand, n int) []string {
	b, o := genSeed(r), genOffset(r)
	var words []string
	if n == 14 {
		words, _ = EncodeMnemonicPlaintext(genSpecSeed(b), o)
	} else {
		words, _ = EncodeMnemonicEncrypted(genSpecSeed(b), o, []byte{byte(r.Intn(3))}, &zzv.Reader{Key: r.Uint64(), Limit: -1})
	}
	out := append([]string{}, words...)
	for i := range out {
		if r.Intn(8) == 0 {
			out[i] = genCase(r, out[i])
		}
	}
	return out
}

func genDamage(r *rand.Rand, w []string) []string {
	if len(w) == 0 {
		return w
	}
	switch r.Intn(9) {
	case 0:
		return w[:r.Intn(len(w))]
	case 1:
		return append(w, w[r.Intn(len(w))])
	case 2:
		w[r.Intn(len(w))] = []string{"", "xyzzy", " abandon", "0"}[r.Intn(4)]
	case 3: // another word
		w[r.Intn(len(w))] = genPhrase(r, 14)[3]
	case 4: // another first word: version
		w[0] = genPhrase(r, 14)[5]
	case 5:
		i, j := r.Intn(len(w)), r.Intn(len(w))
		w[i], w[j] = w[j], w[i]
	case 6: // last word: checksum bits
		w[len(w)-1] = genPhrase(r, 14)[7]
	}
	return w
}

func VG_C06_accept(r *rand.Rand) []any {
	w := genPhrase(r, 14+2*r.Intn(2))
	if r.Intn(3) != 0 {
		w = genDamage(r, w)
	}
	return []any{w}
}

func gen16(r *rand.Rand) (out [16]string) {
	copy(out[:], genPhrase(r, 16))
	return
}

func VG_C05_verify(r *rand.Rand) []any    { return []any{gen16(r), []byte{byte(r.Intn(3))}} }
func VG_C05_plain(r *rand.Rand) []any     { return []any{gen16(r), r.Intn(2) == 0} }
func VG_C07_encrypted(r *rand.Rand) []any { return []any{gen16(r)} }
func VG_C07_plain(r *rand.Rand) []any {
	var out [14]string
	copy(out[:], genPhrase(r, 14))
	return []any{out}
}
