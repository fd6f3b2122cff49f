package mnemonikey

import (
	"math/big"
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
)

// C02: decoding the words of a plaintext phrase, in lower case.
func VL_C02_roundtrip(seedBytes [16]byte, offset uint32, password []byte) {
	v.Assume(offset < 1<<31)
	words, err := EncodeMnemonicPlaintext(specSeed(seedBytes), offset)
	v.Assert("encoding succeeds", err == nil)
	dm, err := DecodeMnemonic(words)
	v.Assert("the phrase decodes", err == nil)
	v.Assert("version 0", dm.Version == 0)
	v.Assert("not encrypted", !dm.Encrypted())
	v.Assert("creation offset", dm.CreationOffset() == offset)
	v.Assert("creation time", dm.Creation().Unix() == 1672531200+int64(offset) && dm.Creation().Nanosecond() == 0)
	seed, err := dm.Seed()
	v.Assert("the seed is available", err == nil)
	v.Assert("the seed is the original", seed.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
	v.Assert("the era is the original", seed.Era() == 0)
	s2, err := dm.DecryptSeed(password)
	v.Assert("decrypting a plaintext phrase succeeds", err == nil)
	v.Assert("decrypting a plaintext phrase gives the original seed", s2.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
}

// C02: the same for any strings equal to the words up to letter case.
func VL_C02_case(seedBytes [16]byte, offset uint32, typed [14]string) {
	v.Assume(offset < 1<<31)
	words, err := EncodeMnemonicPlaintext(specSeed(seedBytes), offset)
	v.Assert("encoding succeeds", err == nil)
	v.Assert("fourteen words", len(words) == 14)
	in := make([]string, 14)
	for i := range in {
		in[i] = typed[i]
		v.Assume(strings.ToLower(typed[i]) == words[i])
	}
	dm, err := DecodeMnemonic(in)
	v.Assert("the phrase decodes", err == nil)
	v.Assert("version 0", dm.Version == 0)
	v.Assert("creation offset", dm.CreationOffset() == offset)
	seed, err := dm.Seed()
	v.Assert("the seed is available", err == nil)
	v.Assert("the seed is the original", seed.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
}
