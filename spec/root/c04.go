package mnemonikey

import (
	"math/big"
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
)

// C04: decrypting with the right password returns the seed, for every salt and any letter case.
func VL_C04_roundtrip(seedBytes [16]byte, offset uint32, password []byte, rnd uint64, typed [16]string) {
	v.Assume(offset < 1<<31)
	v.Assume(len(password) > 0)
	words, err := EncodeMnemonicEncrypted(specSeed(seedBytes), offset, password, &v.Reader{Key: rnd, Limit: -1})
	v.Assert("encoding succeeds", err == nil)
	v.Assert("sixteen words", len(words) == 16)
	in := make([]string, 16)
	for i := range in {
		in[i] = typed[i]
		v.Assume(strings.ToLower(typed[i]) == words[i])
	}
	dm, err := DecodeMnemonic(in)
	v.Assert("the phrase decodes", err == nil)
	v.Assert("version 1", dm.Version == 1)
	v.Assert("encrypted", dm.Encrypted())
	v.Assert("creation offset", dm.CreationOffset() == offset)
	v.Assert("creation time", dm.Creation().Unix() == 1672531200+int64(offset) && dm.Creation().Nanosecond() == 0)
	seed, err := dm.DecryptSeed(password)
	v.Assert("the right password is accepted", err == nil)
	v.Assert("the seed is the original", seed.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
	v.Assert("the era is the original", seed.Era() == 0)
	again, err := dm.DecryptSeed(password)
	v.Assert("the right password is accepted again", err == nil)
	v.Assert("the seed is the original again", again.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
}
