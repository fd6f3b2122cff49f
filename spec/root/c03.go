package mnemonikey

import (
	"crypto/aes"
	"math/big"

	v "github.com/kklash/mnemonikey/zzv"
	"golang.org/x/crypto/argon2"
)

// specSalt is what crypto/rand.Int(random, 2^19) yields: 3 bytes, 19 low bits.
func specSalt(key uint64) uint64 {
	return uint64(v.RandByte(key, 0)&7)<<16 | uint64(v.RandByte(key, 1))<<8 | uint64(v.RandByte(key, 2))
}

// specEncKey is the 17-byte Argon2id output for password and salt||offset in 7 bytes.
func specEncKey(password []byte, salt uint64, offset uint32) []byte {
	s := make([]byte, 7)
	new(big.Int).SetUint64(salt<<31 | uint64(offset)).FillBytes(s)
	return argon2.IDKey(password, s, 4, 512*1024, 2, 17)
}

// C03: version(4)=1, AES(seed)(128), salt(19), verify(5), offset(31), checksum(5).
func VL_C03_layout(seedBytes [16]byte, offset uint32, password []byte, rnd uint64, short bool) {
	v.Assume(offset < 1<<31)
	v.Assume(len(password) > 0)
	seed := specSeed(seedBytes)
	words, err := EncodeMnemonicEncrypted(seed, offset, password, &v.Reader{Key: rnd, Limit: -1, Short: short})
	v.Assert("encoding succeeds", err == nil)
	v.Assert("sixteen words", len(words) == 16)

	salt := specSalt(rnd)
	key := specEncKey(password, salt, offset)
	block, err := aes.NewCipher(key[:16])
	v.Assert("an AES-128 cipher", err == nil)
	enc := make([]byte, 16)
	block.Encrypt(enc, seedBytes[:])

	payload := specAppend(big.NewInt(1), 0, 128)
	payload.Or(payload, new(big.Int).SetBytes(enc))
	payload = specAppend(payload, salt, 19)
	payload = specAppend(payload, uint64(key[16]&31), 5)
	payload = specAppend(payload, uint64(offset), 31)
	specWords(words, specChecksum(payload, 24))
	v.Assert("the seed is unchanged", seed.Int().Cmp(new(big.Int).SetBytes(seedBytes[:])) == 0)
}

// C03: empty passwords and wide offsets are refused.
func VL_C03_refuse(seedBytes [16]byte, offset uint32, password []byte, rnd uint64) {
	v.Assume(offset >= 1<<31 || len(password) == 0)
	words, err := EncodeMnemonicEncrypted(specSeed(seedBytes), offset, password, &v.Reader{Key: rnd, Limit: -1})
	v.Assert("refused with an error", err != nil)
	v.Assert("no words come with the error", words == nil)
}

// C03: a random source that fails is reported.
func VL_C03_random(seedBytes [16]byte, offset uint32, password []byte, rnd uint64, limit uint8) {
	v.Assume(offset < 1<<31)
	v.Assume(limit < 3)
	words, err := EncodeMnemonicEncrypted(specSeed(seedBytes), offset, password, &v.Reader{Key: rnd, Limit: int(limit)})
	v.Assert("a failing random source is an error", err != nil)
	v.Assert("no words come with the error", words == nil)
}
