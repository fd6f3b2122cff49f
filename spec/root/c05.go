package mnemonikey

import (
	"crypto/aes"
	"errors"
	"hash/crc32"
	"math/big"
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
	"github.com/kklash/wordlist4096"
)

// specPayload reads the words as one integer, 12 bits per word; ok is false if one is unknown.
func specPayload(words []string) (payload *big.Int, ok bool) {
	payload = new(big.Int)
	for i := 0; i < len(words); i++ {
		idx, known := wordlist4096.WordMap[strings.ToLower(words[i])]
		if !known {
			return nil, false
		}
		payload = specAppend(payload, uint64(idx), 12)
	}
	return payload, true
}

// specField is the n-bit field of the payload above the low `low` bits.
func specField(payload *big.Int, low, n uint) *big.Int {
	f := new(big.Int).Rsh(payload, low)
	hi := new(big.Int).Rsh(payload, low+n)
	return f.Sub(f, hi.Lsh(hi, n))
}

// specAccept is the set of well-formed phrases.
func specAccept(words []string) bool {
	n := len(words)
	if n != 14 && n != 16 {
		return false
	}
	first, ok := wordlist4096.WordMap[strings.ToLower(words[0])]
	if !ok {
		return false
	}
	if !(first>>8 == 0 && n == 14) && !(first>>8 == 1 && n == 16) {
		return false
	}
	payload, ok := specPayload(words)
	if !ok {
		return false
	}
	size := 21
	if n == 16 {
		size = 24
	}
	covered := make([]byte, size)
	new(big.Int).Rsh(payload, 5).FillBytes(covered)
	return uint64(crc32.ChecksumIEEE(covered)&31) == specField(payload, 0, 5).Uint64()
}

// C05: decryption succeeds exactly when the verification bits match.
func VL_C05_verify(typed [16]string, password []byte) {
	words := typed[:]
	dm, err := DecodeMnemonic(words)
	v.Assume(err == nil)
	v.Assume(dm.Version == 1)
	payload, ok := specPayload(words)
	v.Assert("only list words are accepted", ok)
	salt := specField(payload, 41, 19).Uint64()
	verify := byte(specField(payload, 36, 5).Uint64())
	offset := uint32(specField(payload, 5, 31).Uint64())
	block := make([]byte, 16)
	specField(payload, 60, 128).FillBytes(block)

	key := specEncKey(password, salt, offset)
	seed, err := dm.DecryptSeed(password)
	if key[16]&31 == verify {
		v.Assert("matching bits are accepted", err == nil)
		c, err := aes.NewCipher(key[:16])
		v.Assert("an AES-128 cipher", err == nil)
		c.Decrypt(block, block)
		v.Assert("the seed is the decrypted block", seed.Int().Cmp(new(big.Int).SetBytes(block)) == 0)
		v.Assert("era 0", seed.Era() == 0)
	} else {
		v.Assert("a mismatch is an error", err != nil)
		v.Assert("the error is the decryption error", errors.Is(err, ErrMnemonicDecryption))
		v.Assert("no seed comes with the error", seed == nil)
	}
}

// C05: no seed without a password check.
func VL_C05_plain(typed [16]string, opts bool) {
	dm, err := DecodeMnemonic(typed[:])
	v.Assume(err == nil)
	seed, err := dm.Seed()
	v.Assert("an encrypted phrase gives no seed without a password", err != nil && seed == nil)
	v.Assert("the error is the decryption error", errors.Is(err, ErrMnemonicDecryption))
	var ko *KeyOptions
	if opts {
		ko = &KeyOptions{}
	}
	mnk, err := RecoverPlaintext(typed[:], ko)
	v.Assert("an encrypted phrase is not recovered as plaintext", err != nil && mnk == nil)
}
