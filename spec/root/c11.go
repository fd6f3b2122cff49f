package mnemonikey

//verif:uses EncodeToIndices

import (
	"errors"
	"time"

	v "github.com/kklash/mnemonikey/zzv"
)

func specSameTypes(a, b []SubkeyType) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// specIdentical: everything observable of two keys is the same.
func specIdentical(a, b *Mnemonikey) {
	v.Assert("same creation time", a.CreatedAt().Equal(b.CreatedAt()))
	v.Assert("same expiry", a.Expiry().Equal(b.Expiry()) && a.Expiry().IsZero() == b.Expiry().IsZero())
	v.Assert("same user ID", a.UserID() == b.UserID())
	v.Assert("same subkey types", specSameTypes(a.SubkeyTypes(), b.SubkeyTypes()))
	v.Assert("same fingerprint", string(a.Fingerprint()) == string(b.Fingerprint()))
	for _, k := range []SubkeyType{SubkeyTypeEncryption, SubkeyTypeAuthentication, SubkeyTypeSigning} {
		v.Assert("same subkey fingerprints", string(a.SubkeyFingerprint(k)) == string(b.SubkeyFingerprint(k)))
	}
	x, errX := a.EncodePGP(nil)
	y, errY := b.EncodePGP(nil)
	v.Assert("both exports succeed", errX == nil && errY == nil)
	v.Assert("the exports are identical", string(x) == string(y))
}

func specOpts(ttl uint32, name, email string, index [3]uint16, has uint8) *KeyOptions {
	o := &KeyOptions{
		Name: name, Email: email, TTL: time.Duration(ttl) * time.Second,
		EncryptionSubkeyIndex: index[0], AuthenticationSubkeyIndex: index[1], SigningSubkeyIndex: index[2],
	}
	if has != 7 {
		o.Subkeys = specList(has)
	}
	return o
}

// C11: recovery from the plaintext phrase, with or without a password.
func VL_C11_plain(seed [16]byte, half, nsec, ttl uint32, name, email string, index [3]uint16, password []byte) {
	offset := half >> 1
	v.Assume(nsec < 1e9 && (nsec == 0 || offset < 1<<31-1) && len(name) < 50 && len(email) < 50)
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), int64(nsec)), specOpts(ttl, name, email, index, 7))
	v.Assert("the key is made", err == nil)
	words, err := mnk.EncodeMnemonicPlaintext()
	v.Assert("the phrase is made", err == nil)
	got, err := RecoverPlaintext(words, specOpts(ttl, name, email, index, 7))
	v.Assert("recovery succeeds", err == nil)
	specIdentical(mnk, got)
}

// C11: a plaintext phrase given a password.
func VL_C11_plainPassword(seed [16]byte, half uint32, index [3]uint16, has uint8, password []byte) {
	offset := half >> 1
	v.Assume(has < 8)
	has = uint8(v.Split(uint64(has)))
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), specOpts(0, "", "", index, has))
	v.Assert("the key is made", err == nil)
	words, err := mnk.EncodeMnemonicPlaintext()
	v.Assert("the phrase is made", err == nil)
	got, err := RecoverEncrypted(words, password, specOpts(0, "", "", index, has))
	v.Assert("recovery succeeds", err == nil)
	specIdentical(mnk, got)
}

// C11: recovery from the encrypted phrase.
func VL_C11_encrypted(seed [16]byte, half, nsec, ttl uint32, name string, index [3]uint16, password []byte, rnd uint64) {
	offset := half >> 1
	v.Assume(nsec < 1e9 && (nsec == 0 || offset < 1<<31-1) && len(name) < 50 && len(password) > 0)
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), int64(nsec)), specOpts(ttl, name, "", index, 7))
	v.Assert("the key is made", err == nil)
	words, err := mnk.EncodeMnemonicEncrypted(password, &v.Reader{Key: rnd, Limit: -1})
	v.Assert("the encrypted phrase is made", err == nil)
	got, err := RecoverEncrypted(words, password, specOpts(ttl, name, "", index, 7))
	v.Assert("recovery succeeds", err == nil)
	specIdentical(mnk, got)
	none, err := RecoverPlaintext(words, specOpts(ttl, name, "", index, 7))
	v.Assert("an encrypted phrase is not recovered as plaintext", errors.Is(err, ErrMnemonicDecryption) && none == nil)
}
