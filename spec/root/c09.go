package mnemonikey

import (
	"crypto/sha256"
	"io"
	"time"

	"github.com/kklash/mnemonikey/pgp"
	v "github.com/kklash/mnemonikey/zzv"
	"golang.org/x/crypto/argon2"
	"golang.org/x/crypto/hkdf"
)

// The range of creation times: seconds since 1970 of 2023-01-01T00:00:00Z and 2^31-1 later.
const (
	specFirst = 1672531200
	specLast  = specFirst + 1<<31 - 1
)

func specExpand(root []byte, info string) []byte {
	out := make([]byte, 32)
	io.ReadFull(hkdf.Expand(sha256.New, root, []byte(info)), out)
	return out
}

// specKeys are the specified private keys: of the master key and the three subkeys.
func specKeys(seed [16]byte, sec uint32, index [3]uint16) ([]byte, [3][]byte) {
	root := argon2.IDKey(seed[:], []byte{byte(sec >> 24), byte(sec >> 16), byte(sec >> 8), byte(sec)}, 4, 512*1024, 2, 32)
	sub := func(kind string, n uint16) []byte {
		return specExpand(root, "mnemonikey "+kind+" subkey"+string([]byte{byte(n >> 8), byte(n)}))
	}
	return specExpand(root, "mnemonikey master key"), [3][]byte{
		sub("encryption", index[0]), sub("authentication", index[1]), sub("signing", index[2]),
	}
}

// specIsExport: out is the export of exactly the specified keys.
func specIsExport(out []byte, seed [16]byte, sec, ttl uint32, user string, has uint8, index [3]uint16) bool {
	master, subs := specKeys(seed, sec, index)
	return v.AnyOf(pgp.SpecIsExport(out, master, subs, has, sec, ttl, user)...)
}

// specList is a subkey list for the bits of has.
func specList(has uint8) []SubkeyType {
	l := []SubkeyType{}
	if has&4 != 0 {
		l = append(l, SubkeyTypeSigning)
	}
	if has&1 != 0 {
		l = append(l, SubkeyTypeEncryption)
	}
	if has&2 != 0 {
		l = append(l, SubkeyTypeAuthentication)
	}
	return l
}

// C09: the unencrypted export, and with it every private key, is that of the specified
// derivation: a function of the seed, the creation second and the requested indices (and,
// for the signatures, expiry and user ID).
func VL_C09_all(seed [16]byte, offset, nsec, ttl uint32, name string, index [3]uint16) {
	v.Assume(offset < 1<<31-1 && nsec < 1e9 && len(name) < 100)
	mnk, err := New(specSeed(seed), time.Unix(specFirst+int64(offset), int64(nsec)), &KeyOptions{
		Name: name, TTL: time.Duration(ttl) * time.Second,
		EncryptionSubkeyIndex: index[0], AuthenticationSubkeyIndex: index[1], SigningSubkeyIndex: index[2],
	})
	v.Assert("the key is made", err == nil)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("every private key is derived as specified", specIsExport(out, seed, specFirst+offset, ttl, name, 7, index))
}

// C09: a subset of the subkeys has the same private keys.
func VL_C09_subset(seed [16]byte, offset uint32, email string, index [3]uint16, has uint8) {
	v.Assume(offset < 1<<31 && len(email) < 100 && has < 7)
	has = uint8(v.Split(uint64(has)))
	mnk, err := New(specSeed(seed), time.Unix(specFirst+int64(offset), 0), &KeyOptions{
		Email: email, Subkeys: specList(has),
		EncryptionSubkeyIndex: index[0], AuthenticationSubkeyIndex: index[1], SigningSubkeyIndex: index[2],
	})
	v.Assert("the key is made", err == nil)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("every private key is derived as specified", specIsExport(out, seed, specFirst+offset, 0, email, has, index))
}
