package pgp

import (
	"crypto/rand"

	v "github.com/kklash/mnemonikey/zzv"
)

// Contract of EncryptS2K, for its callers: with any password the result is specProtect
// for some salt and IV drawn from the system random source.
const VT_EncryptS2K = "github.com/kklash/mnemonikey/pgp.EncryptS2K"
const VO_EncryptS2K = "specS2KKey=32"

func VS_EncryptS2K(hashFunc HashFuncID, plaintext, password []byte) ([]byte, error) {
	v.Requires("SHA-256", hashFunc == HashFuncSHA256)
	v.Requires("a password", len(password) > 0)
	v.Requires("32 secret bytes", len(plaintext) == 32)
	salt, iv := make([]byte, 8), make([]byte, 16)
	rand.Read(salt)
	rand.Read(iv)
	v.Note("s2k", plaintext, specCat(salt, iv))
	return specProtect(plaintext, password, salt, iv), nil
}

func VP_EncryptS2K(secret [32]byte, password []byte) {
	v.Assume(len(password) > 0)
	keep, keepSecret := append([]byte{}, password...), secret
	out, err := EncryptS2K(HashFuncSHA256, secret[:], password)
	v.Assert("encryption succeeds", err == nil)
	specProtected(out, keepSecret[:], keep)
	v.Assert("the arguments are not modified", string(password) == string(keep) && secret == keepSecret)
}
