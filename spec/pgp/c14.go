package pgp

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"

	v "github.com/kklash/mnemonikey/zzv"
)

// specS2KKey is the key an OpenPGP reader derives: SHA-256 over salt and password,
// repeated up to 65011712 bytes, but in full at least once.
func specS2KKey(salt, password []byte) []byte {
	pre := specCat(salt, password)
	if len(pre) > 65011712 {
		sum := sha256.Sum256(pre)
		return sum[:]
	}
	n := 65011712 / len(pre)
	sum := sha256.Sum256(specCat(bytes.Repeat(pre, n), pre[:65011712%len(pre)]))
	return sum[:]
}

// specProtect is the secret part that follows the public part: S2K specifier, salt and IV,
// and the encrypted MPI and SHA-1.
func specProtect(secret, password, salt, iv []byte) []byte {
	mpi := specMPI(secret)
	block, err := aes.NewCipher(specS2KKey(salt, password))
	v.Assert("a cipher", err == nil)
	sum := sha1.Sum(mpi)
	plain := specCat(mpi, sum[:])
	ct := make([]byte, len(plain))
	cipher.NewCFBEncrypter(block, iv).XORKeyStream(ct, plain)
	return specCat([]byte("\xfe\x09\x03\x08"), salt, []byte{255}, iv, ct)
}

// specProtected checks such a part, whose salt and IV must come from the system random source.
func specProtected(out, secret, password []byte) {
	v.Assert("length of the protected part", len(out) == 4+8+1+16+len(specMPI(secret))+20)
	salt, iv := out[4:12], out[13:29]
	v.Assert("salt from the system random source", v.IsFreshRandom(salt))
	v.Assert("IV from the system random source", v.IsFreshRandom(iv))
	v.Assert("S2K usage 254, AES-256, iterated and salted SHA-256 at count 255, and the encrypted secret", string(out) == string(specProtect(secret, password, salt, iv)))
}

// specProtectedPacket checks a whole protected secret packet.
func specProtectedPacket(out []byte, tag byte, public, secret, password []byte) {
	body := len(public) + 4 + 8 + 1 + 16 + len(specMPI(secret)) + 20
	head := specCat([]byte{192 + tag}, specLen(body), public)
	v.Assert("length of the packet", len(out) == 1+len(specLen(body))+body)
	v.Assert("packet header and public part", string(out[:len(head)]) == string(head))
	specProtected(out[len(head):], secret, password)
}

// C14: the S2K encryption itself.
func VL_C14_s2k(secret [32]byte, password []byte) {
	v.Assume(len(password) > 0)
	keep := append([]byte{}, password...)
	out, err := EncryptS2K(HashFuncSHA256, secret[:], password)
	v.Assert("encryption succeeds", err == nil)
	specProtected(out, secret[:], keep)
	v.Assert("the password is not modified", string(password) == string(keep))
}

// C14: protected packets of every kind of key.
func VL_C14_master(seed [32]byte, sec, exp uint32, password []byte) {
	v.Assume(len(password) > 0)
	k, err := NewED25519MasterKey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp))
	v.Assert("the key is made", err == nil)
	out, err := k.EncodePrivatePacket(password)
	v.Assert("encoding succeeds", err == nil)
	specProtectedPacket(out, 5, specEdPublic(seed[:], sec), seed[:], password)
}

func VL_C14_edsub(seed [32]byte, sec, exp uint32, password []byte) {
	v.Assume(len(password) > 0)
	k, err := NewED25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp))
	v.Assert("the key is made", err == nil)
	out, err := k.EncodePrivatePacket(password)
	v.Assert("encoding succeeds", err == nil)
	specProtectedPacket(out, 7, specEdPublic(seed[:], sec), seed[:], password)
	again, err := k.EncodePrivatePacket(password)
	v.Assert("encoding succeeds again", err == nil)
	specProtectedPacket(again, 7, specEdPublic(seed[:], sec), seed[:], password)
}

func VL_C14_cvsub(seed [32]byte, sec, exp uint32, password []byte) {
	v.Assume(len(password) > 0)
	k, err := NewCurve25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp), nil)
	v.Assert("the key is made", err == nil)
	out, err := k.EncodePrivatePacket(password)
	v.Assert("encoding succeeds", err == nil)
	specProtectedPacket(out, 7, specCvPublic(seed[:], sec), specCvSecret(seed[:]), password)
}
