package pgp

import (
	"crypto/ed25519"
	"crypto/sha1"
	"time"

	v "github.com/kklash/mnemonikey/zzv"
	"golang.org/x/crypto/curve25519"
)

func specTime(sec uint32) time.Time { return time.Unix(int64(sec), 0).UTC() }

var specOIDEd = "\x2B\x06\x01\x04\x01\xDA\x47\x0F\x01"
var specOIDCv = "\x2B\x06\x01\x04\x01\x97\x55\x01\x05\x01"

// specEdPublic is the public part of an EdDSA key.
func specEdPublic(seed []byte, sec uint32) []byte {
	pub := ed25519.NewKeyFromSeed(seed)[32:]
	return specCat([]byte{4}, specBE(uint64(sec), 4), []byte{22, 9}, []byte(specOIDEd), []byte{1, 7, 0x40}, pub)
}

// specCvPublic is the public part of the ECDH key.
func specCvPublic(seed []byte, sec uint32) []byte {
	pub, err := curve25519.X25519(seed, curve25519.Basepoint)
	if err != nil {
		return nil
	}
	return specCat([]byte{4}, specBE(uint64(sec), 4), []byte{18, 10}, []byte(specOIDCv), []byte{1, 7, 0x40}, pub, []byte{3, 1, 8, 7})
}

func specFingerprint(public []byte) []byte {
	sum := sha1.Sum(specCat([]byte{0x99}, specBE(uint64(len(public)), 2), public))
	return sum[:]
}

// specSum is the sum of the bytes, modulo 2^16.
func specSum(b []byte) []byte {
	n := 0
	for i := 0; i < len(b); i++ {
		n += int(b[i])
	}
	return specBE(uint64(n), 2)
}

// specSecret is an unencrypted secret part.
func specSecret(public, secret []byte) []byte {
	mpi := specMPI(secret)
	return specCat(public, []byte{0}, mpi, specSum(mpi))
}

// specCvSecret is the clamped, byte-reversed seed.
func specCvSecret(seed []byte) []byte {
	out := make([]byte, 32)
	for i := 0; i < 32; i++ {
		out[31-i] = seed[i]
	}
	out[31] &= 0xF8
	out[0] = out[0]&0x7F | 0x40
	return out
}

// C12: the master key's public part and fingerprint.
func VL_C12_master(seed [32]byte, sec, exp uint32) {
	k, err := NewED25519MasterKey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp))
	v.Assert("the key is made", err == nil)
	pub := specEdPublic(seed[:], sec)
	v.Assert("public packet", string(k.EncodePublicPacket()) == string(specPacket(6, pub)))
	v.Assert("fingerprint", string(k.FingerprintV4()) == string(specFingerprint(pub)))
	v.Assert("the fingerprint is stable", string(k.FingerprintV4()) == string(specFingerprint(pub)))
}

// C12: an EdDSA subkey's public part and fingerprint.
func VL_C12_edsub(seed [32]byte, sec, exp uint32) {
	k, err := NewED25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp))
	v.Assert("the key is made", err == nil)
	pub := specEdPublic(seed[:], sec)
	v.Assert("public packet", string(k.EncodePublicSubkeyPacket()) == string(specPacket(14, pub)))
	v.Assert("fingerprint", string(k.FingerprintV4()) == string(specFingerprint(pub)))
}

// C12: the ECDH subkey's public part and fingerprint.
func VL_C12_cvsub(seed [32]byte, sec, exp uint32) {
	k, err := NewCurve25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp), nil)
	v.Assert("the key is made", err == nil)
	pub := specCvPublic(seed[:], sec)
	v.Assert("public packet", string(k.EncodePublicSubkeyPacket()) == string(specPacket(14, pub)))
	v.Assert("fingerprint", string(k.FingerprintV4()) == string(specFingerprint(pub)))
}

// C13: unencrypted secret packets.
func VL_C13_master(seed [32]byte, sec, exp uint32, empty bool) {
	k, err := NewED25519MasterKey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp))
	v.Assert("the key is made", err == nil)
	out, err := k.EncodePrivatePacket(specNoPassword(empty))
	v.Assert("encoding succeeds", err == nil)
	v.Assert("secret packet", string(out) == string(specPacket(5, specSecret(specEdPublic(seed[:], sec), seed[:]))))
}

func VL_C13_edsub(seed [32]byte, sec, exp uint32, empty bool) {
	k, err := NewED25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp))
	v.Assert("the key is made", err == nil)
	out, err := k.EncodePrivatePacket(specNoPassword(empty))
	v.Assert("encoding succeeds", err == nil)
	v.Assert("secret packet", string(out) == string(specPacket(7, specSecret(specEdPublic(seed[:], sec), seed[:]))))
}

func VL_C13_cvsub(seed [32]byte, sec, exp uint32, empty bool) {
	k, err := NewCurve25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specTime(exp), nil)
	v.Assert("the key is made", err == nil)
	out, err := k.EncodePrivatePacket(specNoPassword(empty))
	v.Assert("encoding succeeds", err == nil)
	v.Assert("secret packet", string(out) == string(specPacket(7, specSecret(specCvPublic(seed[:], sec), specCvSecret(seed[:])))))
}

func specNoPassword(empty bool) []byte {
	if empty {
		return []byte{}
	}
	return nil
}
