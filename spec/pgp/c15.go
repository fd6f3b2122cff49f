package pgp

import (
	"crypto/ed25519"
	"crypto/sha256"
	"time"

	v "github.com/kklash/mnemonikey/zzv"
)

// specSign is the body of a V4 EdDSA signature over SHA-256 by the key with the given
// seed, public part and signature time; hashed and unhashed are the subpackets after
// the issuer and time subpackets every signature starts with.
func specSign(seed, public []byte, typ byte, sec uint32, data, hashed, unhashed []byte) []byte {
	fpr := specFingerprint(public)
	head := specCat([]byte{4, typ, 22, 8}, specArea(specSub(33, specCat([]byte{4}, fpr)), specSub(2, specBE(uint64(sec), 4)), hashed))
	digest := sha256.Sum256(specCat(data, head, []byte{4, 255}, specBE(uint64(len(head)), 4)))
	sig := ed25519.Sign(ed25519.NewKeyFromSeed(seed), digest[:])
	return specCat(head, specArea(specSub(16, fpr[12:]), unhashed), digest[:2], specMPI(sig[:32]), specMPI(sig[32:]))
}

// specExpiry is the key expiration subpacket, absent without an expiry.
func specExpiry(ttl uint32) []byte {
	if ttl == 0 {
		return nil
	}
	return specSub(9, specBE(uint64(ttl), 4))
}

// specHashedKey is a public part as it is signed.
func specHashedKey(public []byte) []byte {
	return specCat([]byte{0x99}, specBE(uint64(len(public)), 2), public)
}

// specCert is the self-certification.
func specCert(seed []byte, sec, ttl uint32, uid []byte) []byte {
	public := specEdPublic(seed, sec)
	data := specCat(specHashedKey(public), []byte{0xB4}, specBE(uint64(len(uid)), 4), uid)
	hashed := specCat(specSub(27, []byte{1}), specExpiry(ttl), specSub(11, []byte{9, 8, 7, 2}), specSub(21, []byte{10, 9, 8, 11, 2}),
		specSub(22, []byte{2, 3, 1}), specSub(30, []byte{1}), specSub(23, []byte{0x80}))
	return specSign(seed, public, 0x13, sec, data, hashed, nil)
}

// specBind is a binding signature; cross is the seed of a signing subkey, or nil.
func specBind(seed, sub []byte, sec, subSec, ttl uint32, flags byte, cross []byte) []byte {
	public := specEdPublic(seed, sec)
	data := specCat(specHashedKey(public), specHashedKey(sub))
	var unhashed []byte
	if cross != nil {
		unhashed = specSub(32, specSign(cross, sub, 0x19, subSec, data, nil, nil))
	}
	return specSign(seed, public, 0x18, subSec, data, specCat(specSub(27, []byte{flags}), specExpiry(ttl)), unhashed)
}

func specMaster(seed [32]byte, sec, ttl uint32) *ED25519MasterKey {
	k, err := NewED25519MasterKey(append([]byte{}, seed[:]...), specTime(sec), specEnd(sec, ttl))
	v.Assert("the master key is made", err == nil)
	return k
}

func specEdSub(seed [32]byte, sec, ttl uint32) *ED25519Subkey {
	k, err := NewED25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specEnd(sec, ttl))
	v.Assert("the subkey is made", err == nil)
	return k
}

func specCvSub(seed [32]byte, sec, ttl uint32) *Curve25519Subkey {
	k, err := NewCurve25519Subkey(append([]byte{}, seed[:]...), specTime(sec), specEnd(sec, ttl), nil)
	v.Assert("the subkey is made", err == nil)
	return k
}

// specEnd is the expiry: none, or that many seconds after creation.
func specEnd(sec, ttl uint32) time.Time {
	if ttl == 0 {
		return time.Time{}
	}
	return time.Unix(int64(sec)+int64(ttl), 0).UTC()
}

// C15: the self-certification, with and without expiry, for any user ID.
func VL_C15_cert(seed [32]byte, sec, ttl uint32, name string) {
	v.Assume(len(name) < 1<<32)
	sig := specMaster(seed, sec, ttl).SelfCertify(&UserID{Name: name})
	v.Assert("self-certification packet", string(sig.EncodePacket()) == string(specPacket(2, specCert(seed[:], sec, ttl, []byte(name)))))
}

// specOnly checks the export of a key set with a single subkey.
func specOnly(set *KeySet, seed [32]byte, sec, ttl uint32, secret, bind []byte) {
	out, err := set.EncodeSubkeyPackets(nil, false)
	v.Assert("encoding succeeds", err == nil)
	stub := specPacket(5, specCat(specEdPublic(seed[:], sec), []byte("\xfe\x00\x65\x00GNU\x01")))
	want := specCat(stub, specPacket(13, []byte("u")), specPacket(7, secret), specPacket(2, bind))
	v.Assert("secret packet and its binding signature", string(out) == string(want))
}

// C15: binding signatures of each kind of subkey.
func VL_C15_enc(seed, sub [32]byte, sec, subSec, ttl uint32) {
	set := &KeySet{UserID: &UserID{Name: "u"}, MasterKey: specMaster(seed, sec, ttl), EncryptionSubkey: specCvSub(sub, subSec, ttl)}
	pub := specCvPublic(sub[:], subSec)
	specOnly(set, seed, sec, ttl, specSecret(pub, specCvSecret(sub[:])), specBind(seed[:], pub, sec, subSec, ttl, 4+8, nil))
}

func VL_C15_auth(seed, sub [32]byte, sec, subSec, ttl uint32) {
	set := &KeySet{UserID: &UserID{Name: "u"}, MasterKey: specMaster(seed, sec, ttl), AuthenticationSubkey: specEdSub(sub, subSec, ttl)}
	pub := specEdPublic(sub[:], subSec)
	specOnly(set, seed, sec, ttl, specSecret(pub, sub[:]), specBind(seed[:], pub, sec, subSec, ttl, 32, nil))
}

func VL_C15_sign(seed, sub [32]byte, sec, subSec, ttl uint32) {
	set := &KeySet{UserID: &UserID{Name: "u"}, MasterKey: specMaster(seed, sec, ttl), SigningSubkey: specEdSub(sub, subSec, ttl)}
	pub := specEdPublic(sub[:], subSec)
	specOnly(set, seed, sec, ttl, specSecret(pub, sub[:]), specBind(seed[:], pub, sec, subSec, ttl, 2, sub[:]))
}
