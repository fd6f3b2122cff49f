package pgp

import (
	v "github.com/kklash/mnemonikey/zzv"
)

// specPkt is a packet or subpacket: tag or type, and body.
type specPkt struct {
	tag  byte
	body []byte
}

// specUnlen reads a new-format length.
func specUnlen(b []byte) (n, size int) {
	if b[0] < 192 {
		return int(b[0]), 1
	}
	if b[0] < 255 {
		return (int(b[0])-192)<<8 + int(b[1]) + 192, 2
	}
	return int(b[1])<<24 + int(b[2])<<16 + int(b[3])<<8 + int(b[4]), 5
}

// specParse splits an export into its packets.
func specParse(b []byte) []specPkt {
	var out []specPkt
	for len(b) > 0 {
		v.Assert("new-format packet tag", b[0] >= 192)
		n, k := specUnlen(b[1:])
		v.Assert("packet length within the export", n <= len(b)-1-k)
		out = append(out, specPkt{b[0] - 192, b[1+k : 1+k+n]})
		b = b[1+k+n:]
	}
	return out
}

// specSubs splits a subpacket area.
func specSubs(b []byte) []specPkt {
	var out []specPkt
	for len(b) > 0 {
		n, k := specUnlen(b)
		v.Assert("subpacket length within the area", n >= 1 && n <= len(b)-k)
		out = append(out, specPkt{b[k], b[k+1 : k+n]})
		b = b[k+n:]
	}
	return out
}

// specAreas gives the subpackets of a signature body.
func specAreas(body []byte) (hashed, unhashed []specPkt) {
	n := int(body[4])<<8 + int(body[5])
	rest := body[6+n:]
	u := int(rest[0])<<8 + int(rest[1])
	return specSubs(body[6 : 6+n]), specSubs(rest[2 : 2+u])
}

// specFlags checks that a signature carries exactly one key flags subpacket, hashed, with
// exactly those flags, and no embedded signature, or exactly one, unhashed, that equals cross.
func specFlags(body []byte, flags byte, cross []byte) {
	hashed, unhashed := specAreas(body)
	nf, ne := 0, 0
	for _, p := range hashed {
		v.Assert("the embedded signature is not hashed", p.tag != 32)
		if p.tag == 27 {
			nf++
			v.Assert("key flags match the purpose", len(p.body) == 1 && p.body[0] == flags)
		}
	}
	for _, p := range unhashed {
		v.Assert("the key flags are hashed", p.tag != 27)
		if p.tag == 32 {
			ne++
			v.Assert("only signing subkeys are cross-certified", cross != nil)
			v.Assert("cross-certification by the subkey", string(p.body) == string(cross))
		}
	}
	v.Assert("one key flags subpacket", nf == 1)
	v.Assert("the signing subkey is cross-certified", ne == 1 || cross == nil)
}

// C16: the master key.
func VL_C16_master(seed [32]byte, sec, ttl uint32, name string) {
	v.Assume(len(name) < 1<<32)
	specFlags(specMaster(seed, sec, ttl).SelfCertify(&UserID{Name: name}).Encode(), 1, nil)
}

// specBinding exports a key set with a single subkey and gives the binding signature.
func specBinding(set *KeySet) []byte {
	out, err := set.EncodeSubkeyPackets(nil, false)
	v.Assert("encoding succeeds", err == nil)
	ps := specParse(out)
	v.Assert("stub, user ID, subkey and binding signature", len(ps) == 4 && ps[2].tag == 7 && ps[3].tag == 2)
	return ps[3].body
}

// C16: each kind of subkey.
func VL_C16_enc(seed, sub [32]byte, sec, subSec, ttl uint32) {
	specFlags(specBinding(&KeySet{UserID: &UserID{Name: "u"}, MasterKey: specMaster(seed, sec, ttl), EncryptionSubkey: specCvSub(sub, subSec, ttl)}), 4+8, nil)
}

func VL_C16_auth(seed, sub [32]byte, sec, subSec, ttl uint32) {
	specFlags(specBinding(&KeySet{UserID: &UserID{Name: "u"}, MasterKey: specMaster(seed, sec, ttl), AuthenticationSubkey: specEdSub(sub, subSec, ttl)}), 32, nil)
}

func VL_C16_sign(seed, sub [32]byte, sec, subSec, ttl uint32) {
	pub := specEdPublic(sub[:], subSec)
	data := specCat(specHashedKey(specEdPublic(seed[:], sec)), specHashedKey(pub))
	specFlags(specBinding(&KeySet{UserID: &UserID{Name: "u"}, MasterKey: specMaster(seed, sec, ttl), SigningSubkey: specEdSub(sub, subSec, ttl)}), 2,
		specSign(sub[:], pub, 0x19, subSec, data, nil, nil))
}
