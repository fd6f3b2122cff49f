package pgp

import (
	"math/big"

	v "github.com/kklash/mnemonikey/zzv"
)

// specBE is x in n big-endian bytes.
func specBE(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[n-1-i] = byte(x >> (8 * uint(i)))
	}
	return b
}

// specLen is the new-format body length.
func specLen(n int) []byte {
	if n < 192 {
		return specBE(uint64(n), 1)
	}
	if n < 8384 {
		return specBE(uint64(192<<8+n-192), 2)
	}
	return append([]byte{255}, specBE(uint64(n), 4)...)
}

// specPacket is a whole packet.
func specPacket(tag byte, body []byte) []byte {
	return specCat([]byte{192 + tag}, specLen(len(body)), body)
}

// specSub is a whole subpacket.
func specSub(typ byte, body []byte) []byte {
	return specCat(specLen(len(body)+1), []byte{typ}, body)
}

// specArea is a subpacket area holding the given encoded subpackets.
func specArea(subs ...[]byte) []byte {
	all := specCat(subs...)
	return specCat(specBE(uint64(len(all)), 2), all)
}

func specCat(parts ...[]byte) []byte {
	all := ""
	for _, s := range parts {
		all += string(s)
	}
	return []byte(all)
}

// specMPI is the two-byte bit count and the minimal big-endian bytes.
func specMPI(x []byte) []byte {
	n := new(big.Int).SetBytes(x)
	return specCat(specBE(uint64(n.BitLen()), 2), n.Bytes())
}

// C20: packets.
func VL_C20_packet(tag uint8, body []byte) {
	v.Assume(tag < 64 && len(body) < 1<<32)
	keep := append([]byte{}, body...)
	out := EncodePacket(PacketTag(tag), body)
	v.Assert("a packet is tag byte, length and body", string(out) == string(specPacket(tag, keep)))
	v.Assert("the body passed in is not modified", string(body) == string(keep))
}

// C20: subpackets.
func VL_C20_subpacket(typ uint8, body []byte) {
	v.Assume(len(body) < 1<<32-1)
	keep := append([]byte{}, body...)
	sp := &Subpacket{Type: SubpacketType(typ), Body: body}
	v.Assert("a subpacket is length, type and body", string(sp.Encode()) == string(specSub(typ, keep)))
	v.Assert("the body passed in is not modified", string(body) == string(keep))
}

// specSignature checks the encoding of a signature with the given subpackets.
func specSignature(typ uint8, hash, r, s [32]byte, hashed, unhashed []*Subpacket, hs, us [][]byte) {
	sig := &Signature{HashedSubpackets: hashed, UnhashedSubpackets: unhashed, Type: SignatureType(typ),
		HashFunction: HashFuncSHA256, SigHash: hash[:], R: new(big.Int).SetBytes(r[:]), S: new(big.Int).SetBytes(s[:])}
	want := specCat([]byte{4, typ, 22, 8}, specArea(hs...), specArea(us...), hash[:2], specMPI(r[:]), specMPI(s[:]))
	out := sig.Encode()
	v.Assert("subpacket areas are length and subpackets in order", string(out) == string(want))
}

// C20: subpacket areas, as they appear in a signature: bodies of any length.
func VL_C20_hashed(typ uint8, hash, r, s [32]byte, t0, t1 uint8, b0, b1 []byte) {
	v.Assume(len(b0) < 30000 && len(b1) < 30000)
	specSignature(typ, hash, r, s, []*Subpacket{{SubpacketType(t0), b0}, {SubpacketType(t1), b1}}, nil,
		[][]byte{specSub(t0, b0), specSub(t1, b1)}, nil)
}
func VL_C20_unhashed(typ uint8, hash, r, s [32]byte, t0, t1 uint8, b0, b1 []byte) {
	v.Assume(len(b0) < 30000 && len(b1) < 30000)
	specSignature(typ, hash, r, s, nil, []*Subpacket{{SubpacketType(t0), b0}, {SubpacketType(t1), b1}},
		nil, [][]byte{specSub(t0, b0), specSub(t1, b1)})
}

// C20: subpacket areas with up to ten subpackets of short bodies each.
func VL_C20_many(typ uint8, hash, r, s [32]byte, types [10]uint8, bodies [10]string, nh, nu uint8) {
	v.Assume(nh <= 10 && nu <= 2)
	var h, u []*Subpacket
	var hs, us [][]byte
	for i := 0; i < 10; i++ {
		v.Assume(len(bodies[i]) < 191)
		b := []byte(bodies[i])
		if i < int(nh) {
			h = append(h, &Subpacket{SubpacketType(types[i]), b})
			hs = append(hs, specSub(types[i], b))
		} else if i < int(nh)+int(nu) {
			u = append(u, &Subpacket{SubpacketType(types[i]), b})
			us = append(us, specSub(types[i], b))
		}
	}
	specSignature(typ, hash, r, s, h, u, hs, us)
}
