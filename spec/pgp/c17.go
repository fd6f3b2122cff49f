package pgp

import (
	v "github.com/kklash/mnemonikey/zzv"
)

//verif:uses EncryptS2K

// specIn is everything a key set is made of. Bit i of has: subkey i (encryption,
// authentication, signing) is present.
type specIn struct {
	seed      [32]byte
	subs      [3][32]byte
	has       uint8
	sec, ttl  uint32
	name      string
	password  []byte
	protected bool
}

func specKeySet(in *specIn) *KeySet {
	s := &KeySet{UserID: &UserID{Name: in.name}, MasterKey: specMaster(in.seed, in.sec, in.ttl)}
	if in.has&1 != 0 {
		s.EncryptionSubkey = specCvSub(in.subs[0], in.sec, in.ttl)
	}
	if in.has&2 != 0 {
		s.AuthenticationSubkey = specEdSub(in.subs[1], in.sec, in.ttl)
	}
	if in.has&4 != 0 {
		s.SigningSubkey = specEdSub(in.subs[2], in.sec, in.ttl)
	}
	return s
}

// specSecretPacket is a secret packet; of a protected one salt and IV are taken from out.
func specSecretPacket(in *specIn, tag byte, public, secret, out []byte) []byte {
	if !in.protected {
		return specPacket(tag, specSecret(public, secret))
	}
	if w := v.Noted("s2k", secret); len(w) == 24 {
		return specPacket(tag, specCat(public, specProtect(secret, in.password, w[:8], w[8:])))
	}
	n := len(public) + 4 + 8 + 1 + 16 + len(specMPI(secret)) + 20
	at := 1 + len(specLen(n)) + len(public) + 4
	if at+25 > len(out) {
		return nil
	}
	return specPacket(tag, specCat(public, specProtect(secret, in.password, out[at:at+8], out[at+9:at+25])))
}

// specGroup is subkey i's secret packet and binding signature, or nothing.
func specGroup(in *specIn, i int, out []byte) []byte {
	if in.has>>uint(i)&1 == 0 {
		return nil
	}
	sub := in.subs[i][:]
	if i == 0 {
		pub := specCvPublic(sub, in.sec)
		return specCat(specSecretPacket(in, 7, pub, specCvSecret(sub), out), specPacket(2, specBind(in.seed[:], pub, in.sec, in.sec, in.ttl, 4+8, nil)))
	}
	pub := specEdPublic(sub, in.sec)
	if i == 1 {
		return specCat(specSecretPacket(in, 7, pub, sub, out), specPacket(2, specBind(in.seed[:], pub, in.sec, in.sec, in.ttl, 32, nil)))
	}
	return specCat(specSecretPacket(in, 7, pub, sub, out), specPacket(2, specBind(in.seed[:], pub, in.sec, in.sec, in.ttl, 2, sub)))
}

// specHead is what precedes the subkeys of a full export.
func specHead(in *specIn, out []byte) []byte {
	pub := specEdPublic(in.seed[:], in.sec)
	return specCat(specSecretPacket(in, 5, pub, in.seed[:], out), specPacket(13, []byte(in.name)), specPacket(2, specCert(in.seed[:], in.sec, in.ttl, []byte(in.name))))
}

// specStub is what precedes the subkeys of a subkey-only export.
func specStub(in *specIn, cert bool) []byte {
	pub := specEdPublic(in.seed[:], in.sec)
	h := specCat(specPacket(5, specCat(pub, []byte("\xfe\x00\x65\x00GNU\x01"))), specPacket(13, []byte(in.name)))
	if cert {
		h = specCat(h, specPacket(2, specCert(in.seed[:], in.sec, in.ttl, []byte(in.name))))
	}
	return h
}

var specOrders = "012021102120201210"

// specOrdered is the head followed by the groups in order number o of the six.
func specOrdered(in *specIn, o int, head, out []byte) []byte {
	for k := 0; k < 3; k++ {
		rest := []byte{}
		if in.protected {
			if len(head) > len(out) {
				return nil
			}
			rest = out[len(head):]
		}
		head = specCat(head, specGroup(in, int(specOrders[3*o+k]-'0'), rest))
	}
	return head
}

func specEach(f func(o int) bool) []bool {
	var r []bool
	for o := 0; o < 6; o++ {
		r = append(r, f(o))
	}
	return r
}

// C17: the full export without a password, and that it is a function of the key set.
func specFull(seed, enc, auth, sign [32]byte, has uint8, sec, ttl uint32, name string) {
	v.Assume(len(name) < 1<<31)
	in := &specIn{seed: seed, subs: [3][32]byte{enc, auth, sign}, has: has, sec: sec, ttl: ttl, name: name}
	set := specKeySet(in)
	out, err := set.EncodePackets(nil)
	v.Assert("the export succeeds", err == nil)
	head := specHead(in, nil)
	v.Assert("master key, user ID, self-certification, and each subkey with its binding", v.AnyOf(specEach(func(o int) bool {
		return string(out) == string(specOrdered(in, o, head, nil))
	})...))
	again, err := set.EncodePackets([]byte{})
	v.Assert("the export succeeds again", err == nil)
	v.Assert("the export is a function of the key set", string(again) == string(out))
}

func VL_C17_full0(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 0, sec, ttl, name)
}

func VL_C17_full1(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 1, sec, ttl, name)
}

func VL_C17_full2(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 2, sec, ttl, name)
}

func VL_C17_full3(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 3, sec, ttl, name)
}

func VL_C17_full4(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 4, sec, ttl, name)
}

func VL_C17_full5(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 5, sec, ttl, name)
}

func VL_C17_full6(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 6, sec, ttl, name)
}

func VL_C17_full7(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specFull(seed, enc, auth, sign, 7, sec, ttl, name)
}

// C17: the order is fixed by the master key alone: two key sets with the same master
// secret, whatever else differs, are exported in the same order.
func specSameOrder(seed [32]byte, subs1, subs2 [3][32]byte, has uint8, sec1, sec2, ttl1, ttl2 uint32, name1, name2 string) {
	v.Assume(len(name1) < 100 && len(name2) < 100)
	in1 := &specIn{seed: seed, subs: subs1, has: 7, sec: sec1, ttl: ttl1, name: name1}
	in2 := &specIn{seed: seed, subs: subs2, has: has, sec: sec2, ttl: ttl2, name: name2}
	out1, err1 := specKeySet(in1).EncodePackets(nil)
	out2, err2 := specKeySet(in2).EncodePackets(nil)
	v.Assert("both exports succeed", err1 == nil && err2 == nil)
	head1, head2 := specHead(in1, nil), specHead(in2, nil)
	v.Assert("the order depends on the master key alone", v.AnyOf(specEach(func(o int) bool {
		return v.AllOf(string(out1) == string(specOrdered(in1, o, head1, nil)), string(out2) == string(specOrdered(in2, o, head2, nil)))
	})...))
}

func VL_C17_order3(seed [32]byte, subs1, subs2 [3][32]byte, sec1, sec2, ttl1, ttl2 uint32, name1, name2 string) {
	specSameOrder(seed, subs1, subs2, 3, sec1, sec2, ttl1, ttl2, name1, name2)
}

func VL_C17_order5(seed [32]byte, subs1, subs2 [3][32]byte, sec1, sec2, ttl1, ttl2 uint32, name1, name2 string) {
	specSameOrder(seed, subs1, subs2, 5, sec1, sec2, ttl1, ttl2, name1, name2)
}

func VL_C17_order6(seed [32]byte, subs1, subs2 [3][32]byte, sec1, sec2, ttl1, ttl2 uint32, name1, name2 string) {
	specSameOrder(seed, subs1, subs2, 6, sec1, sec2, ttl1, ttl2, name1, name2)
}

func VL_C17_order7(seed [32]byte, subs1, subs2 [3][32]byte, sec1, sec2, ttl1, ttl2 uint32, name1, name2 string) {
	specSameOrder(seed, subs1, subs2, 7, sec1, sec2, ttl1, ttl2, name1, name2)
}

// C17: with a password the export has the same packets, every secret one protected.
func specFullProtected(seed, enc, auth, sign [32]byte, has uint8, sec, ttl uint32, name string, password []byte) {
	v.Assume(len(name) < 100 && len(password) > 0)
	in := &specIn{seed: seed, subs: [3][32]byte{enc, auth, sign}, has: has, sec: sec, ttl: ttl, name: name, password: password, protected: true}
	out, err := specKeySet(in).EncodePackets(password)
	v.Assert("the export succeeds", err == nil)
	head := specHead(in, out)
	v.Assert("every secret packet is protected", v.AnyOf(specEach(func(o int) bool {
		return string(out) == string(specOrdered(in, o, head, out))
	})...))
}

func VL_C17_protected0(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string, password []byte) {
	specFullProtected(seed, enc, auth, sign, 0, sec, ttl, name, password)
}

func VL_C17_protected1(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string, password []byte) {
	specFullProtected(seed, enc, auth, sign, 1, sec, ttl, name, password)
}

func VL_C17_protected2(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string, password []byte) {
	specFullProtected(seed, enc, auth, sign, 2, sec, ttl, name, password)
}

func VL_C17_protected4(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string, password []byte) {
	specFullProtected(seed, enc, auth, sign, 4, sec, ttl, name, password)
}

func VL_C17_protected7(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string, password []byte) {
	specFullProtected(seed, enc, auth, sign, 7, sec, ttl, name, password)
}
