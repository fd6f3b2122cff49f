package pgp

import (
	v "github.com/kklash/mnemonikey/zzv"
)

//verif:uses EncryptS2K

// specSubkeyExport: the subkey-only export of a key set, and that its subkeys come in the
// order of the full export. Nothing in the expected bytes is computed from the master seed
// except its public key and signatures made with it; which of the six orders is used may
// depend on it.
func specSubkeyExport(seed, enc, auth, sign [32]byte, has uint8, sec, ttl uint32, name string, cert bool) {
	v.Assume(len(name) < 1<<31)
	in := &specIn{seed: seed, subs: [3][32]byte{enc, auth, sign}, has: has, sec: sec, ttl: ttl, name: name}
	set := specKeySet(in)
	out, err := set.EncodeSubkeyPackets(nil, cert)
	v.Assert("the export succeeds", err == nil)
	full, err := set.EncodePackets(nil)
	v.Assert("the full export succeeds", err == nil)
	stub, head := specStub(in, cert), specHead(in, nil)
	v.Assert("stub, user ID, self-certification if requested, and the subkey packets of the full export", v.AnyOf(specEach(func(o int) bool {
		return v.AllOf(string(out) == string(specOrdered(in, o, stub, nil)), string(full) == string(specOrdered(in, o, head, nil)))
	})...))
}

func VL_C18_export0(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 0, sec, ttl, name, false)
}

func VL_C18_export0cert(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 0, sec, ttl, name, true)
}

func VL_C18_export1(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 1, sec, ttl, name, false)
}

func VL_C18_export2(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 2, sec, ttl, name, false)
}

func VL_C18_export3(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 3, sec, ttl, name, false)
}

func VL_C18_export4(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 4, sec, ttl, name, false)
}

func VL_C18_export5(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 5, sec, ttl, name, false)
}

func VL_C18_export6(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 6, sec, ttl, name, false)
}

func VL_C18_export7(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 7, sec, ttl, name, false)
}

func VL_C18_export7cert(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string) {
	specSubkeyExport(seed, enc, auth, sign, 7, sec, ttl, name, true)
}

// C18 with a password: every secret packet of the subkey-only export is protected.
func VL_C18_protected7(seed, enc, auth, sign [32]byte, sec, ttl uint32, name string, password []byte, cert bool) {
	v.Assume(len(name) < 100 && len(password) > 0)
	in := &specIn{seed: seed, subs: [3][32]byte{enc, auth, sign}, has: 7, sec: sec, ttl: ttl, name: name, password: password, protected: true}
	out, err := specKeySet(in).EncodeSubkeyPackets(password, cert)
	v.Assert("the protected export succeeds", err == nil)
	stub := specStub(in, cert)
	v.Assert("every secret packet is protected", v.AnyOf(specEach(func(o int) bool {
		return string(out) == string(specOrdered(in, o, stub, out))
	})...))
}
