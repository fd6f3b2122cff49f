package pgp

// SpecIsExport says whether out is a full unencrypted export of these keys, in one of
// the six orders of subkeys (for specifications in other packages).
func SpecIsExport(out []byte, seed []byte, subs [3][]byte, has uint8, sec, ttl uint32, user string) []bool {
	in := &specIn{has: has, sec: sec, ttl: ttl, name: user}
	copy(in.seed[:], seed)
	for i := range subs {
		copy(in.subs[i][:], subs[i])
	}
	head := specHead(in, nil)
	return specEach(func(o int) bool { return string(out) == string(specOrdered(in, o, head, nil)) })
}

// SpecFingerprint is the fingerprint of an EdDSA key, or of an ECDH key.
func SpecFingerprint(seed []byte, ecdh bool, sec uint32) []byte {
	if ecdh {
		return specFingerprint(specCvPublic(seed, sec))
	}
	return specFingerprint(specEdPublic(seed, sec))
}
