package mnemonikey

import (
	"math/big"
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
)

// C06: the decoder accepts exactly the well-formed phrases.
func VL_C06_accept(words []string) {
	dm, err := DecodeMnemonic(words)
	v.Assert("accepted exactly when well-formed", (err == nil) == specAccept(words))
	if err != nil {
		v.Assert("no decoded phrase with an error", dm == nil)
	} else {
		v.Assert("a decoded phrase without an error", dm != nil)
	}
}

// C06: what a version number says about its phrases, unknown ones included.
func VL_C06_version(version uint64) {
	ver := MnemonicVersion(version)
	switch version {
	case 0:
		v.Assert("version 0: era 0, 14 words, not encrypted", v.AllOf(ver.Era() == 0, ver.MnemonicSize() == 14, !ver.Encrypted()))
	case 1:
		v.Assert("version 1: era 0, 16 words, encrypted", v.AllOf(ver.Era() == 0, ver.MnemonicSize() == 16, ver.Encrypted()))
	default:
		v.Assert("unknown versions have no era, no words and no encryption", v.AllOf(ver.Era() == -1, ver.MnemonicSize() == 0, !ver.Encrypted()))
	}
}

// C07: plaintext phrases: fields are the bits, and re-encoding gives the words back.
func VL_C07_plain(typed [14]string) {
	dm, err := DecodeMnemonic(typed[:])
	v.Assume(err == nil)
	payload, ok := specPayload(typed[:])
	v.Assert("only list words are accepted", ok)
	v.Assert("version is the leading field", uint64(dm.Version) == specField(payload, 164, 4).Uint64())
	v.Assert("version 0", dm.Version == 0 && !dm.Encrypted())
	v.Assert("offset is its field", uint64(dm.CreationOffset()) == specField(payload, 5, 31).Uint64())
	seed, err := dm.Seed()
	v.Assert("the seed is available", err == nil)
	v.Assert("seed is its field", seed.Int().Cmp(specField(payload, 36, 128)) == 0)
	again, err := EncodeMnemonicPlaintext(seed, dm.CreationOffset())
	v.Assert("re-encoding succeeds", err == nil)
	v.Assert("re-encoding gives as many words", len(again) == 14)
	for i := 0; i < 14; i++ {
		v.Assert("re-encoding gives the same words in lower case", again[i] == strings.ToLower(typed[i]))
	}
}

// C07: encrypted phrases: fields are the bits.
func VL_C07_encrypted(typed [16]string) {
	dm, err := DecodeMnemonic(typed[:])
	v.Assume(err == nil)
	payload, ok := specPayload(typed[:])
	v.Assert("only list words are accepted", ok)
	v.Assert("version is the leading field", uint64(dm.Version) == specField(payload, 188, 4).Uint64())
	v.Assert("version 1", dm.Version == 1 && dm.Encrypted())
	v.Assert("offset is its field", uint64(dm.CreationOffset()) == specField(payload, 5, 31).Uint64())
	v.Assert("creation time is its field", dm.Creation().Unix() == 1672531200+int64(specField(payload, 5, 31).Uint64()))
	_ = new(big.Int)
}
