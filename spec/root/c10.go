package mnemonikey

//verif:uses EncodeToIndices

import (
	"errors"
	"time"

	v "github.com/kklash/mnemonikey/zzv"
)

// C10: which creation times are accepted, and the errors for the others.
func VL_C10_range(seed [16]byte, sec int64, nsec uint32) {
	v.Assume(sec > -1<<55 && sec < 1<<55 && nsec < 1e9)
	mnk, err := New(specSeed(seed), time.Unix(sec, int64(nsec)), &KeyOptions{Subkeys: []SubkeyType{}})
	early := sec < specFirst
	late := sec > specLast || sec == specLast && nsec > 0
	v.Assert("accepted exactly in range", (err == nil) == (!early && !late))
	v.Assert("no key with an error", (mnk == nil) == (err != nil))
	v.Assert("too early is ErrCreationTooEarly", errors.Is(err, ErrCreationTooEarly) == early)
	v.Assert("too late is ErrCreationTooLate", errors.Is(err, ErrCreationTooLate) == late)
}

// C10: the creation time of an accepted key.
func VL_C10_keep(seed [16]byte, half, nsec uint32) {
	offset := half >> 1
	v.Assume(nsec < 1e9 && (nsec == 0 || offset < 1<<31-1))
	sec := int64(specFirst) + int64(offset)
	mnk, err := New(specSeed(seed), time.Unix(sec, int64(nsec)), &KeyOptions{Subkeys: []SubkeyType{}})
	v.Assert("the key is made", err == nil)
	at := mnk.CreatedAt()
	v.Assert("the creation time is the whole second", at.Unix() == sec && at.Nanosecond() == 0)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("the export has that creation time", specIsExport(out, seed, uint32(sec), 0, "", 0, [3]uint16{}))
	words, err := mnk.EncodeMnemonicPlaintext()
	v.Assert("the phrase is made", err == nil)
	want, err := EncodeMnemonicPlaintext(specSeed(seed), offset)
	v.Assert("the expected phrase is made", err == nil)
	v.Assert("the phrase has the offset", specSameWords(words, want))
}

// C10: nil options are the defaults.
func VL_C10_defaults(seed [16]byte, offset uint32) {
	v.Assume(offset < 1<<31)
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), nil)
	v.Assert("the key is made", err == nil)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("the export has that creation time in every part", specIsExport(out, seed, specFirst+offset, 0, "", 7, [3]uint16{}))
}

func specSameWords(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
