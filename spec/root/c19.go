package mnemonikey

import (
	"time"

	v "github.com/kklash/mnemonikey/zzv"
)

func specTTLOK(ttl int64) bool {
	return ttl == 0 || ttl >= 1e9 && ttl/1e9 <= 1<<32-1
}

// C19: which lifetimes are accepted.
func VL_C19_range(seed [16]byte, offset uint32, ttl int64) {
	v.Assume(offset < 1<<31)
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), &KeyOptions{TTL: time.Duration(ttl), Subkeys: []SubkeyType{}})
	v.Assert("refused exactly when the format cannot express it", (err == nil) == specTTLOK(ttl))
	v.Assert("no key with an error", (mnk == nil) == (err != nil))
}

// C19: the expiry of an accepted key, in the key and in every signature.
func VL_C19_expiry(seed [16]byte, offset, nsec, ttl, rest uint32) {
	v.Assume(offset < 1<<31-1 && nsec < 1e9 && rest < 1e9 && ttl > 0)
	sec := int64(specFirst) + int64(offset)
	mnk, err := New(specSeed(seed), time.Unix(sec, int64(nsec)), &KeyOptions{TTL: time.Duration(ttl)*time.Second + time.Duration(rest)})
	v.Assert("the key is made", err == nil)
	end := mnk.Expiry()
	v.Assert("the expiry is creation plus lifetime", end.Unix() == sec+int64(ttl) && end.Nanosecond() == 0)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("every signature carries exactly the lifetime", specIsExport(out, seed, uint32(sec), ttl, "", 7, [3]uint16{}))
}

// C19: no expiry without a lifetime.
func VL_C19_none(seed [16]byte, offset, nsec uint32) {
	v.Assume(offset < 1<<31-1 && nsec < 1e9)
	sec := int64(specFirst) + int64(offset)
	mnk, err := New(specSeed(seed), time.Unix(sec, int64(nsec)), &KeyOptions{})
	v.Assert("the key is made", err == nil)
	v.Assert("there is no expiry", mnk.Expiry().IsZero())
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("no signature carries an expiry", specIsExport(out, seed, uint32(sec), 0, "", 7, [3]uint16{}))
}
