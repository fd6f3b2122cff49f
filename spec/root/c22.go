package mnemonikey

import (
	"time"

	"github.com/kklash/mnemonikey/pgp"
	v "github.com/kklash/mnemonikey/zzv"
)

func specListed(list []SubkeyType, kind SubkeyType) bool {
	for i := 0; i < len(list); i++ {
		if list[i] == kind {
			return true
		}
	}
	return false
}

// specReported: what the key reports is exactly the subkeys of has.
func specReported(mnk *Mnemonikey, seed [16]byte, sec uint32, has uint8, index [3]uint16, other string) {
	_, subs := specKeys(seed, sec, index)
	kinds := []SubkeyType{"encryption", "authentication", "signing"}
	types := mnk.SubkeyTypes()
	n := 0
	for i, kind := range kinds {
		fp := mnk.SubkeyFingerprint(kind)
		if has>>uint(i)&1 == 0 {
			v.Assert("an absent subkey has no fingerprint", fp == nil)
			continue
		}
		v.Assert("a present subkey is reported in order", n < len(types) && types[n] == kind)
		n++
		v.Assert("a present subkey's fingerprint", string(fp) == string(pgp.SpecFingerprint(subs[i], i == 0, sec)))
	}
	v.Assert("no other subkey is reported", len(types) == n)
	if other != "encryption" && other != "authentication" && other != "signing" {
		v.Assert("an unknown type has no fingerprint", mnk.SubkeyFingerprint(SubkeyType(other)) == nil)
	}
}

// C22: without a list there are three subkeys.
func VL_C22_all(seed [16]byte, offset uint32, index [3]uint16, other string) {
	v.Assume(offset < 1<<31)
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), specOpts(0, "", "", index, 7))
	v.Assert("the key is made", err == nil)
	specReported(mnk, seed, specFirst+offset, 7, index, other)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("three subkeys are exported", specIsExport(out, seed, specFirst+offset, 0, "", 7, index))
}

func specHas(list []SubkeyType) (has uint8) {
	if specListed(list, "encryption") {
		has |= 1
	}
	if specListed(list, "authentication") {
		has |= 2
	}
	if specListed(list, "signing") {
		has |= 4
	}
	return has
}

// C22: with a list, of any length and content, exactly the listed ones are reported.
func VL_C22_list(seed [16]byte, offset uint32, index [3]uint16, other string, list []SubkeyType) {
	v.Assume(offset < 1<<31)
	if list == nil {
		list = []SubkeyType{}
	}
	o := specOpts(0, "", "", index, 7)
	o.Subkeys = list
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), o)
	v.Assert("the key is made", err == nil)
	specReported(mnk, seed, specFirst+offset, specHas(list), index, other)
}

// C22: with a list, of any length and content, exactly the listed ones are exported.
func VL_C22_exported(seed [16]byte, offset uint32, index [3]uint16, list []SubkeyType) {
	v.Assume(offset < 1<<31)
	if list == nil {
		list = []SubkeyType{}
	}
	o := specOpts(0, "", "", index, 7)
	o.Subkeys = list
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), o)
	v.Assert("the key is made", err == nil)
	has := specHas(list)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("exactly the listed subkeys are exported", specIsExport(out, seed, specFirst+offset, 0, "", has, index))
}
