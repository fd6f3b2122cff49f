package mnemonikey

import (
	"time"

	"github.com/kklash/mnemonikey/pgp"
	v "github.com/kklash/mnemonikey/zzv"
)

func specUser(name, email string) string {
	if email == "" {
		return name
	}
	if name == "" {
		return email
	}
	return name + " <" + email + ">"
}

// C21: the user ID the key reports, exports and certifies.
func VL_C21_user(seed [16]byte, offset uint32, name, email string) {
	v.Assume(offset < 1<<31 && len(name) < 1<<30 && len(email) < 1<<30)
	mnk, err := New(specSeed(seed), time.Unix(int64(specFirst)+int64(offset), 0), &KeyOptions{Name: name, Email: email, Subkeys: []SubkeyType{}})
	v.Assert("the key is made", err == nil)
	user := specUser(name, email)
	v.Assert("the reported user ID", mnk.UserID() == user)
	out, err := mnk.EncodePGP(nil)
	v.Assert("the export succeeds", err == nil)
	v.Assert("the exported and certified user ID", specIsExport(out, seed, specFirst+offset, 0, user, 0, [3]uint16{}))
}

// C21: the user ID by itself.
func VL_C21_encode(name, email string) {
	id := &pgp.UserID{Name: name, Email: email}
	user := specUser(name, email)
	v.Assert("the user ID", string(id.Encode()) == user)
	v.Assert("name and email are kept", id.Name == name && id.Email == email)
}
