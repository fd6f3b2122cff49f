package main

import (
	"encoding/binary"
	"errors"
	"time"

	"github.com/kklash/mnemonikey/pgp"
	v "github.com/kklash/mnemonikey/zzv"
)

// Contracts that proofs about the command line assume.

var errPrompt error = errors.New("no password")

// The password prompt (goroutines and signals are out of reach).
func M_github_com_kklash_mnemonikey_cmd_mnemonikey_userInputPassword(prompt string, confirm bool) ([]byte, error) {
	p, ok := v.EnterPassword(confirm)
	if !ok {
		return nil, errPrompt
	}
	return p, nil
}

// Exporting is some function of what the key set holds, of the password, and of fresh
// randomness if there is a password. (C12 to C18 and C20 decide which function.)
func M___github_com_kklash_mnemonikey_pgp_KeySet__EncodePackets(k *pgp.KeySet, password []byte) ([]byte, error) {
	return specExport("all", k, password), nil
}

func M___github_com_kklash_mnemonikey_pgp_KeySet__EncodeSubkeyPackets(k *pgp.KeySet, password []byte, withSelfCert bool) ([]byte, error) {
	if withSelfCert {
		return specExport("certified", k, password), nil
	}
	return specExport("subkeys", k, password), nil
}

// The passwords exports were protected with.
var specPasswords []string

func specExport(kind string, k *pgp.KeySet, password []byte) []byte {
	parts := []string{kind, k.UserID.Name, k.UserID.Email}
	parts = specKey(parts, k.MasterKey.Private, k.MasterKey.Creation, k.MasterKey.Expiry)
	if s := k.EncryptionSubkey; s != nil {
		parts = specKey(append(parts, "e"), s.Private, s.Creation, s.Expiry)
	}
	if s := k.AuthenticationSubkey; s != nil {
		parts = specKey(append(parts, "a"), s.Private, s.Creation, s.Expiry)
	}
	if s := k.SigningSubkey; s != nil {
		parts = specKey(append(parts, "s"), s.Private, s.Creation, s.Expiry)
	}
	specPasswords = append(specPasswords, string(password))
	if len(password) > 0 {
		parts = append(parts, string(password), v.FreshString("salt"))
	}
	return []byte(v.Fun("export", parts...))
}

func specKey(parts []string, private []byte, creation, expiry time.Time) []string {
	end := "never"
	if !expiry.IsZero() {
		end = specNum(expiry.Unix())
	}
	return append(parts, string(private), specNum(creation.Unix()), end)
}

func specNum(n int64) string {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(n))
	return string(b)
}
