package main

import (
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	v "github.com/kklash/mnemonikey/zzv"
)

const specFirst = 1672531200 // the first creation time, in Unix seconds

// specSelect is what the -only list selects; nil subkeys are all of them.
func specSelect(only string) (master bool, subs []mnemonikey.SubkeyType, ok bool) {
	if only == "" {
		return true, nil, true
	}
	subs = []mnemonikey.SubkeyType{}
	list := strings.Split(only, ",")
	for i := 0; i < len(list); i++ {
		switch list[i] {
		case "master":
			master = true
		case "encryption", "signing", "authentication":
			subs = append(subs, mnemonikey.SubkeyType(list[i]))
		default:
			return false, nil, false
		}
	}
	return master, subs, true
}

// C26 (bounded: lists of at most 4): what the -only list selects.
func VB_C26_only(only string) {
	if only != "" {
		v.Assume(len(strings.Split(only, ",")) <= 4)
	}
	master, subs, ok := specSelect(only)
	opts := &GenerateRecoverOptions{OnlyKeyTypes: only}
	gotMaster, gotSubs, err := opts.DecodeOnlyKeyTypes()
	v.Assert("refused exactly for an unknown name", (err == nil) == ok)
	if err != nil {
		return
	}
	v.Assert("the master key's secret exactly when asked for", gotMaster == master)
	v.Assert("all subkeys exactly without a list", (gotSubs == nil) == (subs == nil))
	for _, t := range []mnemonikey.SubkeyType{"encryption", "signing", "authentication"} {
		v.Assert("exactly the named subkeys", specHasType(gotSubs, t) == specHasType(subs, t))
	}
	for i := 0; i < len(gotSubs); i++ {
		v.Assert("nothing but subkeys", gotSubs[i] == "encryption" || gotSubs[i] == "signing" || gotSubs[i] == "authentication")
	}
}

func specHasType(l []mnemonikey.SubkeyType, t mnemonikey.SubkeyType) bool {
	for i := 0; i < len(l); i++ {
		if l[i] == t {
			return true
		}
	}
	return false
}

func VG_C26_only(r *rand.Rand) []any {
	names := []string{"master", "encryption", "signing", "authentication", "master", "", "Master", "signing ", "sign"}
	l := []string{}
	for i := r.Intn(5); i >= 0 && len(l) < 4; i-- {
		l = append(l, names[r.Intn(len(names))])
	}
	return []any{strings.Join(l, ",")}
}

// specRecover runs recover on a phrase in a file and compares with the key made by the library.
func specRecover(seed [16]byte, half uint32, only, name, email string, enc, sig, auth string, cert bool) {
	offset := half >> 1
	words, err := mnemonikey.EncodeMnemonicPlaintext(specSeed(seed), offset)
	v.Assume(err == nil)
	in := v.Path(0)
	v.SetFile(in, v.FileRegular, strings.Join(words, " ")+"\n", 0o600)
	v.Terminal(true)
	encI, err1 := strconv.ParseUint(enc, 0, 64)
	sigI, err2 := strconv.ParseUint(sig, 0, 64)
	authI, err3 := strconv.ParseUint(auth, 0, 64)
	v.Assume(err1 == nil && err2 == nil && err3 == nil) // others end the program
	args := []string{"recover", "-in-word-file", in, "-name", name, "-email", email, "-enc-index", enc, "-sig-index", sig, "-auth-index", auth}
	if only != "" {
		args = append(args, "-only", only)
	}
	if !cert {
		args = append(args, "-self-cert=false")
	}
	err = RootCommand.Run(args)
	if v.Faulted() {
		return
	}
	if v.AnyOf(encI > 65535, sigI > 65535, authI > 65535) {
		v.Assert("an index above 65535 is refused", err != nil)
		v.Assert("nothing is printed then", strings.TrimSpace(v.Stdout()) == "")
		return
	}
	master, subs, ok := specSelect(only)
	v.Assume(ok)
	key, kerr := mnemonikey.New(specSeed(seed), time.Unix(specFirst+int64(offset), 0), &mnemonikey.KeyOptions{
		Name: strings.TrimSpace(name), Email: strings.TrimSpace(email), Subkeys: subs,
		EncryptionSubkeyIndex: uint16(encI), SigningSubkeyIndex: uint16(sigI), AuthenticationSubkeyIndex: uint16(authI),
	})
	v.Assert("the key is recovered exactly when the library makes it", (err == nil) == (kerr == nil))
	if kerr != nil {
		return
	}
	armor := ""
	if master {
		armor, err = key.EncodePGPArmor(nil)
	} else {
		armor, err = key.EncodeSubkeysPGPArmor(nil, cert)
	}
	v.Assume(err == nil)
	v.Assert("the key with these options is printed", v.Stdout() == armor+"\n")
}

// C26: recovery with every selection, all indices, names and emails.
func VL_C26_recover0(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "", name, email, enc, sig, auth, cert)
}

func VG_C26_recover0(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover1(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "master", name, email, enc, sig, auth, cert)
}

func VG_C26_recover1(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover2(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "encryption", name, email, enc, sig, auth, cert)
}

func VG_C26_recover2(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover3(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "signing", name, email, enc, sig, auth, cert)
}

func VG_C26_recover3(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover4(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "authentication", name, email, enc, sig, auth, cert)
}

func VG_C26_recover4(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover5(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "master,encryption", name, email, enc, sig, auth, cert)
}

func VG_C26_recover5(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover6(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "encryption,signing", name, email, enc, sig, auth, cert)
}

func VG_C26_recover6(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover7(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "authentication,master,signing", name, email, enc, sig, auth, cert)
}

func VG_C26_recover7(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover8(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "signing,encryption,authentication", name, email, enc, sig, auth, cert)
}

func VG_C26_recover8(r *rand.Rand) []any { return specRecoverArgs(r) }

func VL_C26_recover9(seed [16]byte, half uint32, name, email, enc, sig, auth string, cert bool) {
	specRecover(seed, half, "encryption,authentication,signing,master", name, email, enc, sig, auth, cert)
}

func VG_C26_recover9(r *rand.Rand) []any { return specRecoverArgs(r) }

func specRecoverArgs(r *rand.Rand) []any {
	var seed [16]byte
	r.Read(seed[:])
	names := []string{"", "bob", " bob ", "bob@example.com", "\tx\n", "a b"}
	index := func() string {
		switch r.Intn(4) {
		case 0:
			return "0"
		case 1:
			return strconv.Itoa(65530 + r.Intn(12))
		case 2:
			return strconv.Itoa(r.Intn(70000))
		}
		return strconv.Itoa(r.Intn(300))
	}
	return []any{seed, r.Uint32(), names[r.Intn(len(names))], names[r.Intn(len(names))], index(), index(), index(), r.Intn(2) == 0}
}
