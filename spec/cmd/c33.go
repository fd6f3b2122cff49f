package main

import (
	"bytes"
	"math/rand"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	v "github.com/kklash/mnemonikey/zzv"
)

const specEpoch = 1672531200 // the first creation time there is

// specGenerated checks where the seed and the creation time behind the words came from.
// The seed has to be the bytes given, or without any, bytes of the system random source.
func specGenerated(words []string, password string, entropy []byte, before, after time.Time) {
	m, err := mnemonikey.DecodeMnemonic(words)
	v.Assert("the phrase decodes", err == nil)
	var seed *mnemonikey.Seed
	if password == "" {
		seed, err = m.Seed()
	} else {
		seed, err = m.DecryptSeed([]byte(password))
	}
	v.Assert("the phrase holds a seed", err == nil)
	created := specEpoch + int64(m.CreationOffset())
	v.Assert("the creation time is the time of generation", v.AllOf(before.Unix() <= created, created <= after.Unix()))
	random := v.SystemRandom()
	if entropy != nil {
		got := seed.Bytes()
		for i := range entropy {
			v.Assert("the seed is the entropy given", got[i] == entropy[i])
		}
	} else {
		v.Assert("the seed is drawn from the system random source", len(random) >= 16 && string(seed.Bytes()) == string(random[:16]))
		random = random[16:]
	}
	if password != "" {
		want, err := mnemonikey.EncodeMnemonicEncrypted(seed, m.CreationOffset(), []byte(password), bytes.NewReader(random))
		v.Assert("the salt is drawn from the system random source", err == nil && len(words) == len(want))
		for i := range want {
			v.Assert("the salt is drawn from the system random source", words[i] == want[i])
		}
	}
}

// C33: without entropy given.
func VL_C33_generate(name, email string, encrypt bool, phrase string, toFile bool) {
	v.Assume(len(name) < 1<<30 && len(email) < 1<<30 && len(phrase) < 1<<20)
	v.Terminal(true)
	v.Width(80)
	args := []string{"generate", "-name", name, "-email", email}
	password := ""
	if encrypt {
		v.Assume(phrase != "")
		password = phrase
		v.Passwords(phrase, phrase)
		args = append(args, "-encrypt-phrase")
	}
	if toFile {
		v.SetFile(v.Path(1), v.FileNone, "", 0)
		args = append(args, "-out-word-file", v.Path(1))
	}
	before := time.Now()
	err := RootCommand.Run(args)
	after := time.Now()
	if v.Faulted() {
		return
	}
	if err != nil {
		v.Assert("an error only when there is no creation time",
			v.AnyOf(before.Unix() < specEpoch, after.Unix() >= specEpoch+1<<31-1))
		return
	}
	words := v.PrintedWords(v.Stderr())
	if toFile {
		_, data, _ := v.File(v.Path(1))
		words = strings.Fields(data)
	}
	specGenerated(words, password, nil, before, after)
}

// C33: entropy from a file, of which there has to be enough.
func VL_C33_file(entropy string, encrypt bool, phrase string) {
	v.Assume(len(entropy) < 1<<20)
	v.Terminal(true)
	v.Width(80)
	v.SetFile(v.Path(0), v.FileRegular, entropy, 0o600)
	args := []string{"generate", "-name", "bob", "-unsafe-entropy", v.Path(0)}
	password := ""
	if encrypt {
		v.Assume(phrase != "" && len(phrase) < 1<<20)
		password = phrase
		v.Passwords(password, password)
		args = append(args, "-encrypt-phrase")
	}
	before := time.Now()
	err := RootCommand.Run(args)
	after := time.Now()
	if v.Faulted() {
		return
	}
	if len(entropy) < 16 {
		v.Assert("too little entropy is an error", err != nil)
		v.Assert("nothing is printed without a key", strings.TrimSpace(v.Stdout()) == "")
		return
	}
	if err != nil {
		v.Assert("an error only when there is no creation time", before.Unix() < specEpoch || after.Unix() >= specEpoch+1<<31-1)
		return
	}
	specGenerated(v.PrintedWords(v.Stderr()), password, []byte(entropy[:16]), before, after)
}

// C33: entropy from standard input.
func VL_C33_stdin(keys []byte) {
	v.Assume(len(keys) < 1<<20)
	v.Terminal(true)
	v.Width(80)
	var entropy []byte
	v.Keys(keys, func(k byte) { entropy = append(entropy, k) })
	before := time.Now()
	err := RootCommand.Run([]string{"generate", "-name", "bob", "-unsafe-entropy", "-"})
	after := time.Now()
	if v.Faulted() {
		return
	}
	if err != nil {
		v.Assert("an error only without enough entropy or when there is no creation time",
			!v.Symbolic() && len(keys) < 16 || before.Unix() < specEpoch || after.Unix() >= specEpoch+1<<31-1)
		return
	}
	v.Assert("a key only with enough entropy", len(entropy) >= 16)
	specGenerated(v.PrintedWords(v.Stderr()), "", entropy[:16], before, after)
}

// C33: the salt of a converted phrase.
func VL_C33_convert(seed [16]byte, half uint32, phrase string) {
	v.Assume(phrase != "" && len(phrase) < 1<<20)
	offset := half >> 1
	words, err := mnemonikey.EncodeMnemonicPlaintext(specSeed(seed), offset)
	v.Assume(err == nil)
	v.SetFile(v.Path(0), v.FileRegular, strings.Join(words, " ")+"\n", 0o600)
	v.Terminal(true)
	v.Width(80)
	v.Passwords(phrase, phrase)
	err = RootCommand.Run([]string{"convert", "-in-word-file", v.Path(0), "-encrypt-phrase"})
	if v.Faulted() {
		return
	}
	v.Assert("the phrase is converted", err == nil)
	want, err := mnemonikey.EncodeMnemonicEncrypted(specSeed(seed), offset, []byte(phrase), bytes.NewReader(v.SystemRandom()))
	got := v.PrintedWords(v.Stderr())
	v.Assert("the salt is drawn from the system random source", err == nil && len(got) == len(want))
	for i := range want {
		v.Assert("the salt is drawn from the system random source", got[i] == want[i])
	}
}

func VG_C33_generate(r *rand.Rand) []any {
	return []any{"bob", "bob@x.org", r.Intn(2) == 0, specPass(r), r.Intn(2) == 0}
}

func VG_C33_file(r *rand.Rand) []any {
	b := make([]byte, r.Intn(40))
	r.Read(b)
	return []any{string(b), r.Intn(2) == 0, specPass(r)}
}

func VG_C33_stdin(r *rand.Rand) []any {
	b := make([]byte, r.Intn(40))
	r.Read(b)
	return []any{b}
}

func VG_C33_convert(r *rand.Rand) []any {
	var seed [16]byte
	r.Read(seed[:])
	return []any{seed, r.Uint32(), specPass(r)}
}
