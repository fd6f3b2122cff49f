package main

import (
	"math/big"
	"math/rand"
	"strings"

	"github.com/kklash/mnemonikey"
	v "github.com/kklash/mnemonikey/zzv"
)

func specSeed(b [16]byte) *mnemonikey.Seed {
	seed, err := mnemonikey.NewSeed(mnemonikey.EraLatest, new(big.Int).SetBytes(b[:]))
	v.Assert("every 128-bit integer is a seed", err == nil)
	return seed
}

// specConverted checks where the new phrase went and gives its words.
func specConverted(in, out, content string, toFile bool) []string {
	kind, data, mode := v.File(in)
	v.Assert("the input file is left alone", v.AllOf(kind == v.FileRegular, data == content, mode == 0o600))
	v.Assert("nothing on standard output", strings.TrimSpace(v.Stdout()) == "")
	printed := v.PrintedWords(v.Stderr())
	if !toFile {
		v.Assert("no other file is written", v.Files() == 1)
		return printed
	}
	v.Assert("a phrase written to a file is not printed", len(printed) == 0)
	kind, data, mode = v.File(out)
	v.Assert("the output file is made", kind == v.FileRegular)
	v.Assert("the output file ends the line", strings.HasSuffix(data, "\n"))
	return strings.Fields(data)
}

// C28: a plaintext phrase from a file, converted to a plaintext phrase.
func VL_C28_plain(seed [16]byte, half uint32, toFile bool) {
	offset := half >> 1
	words, err := mnemonikey.EncodeMnemonicPlaintext(specSeed(seed), offset)
	v.Assume(err == nil)
	in, out := v.Path(0), v.Path(1)
	content := strings.Join(words, " ") + "\n"
	v.SetFile(in, v.FileRegular, content, 0o600)
	v.Terminal(true)
	args := []string{"convert", "-in-word-file", in}
	if toFile {
		v.SetFile(out, v.FileNone, "", 0)
		args = append(args, "-out-word-file", out)
	}
	err = RootCommand.Run(args)
	if v.Faulted() {
		return
	}
	v.Assert("the phrase is converted", err == nil)
	got := specConverted(in, out, content, toFile)
	v.Assert("as many words", len(got) == len(words))
	for i := range words {
		v.Assert("the same words", got[i] == words[i])
	}
}

// C28: every combination of encrypted and plaintext phrases.
func VL_C28_encrypted(seed [16]byte, half uint32, key uint64, old, new string, was, encrypt, toFile bool) {
	v.Assume(old != "" && new != "" && len(old) < 1<<20 && len(new) < 1<<20)
	offset := half >> 1
	s := specSeed(seed)
	plain, err := mnemonikey.EncodeMnemonicPlaintext(s, offset)
	v.Assume(err == nil)
	words := plain
	if was {
		words, err = mnemonikey.EncodeMnemonicEncrypted(s, offset, []byte(old), &v.Reader{Key: key, Limit: -1})
		v.Assume(err == nil)
	}
	in, out := v.Path(0), v.Path(1)
	content := strings.Join(words, " ") + "\n"
	v.SetFile(in, v.FileRegular, content, 0o600)
	v.Terminal(true)
	v.Width(80)
	if was {
		v.Passwords(old, new, new)
	} else {
		v.Passwords(new, new)
	}
	args := []string{"convert", "-in-word-file", in}
	if encrypt {
		args = append(args, "-encrypt-phrase")
	}
	if toFile {
		v.SetFile(out, v.FileNone, "", 0)
		args = append(args, "-out-word-file", out)
	}
	err = RootCommand.Run(args)
	if v.Faulted() {
		return
	}
	v.Assert("the phrase is converted", err == nil)
	got := specConverted(in, out, content, toFile)
	if !encrypt {
		v.Assert("as many words", len(got) == len(plain))
		for i := range plain {
			v.Assert("the plaintext phrase", got[i] == plain[i])
		}
		return
	}
	m, err := mnemonikey.DecodeMnemonic(got)
	v.Assert("the new phrase decodes", err == nil)
	v.Assert("the new phrase is encrypted", m.Encrypted())
	v.Assert("the same creation time", m.CreationOffset() == offset)
	back, err := m.DecryptSeed([]byte(new))
	v.Assert("the new password decrypts it", err == nil)
	v.Assert("the same seed", string(back.Bytes()) == string(seed[:]))
}

// C28: a new password counts only once it was entered twice.
func VL_C28_confirm(seed [16]byte, half uint32, first, second string, toFile bool) {
	v.Assume(first != "" && len(first) < 1<<20 && len(second) < 1<<20)
	offset := half >> 1
	words, err := mnemonikey.EncodeMnemonicPlaintext(specSeed(seed), offset)
	v.Assume(err == nil)
	in, out := v.Path(0), v.Path(1)
	content := strings.Join(words, " ") + "\n"
	v.SetFile(in, v.FileRegular, content, 0o600)
	v.SetFile(out, v.FileNone, "", 0)
	v.Terminal(true)
	v.Width(80)
	v.Passwords(first, second)
	args := []string{"convert", "-in-word-file", in, "-encrypt-phrase"}
	if toFile {
		args = append(args, "-out-word-file", out)
	}
	err = RootCommand.Run(args)
	if first == second {
		v.Assert("a confirmed password is used", v.AnyOf(err == nil, v.Faulted()))
		return
	}
	v.Assert("an unconfirmed password is not used", err != nil)
	kind, _, _ := v.File(out)
	v.Assert("no phrase is written", kind == v.FileNone)
	v.Assert("no phrase is printed", len(v.PrintedWords(v.Stderr())) == 0)
	v.Assert("nothing on standard output", strings.TrimSpace(v.Stdout()) == "")
}

func VG_C28_confirm(r *rand.Rand) []any {
	var seed [16]byte
	r.Read(seed[:])
	ps := []string{"secret", "wrong", "x", "secreT"}
	return []any{seed, r.Uint32(), ps[r.Intn(4)], append(ps, "")[r.Intn(5)], r.Intn(2) == 0}
}

// C28: passwords are asked for until one decrypts the phrase.
func VL_C28_retry(seed [16]byte, half uint32, key uint64, old string, entered []string) {
	v.Assume(old != "" && len(old) < 1<<20)
	offset := half >> 1
	words, err := mnemonikey.EncodeMnemonicEncrypted(specSeed(seed), offset, []byte(old), &v.Reader{Key: key, Limit: -1})
	v.Assume(err == nil)
	in := v.Path(0)
	content := strings.Join(words, " ") + "\n"
	v.SetFile(in, v.FileRegular, content, 0o600)
	v.Terminal(true)
	v.Width(80)
	m, err := mnemonikey.DecodeMnemonic(words)
	v.Assert("the phrase decodes", err == nil)
	var plain *mnemonikey.Seed
	v.AnyPasswords(entered, func(p string) {
		if plain != nil || p == "" {
			return
		}
		v.Assume(len(p) < 1<<20)
		if s, err := m.DecryptSeed([]byte(p)); err == nil {
			plain = s
		}
	})
	err = RootCommand.Run([]string{"convert", "-in-word-file", in})
	if err != nil {
		if !v.Faulted() {
			v.Assert("an error only without the password", plain == nil)
		}
		return
	}
	v.Assert("the password was entered", plain != nil)
	got := specConverted(in, "", content, false)
	want, err := mnemonikey.EncodeMnemonicPlaintext(plain, offset)
	v.Assume(err == nil)
	v.Assert("as many words", len(got) == len(want))
	for i := range want {
		v.Assert("the decrypted seed", got[i] == want[i])
	}
}

func VG_C28_retry(r *rand.Rand) []any {
	var seed [16]byte
	r.Read(seed[:])
	ps := []string{"secret", "wrong", "", "x", "secreT"}
	var entered []string
	for i := r.Intn(5); i > 0; i-- {
		entered = append(entered, ps[r.Intn(len(ps))])
	}
	return []any{seed, r.Uint32(), r.Uint64(), "secret", append(entered, "secret")[:len(entered)+r.Intn(2)]}
}
