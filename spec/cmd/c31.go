package main

import (
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
)

// specRoundTrip generates a key, takes the phrase from where it was put, recovers from it
// with the same options, and compares what was printed.
func specRoundTrip(name, email, ttl, only, phrase string, encrypt, toFile bool, more ...string) {
	v.Assume(len(name) < 1<<30 && len(email) < 1<<30)
	v.Terminal(true)
	v.Width(80)
	in, out := v.Path(0), v.Path(1)
	opts := []string{"-name", name, "-email", email, "-ttl", ttl}
	if only != "" {
		opts = append(opts, "-only", only)
	}
	opts = append(opts, more...)
	args := append([]string{"generate"}, opts...)
	if encrypt {
		v.Assume(phrase != "")
		v.Passwords(phrase, phrase, phrase)
		args = append(args, "-encrypt-phrase")
	}
	if toFile {
		v.SetFile(out, v.FileNone, "", 0)
		args = append(args, "-out-word-file", out)
	}
	err := RootCommand.Run(args)
	if err != nil {
		if !v.Faulted() {
			v.Assert("nothing is printed without a key", strings.TrimSpace(v.Stdout()) == "")
		}
		return
	}
	key := v.Stdout()
	v.Assert("a key is printed", key != "")
	words := v.PrintedWords(v.Stderr())
	if toFile {
		v.Assert("a phrase written to a file is not printed", len(words) == 0)
		_, data, _ := v.File(out)
		words = strings.Fields(data)
	}
	v.SetFile(in, v.FileRegular, strings.Join(words, " ")+"\n", 0o600)
	err = RootCommand.Run(append([]string{"recover", "-in-word-file", in}, opts...))
	if v.Faulted() {
		return
	}
	v.Assert("the phrase recovers a key", err == nil)
	same := v.Stdout() == key+key
	if encrypt && !same { // the prompts print line ends
		same = strings.TrimSpace(v.Stdout()[len(key):]) == strings.TrimSpace(key)
	}
	v.Assert("the same key is recovered", same)
}

// C31: with a plaintext phrase.
func VL_C31_plain(name, email string, toFile bool) {
	specRoundTrip(name, email, "30d", "", "", false, toFile)
}

// C31: with an encrypted phrase.
func VL_C31_encrypted(name, email, ttl, phrase string, toFile bool) {
	specRoundTrip(name, email, ttl, "", phrase, true, toFile)
}

// C31: with some of the keys.
func VL_C31_only(name, email string, which uint8) {
	only := []string{"master", "encryption,signing", "authentication,master", "signing"}[v.Split(uint64(which&3))]
	specRoundTrip(name, email, "1y", only, "", false, false)
}

// C31: with the debugging output, which changes neither key nor phrase.
func VL_C31_verbose(name string) {
	specRoundTrip(name, "", "30d", "", "", false, false, "-verbose")
}
