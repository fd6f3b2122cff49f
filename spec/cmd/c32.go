package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"math/rand"
	"strings"

	"github.com/kklash/mnemonikey"
	v "github.com/kklash/mnemonikey/zzv"
)

// specProtectedWith: everything secret that was printed is protected with the password, or
// with none if it is empty.
func specProtectedWith(printed, password string) bool {
	if v.Symbolic() {
		return v.AllOf(len(specPasswords) == 1, len(specPasswords) == 1 && specPasswords[0] == password)
	}
	data := ""
	for _, l := range strings.Split(printed[strings.Index(printed, "\n\n")+2:], "\n") {
		if strings.HasPrefix(l, "=") || strings.HasPrefix(l, "-") {
			break
		}
		data += l
	}
	b, err := base64.StdEncoding.DecodeString(data)
	if err != nil {
		return false
	}
	for len(b) > 0 {
		tag, n, h := b[0]&63, int(b[1]), 2
		if n >= 192 {
			n, h = (n-192)<<8+int(b[2])+192, 3
		}
		body := b[h : h+n]
		b = b[h+n:]
		if tag != 5 && tag != 7 {
			continue
		}
		public := 51
		if body[5] == 18 {
			public = 56
		}
		s := body[public:]
		switch {
		case s[0] != 0 && s[2] == 101: // not there
		case s[0] == 0:
			if password != "" {
				return false
			}
		default:
			pre := append(append([]byte{}, s[4:12]...), password...)
			key := sha256.Sum256(bytes.Repeat(pre, 65011712/len(pre)+1)[:65011712])
			block, _ := aes.NewCipher(key[:])
			plain := make([]byte, len(s)-29)
			cipher.NewCFBDecrypter(block, s[13:29]).XORKeyStream(plain, s[29:])
			sum := sha1.Sum(plain[:len(plain)-20])
			if password == "" || string(sum[:]) != string(plain[len(plain)-20:]) {
				return false
			}
		}
	}
	return true
}

// specProtection checks one command after it ran with answers prompts answered of wanted.
func specProtection(err error, encrypt bool, answers, wanted int, password string) {
	if v.Faulted() {
		return
	}
	if answers < wanted {
		v.Assert("a failing prompt is an error", err != nil)
		v.Assert("no key is printed then", strings.TrimSpace(v.Stdout()) == "")
		return
	}
	if err != nil {
		v.Assert("no key is printed after an error", strings.TrimSpace(v.Stdout()) == "")
		return
	}
	v.Assert("a key is printed", v.Stdout() != "")
	if encrypt {
		v.Assert("protected with exactly the password entered", specProtectedWith(v.Stdout(), password))
	} else {
		v.Assert("not protected unless asked for", specProtectedWith(v.Stdout(), ""))
	}
}

func specOnly(subkeys bool, args []string) []string {
	if subkeys {
		return append(args, "-only", "encryption,signing")
	}
	return args
}

// C32: generate.
func VL_C32_generate(keyPassword, phrasePassword string, keys, phrase, subkeys bool, n uint8) {
	v.Assume(keyPassword != "" && phrasePassword != "" && len(keyPassword) < 1<<20 && len(phrasePassword) < 1<<20)
	v.Terminal(true)
	v.Width(80)
	args := []string{"generate", "-name", "bob"}
	answers := []string{}
	if keys {
		args = append(args, "-encrypt-keys")
		answers = append(answers, keyPassword, keyPassword)
	}
	if phrase {
		args = append(args, "-encrypt-phrase")
		answers = append(answers, phrasePassword, phrasePassword)
	}
	k := int(v.Split(uint64(n & 7)))
	if k < len(answers) {
		v.Passwords(answers[:k]...)
	} else {
		v.Passwords(answers...)
	}
	err := RootCommand.Run(specOnly(subkeys, args))
	specProtection(err, keys, k, len(answers), keyPassword)
}

// C32: recover.
func VL_C32_recover(seed [16]byte, half uint32, rnd uint64, keyPassword, phrasePassword string, keys, phrase, subkeys bool, n uint8) {
	v.Assume(keyPassword != "" && phrasePassword != "" && len(keyPassword) < 1<<20 && len(phrasePassword) < 1<<20)
	offset := half >> 1
	args := []string{"recover", "-in-word-file", v.Path(0)}
	answers := []string{}
	var words []string
	var err error
	if phrase {
		words, err = mnemonikey.EncodeMnemonicEncrypted(specSeed(seed), offset, []byte(phrasePassword), &v.Reader{Key: rnd, Limit: -1})
		answers = append(answers, phrasePassword)
	} else {
		words, err = mnemonikey.EncodeMnemonicPlaintext(specSeed(seed), offset)
	}
	v.Assume(err == nil)
	v.SetFile(v.Path(0), v.FileRegular, strings.Join(words, " ")+"\n", 0o600)
	if keys {
		args = append(args, "-encrypt-keys")
		answers = append(answers, keyPassword, keyPassword)
	}
	v.Terminal(true)
	v.Width(80)
	k := int(v.Split(uint64(n & 7)))
	if k < len(answers) {
		v.Passwords(answers[:k]...)
	} else {
		v.Passwords(answers...)
	}
	err = RootCommand.Run(specOnly(subkeys, args))
	specProtection(err, keys, k, len(answers), keyPassword)
}

func VG_C32_generate(r *rand.Rand) []any {
	return []any{specPass(r), specPass(r), r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, uint8(r.Intn(10))}
}

func VG_C32_recover(r *rand.Rand) []any {
	var seed [16]byte
	r.Read(seed[:])
	return []any{seed, r.Uint32(), r.Uint64(), specPass(r), specPass(r), r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, uint8(r.Intn(10))}
}

func specPass(r *rand.Rand) string {
	return []string{"a", "secret", " x ", "pass word", "\xff\x00"}[r.Intn(5)]
}
