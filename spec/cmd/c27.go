package main

import (
	"math/rand"
	"strings"

	"github.com/kklash/mnemonikey"
	v "github.com/kklash/mnemonikey/zzv"
	"github.com/kklash/wordlist4096"
)

// C27: writing a phrase, whatever is at the path and whichever call fails.
func VL_C27_save(words [20]v.Word, n, kind uint8, data string, mode uint32) {
	v.Assume(n <= 20 && kind <= 6)
	mode &= 0o777
	phrase := []string{}
	want := ""
	for i, k := 0, int(v.Split(uint64(n))); i < k; i++ {
		phrase = append(phrase, string(words[i]))
		if i > 0 {
			want += " "
		}
		want += string(words[i])
	}
	want += "\n"
	path := v.Path(0)
	before := int(v.Split(uint64(kind)))
	v.SetFile(path, before, data, mode)
	err := saveMnemonic(phrase, path)
	after, got, perm := v.File(path)
	if before != v.FileNone {
		v.Assert("an existing path is an error", err != nil)
		if before == v.FileLate {
			before = v.FileRegular
			after = v.FileRegular // it may not have appeared yet
		}
		v.Assert("what was there stays", after == before)
		if before == v.FileRegular {
			v.Assert("an existing file is not changed", got == data && perm == mode)
		}
		return
	}
	if !v.Faulted() {
		v.Assert("a phrase can be written", err == nil)
	}
	if err == nil {
		v.Assert("a new file was made", after == v.FileRegular)
		v.Assert("the file holds exactly the words", got == want)
	}
	if after != v.FileNone {
		v.Assert("only the owner may read and write the file", perm == 0o600)
	}
}

// specFields are the words of a text in lower case, if there are at most 100 and all of
// them are list words.
func specFields(content string) ([]string, bool) {
	fields := strings.Fields(content)
	words := []string{}
	for i := 0; i < len(fields); i++ {
		w := strings.ToLower(fields[i])
		if _, in := wordlist4096.WordMap[w]; !in || i >= 100 {
			return nil, false
		}
		words = append(words, w)
	}
	return words, true
}

// C27: reading a phrase, whatever the file holds.
func VL_C27_read(content string) {
	path := v.Path(0)
	v.SetFile(path, v.FileRegular, content, 0o600)
	got, err := readWordFile(path)
	if err != nil && v.Faulted() {
		return
	}
	if v.ScanFails(content) { // at a word far longer than those of the list
		known := false
		if err == nil {
			_, known = specFields(content)
		}
		v.Assert("a file with an overlong word is refused", v.AnyOf(err != nil, known))
		return
	}
	words, known := specFields(content)
	if !known || len(words) == 0 {
		v.Assert("unknown words, or none at all, are refused", err != nil)
		return
	}
	version, bad := mnemonikey.ParseMnemonicVersion(words[0])
	if bad != nil {
		return // refused when the phrase is decoded
	}
	if len(words) != version.MnemonicSize() {
		v.Assert("a wrong number of words is refused", err != nil)
		return
	}
	v.Assert("a phrase of the right size is accepted", err == nil)
	v.Assert("exactly as many words are read", len(got) == len(words))
	same := []bool{}
	for i := range words {
		same = append(same, got[i] == words[i])
	}
	v.Assert("exactly the words are read, in lower case", v.AllOf(same...))
}

func VG_C27_read(r *rand.Rand) []any {
	seps := []string{" ", "\n", "\t", "  ", "\r\n", " \n ", "\u00a0", "\u2003", "\v"}
	n := []int{0, 1, 13, 14, 15, 16, 17, 18, 19, 99, 100, 101}[r.Intn(12)]
	s := seps[r.Intn(len(seps))]
	first := true
	for i := 0; i < n; i++ {
		w := wordlist4096.WordList[r.Intn(4096)]
		if first && r.Intn(8) != 0 {
			w = wordlist4096.WordList[r.Intn(4)<<7|r.Intn(128)]
		}
		first = false
		switch r.Intn(30) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			w = strings.ToUpper(w[:1]) + w[1:]
		case 2:
			if r.Intn(10) == 0 {
				w += "x"
			}
		}
		s += w + seps[r.Intn(len(seps))]
	}
	switch r.Intn(20) {
	case 0:
		s += strings.Repeat("a", 70000)
	case 1:
		s += strings.Repeat("a", 65536) + " able"
	case 2:
		s += "notaword"
	}
	return []any{s}
}

func VG_C27_save(r *rand.Rand) []any {
	var words [20]v.Word
	for i := range words {
		words[i] = v.Word(wordlist4096.WordList[r.Intn(4096)])
	}
	return []any{words, uint8(r.Intn(21)), uint8(r.Intn(6)), []string{"", "x", "keep this\n"}[r.Intn(3)], []uint32{0o600, 0o644, 0o777}[r.Intn(3)]}
}
