package main

import (
	"math/rand"
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
	"github.com/kklash/wordlist4096"
)

// specPhrase is the phrase entered so far.
type specPhrase struct {
	given []string
	want  int
}

// submit enters a word for the current position; a first word of an unsupported version is
// not accepted.
func (p *specPhrase) submit(w string) bool {
	i, ok := wordlist4096.WordMap[w]
	v.Assert("only list words are accepted", ok)
	if len(p.given) == 0 {
		switch i >> 8 { // the top 4 of 12 bits
		case 0:
			p.want = 14
		case 1:
			p.want = 16
		default:
			return false
		}
	}
	p.given = append(p.given, w)
	return true
}

func (p *specPhrase) done() bool { return len(p.given) > 0 && len(p.given) == p.want }

func (p *specPhrase) returned(words []string, err error) {
	if err != nil {
		return
	}
	v.Assert("a complete phrase", p.done())
	v.Assert("as many words as the version calls for", len(words) == p.want)
	for i := range p.given {
		v.Assert("the words entered", words[i] == p.given[i])
	}
}

// C29: the prompt with completion, for every sequence of keys.
func VL_C29_keys(keys []byte) {
	v.Terminal(true)
	p := &specPhrase{}
	text := ""
	over, aborted := false, false
	v.Keys(keys, func(k byte) {
		if over {
			v.Assert("no key is read after the last word", !v.Symbolic())
			return
		}
		switch {
		case k >= 'a' && k <= 'z':
			text += string([]byte{k})
		case k == 127: // backspace
			if text != "" {
				text = text[:len(text)-1]
			}
		case k == 68: // the last byte of a left arrow
			if len(p.given) > 0 {
				p.given = p.given[:len(p.given)-1]
			}
			text = ""
		case k == '\t' || k == '\r' || k == ' ':
			found := wordlist4096.Search(text).Suffixes
			if len(found) == 0 {
				return
			}
			if k == '\t' {
				text += found[0]
			} else if p.submit(text + found[0]) {
				text = ""
				over = p.done()
			}
		case k == 3 || k == 4:
			over, aborted = true, true
		}
	})
	words, err := userInputMnemonic()
	if err != nil && !v.Faulted() {
		v.Assert("an error only before the last word", aborted || !over)
	}
	p.returned(words, err)
}

// C29: the simple prompt, for every sequence of lines.
func VL_C29_lines(lines []string) {
	v.Terminal(false)
	p := &specPhrase{}
	v.Lines(lines, func(l string) {
		if p.done() {
			v.Assert("no line is read after the last word", !v.Symbolic())
			return
		}
		w := strings.ToLower(strings.TrimSpace(l))
		if _, ok := wordlist4096.WordMap[w]; ok {
			p.submit(w)
		}
	})
	words, err := userInputMnemonicSimple()
	if err != nil {
		v.Assert("an error only before the last word", !p.done())
	}
	p.returned(words, err)
}

func VG_C29_keys(r *rand.Rand) []any {
	var keys []byte
	first := r.Intn(600)
	for n := 0; n < 40; n++ {
		w := wordlist4096.WordList[r.Intn(4096)]
		if n == 0 || r.Intn(20) == 0 {
			w = wordlist4096.WordList[first]
		}
		keys = append(keys, w[:1+r.Intn(len(w))]...)
		for r.Intn(8) == 0 {
			keys = append(keys, []byte{127, '\t', 27, 'z', '\t', 'q'}[r.Intn(6)])
		}
		keys = append(keys, []byte{'\r', ' '}[r.Intn(2)])
		for r.Intn(6) == 0 {
			keys = append(keys, 27, '[', 68)
		}
		if r.Intn(300) == 0 {
			keys = append(keys, 3)
		}
	}
	return []any{keys}
}

func VG_C29_lines(r *rand.Rand) []any {
	var lines []string
	for n := 0; n < 24; n++ {
		w := wordlist4096.WordList[r.Intn(4096)]
		if n < 2 {
			w = wordlist4096.WordList[r.Intn(700)]
		}
		switch r.Intn(12) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			w = "  " + w + "\t"
		case 2:
			w = w[:len(w)-1]
		case 3:
			w += " " + w
		case 4:
			w = ""
		}
		lines = append(lines, w)
	}
	return []any{lines}
}
