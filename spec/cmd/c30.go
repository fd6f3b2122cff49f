package main

import (
	"math/rand"
	"strings"

	v "github.com/kklash/mnemonikey/zzv"
)

// specWrapped gives the words with bit i-1 of breaks deciding whether word i is on a new
// line, and whether every line with more than one word fits.
func specWrapped(words []string, indent, width, breaks int) (string, bool) {
	pad := strings.Repeat(" ", indent)
	text := pad + words[0]
	line := len(words[0]) // without the indent
	fits := true
	for i := 1; i < len(words); i++ {
		if breaks>>(i-1)&1 != 0 {
			text += "\n" + pad + words[i]
			line = len(words[i])
		} else {
			text += " " + words[i]
			line += 1 + len(words[i])
			fits = v.AllOf(fits, line <= width)
		}
	}
	return text, fits
}

// specIsWrapped asserts that out is the words in order, and that no line has more than one
// word and exceeds the width.
func specIsWrapped(out string, words []string, indent, width int) {
	found, ok := false, false
	for b := 0; b < 1<<(len(words)-1) && !found; b++ {
		var text string
		text, ok = specWrapped(words, indent, width, b)
		found = v.Same(out, text)
	}
	v.Assert("the words in order", found)
	v.Assert("every line of more than one word fits", ok)
}

// C30 (bounded: at most 6 words): texts of words separated by single spaces.
func VB_C30_wrap(text string, indent uint16, width int32) {
	words := strings.Split(text, " ")
	v.Assume(len(words) <= 6)
	n := int(v.Split(uint64(len(words))))
	for i := 0; i < n; i++ {
		v.Assume(words[i] != "")
	}
	specIsWrapped(justifyWidth(int(indent), int(width), text), words[:n], int(indent), int(width))
}

// C30 (bounded: at most 4 words): text laid out for a terminal of any width.
func VB_C30_terminal(text string, indent uint16, width uint16, option bool) {
	words := strings.Split(text, " ")
	v.Assume(len(words) <= 4)
	n := int(v.Split(uint64(len(words))))
	for i := 0; i < n; i++ {
		v.Assume(words[i] != "")
	}
	v.Terminal(true)
	v.Width(int(width))
	out, in := "", 8
	if option {
		out = justifyOptionDescription(text)
	} else {
		in = int(indent)
		out = justifyTerminalWidth(in, text)
	}
	w := int(width)
	if v.Faulted() {
		w = defaultWidth
	}
	if option {
		w -= 8
	}
	specIsWrapped(out, words[:n], in, w)
}

// C30 (bounded: at most 5 spaces): any text at all ends, with the words of the text.
func VB_C30_spaces(text string, indent uint16, width int32) {
	words := strings.Split(text, " ")
	v.Assume(len(words) <= 6)
	n := int(v.Split(uint64(len(words))))
	out := justifyWidth(int(indent), int(width), text)
	sum := 0
	for i := 0; i < n; i++ {
		sum += len(words[i])
	}
	v.Assert("no word is lost", len(out) >= sum)
}

func VG_C30_wrap(r *rand.Rand) []any {
	n := 1 + r.Intn(6)
	w := []string{}
	for i := 0; i < n; i++ {
		w = append(w, strings.Repeat(string(rune('a'+i)), 1+r.Intn(6)))
	}
	return []any{strings.Join(w, " "), uint16(r.Intn(5)), int32(r.Intn(24) - 4)}
}

func VG_C30_terminal(r *rand.Rand) []any {
	x := VG_C30_wrap(r)
	if w := strings.Split(x[0].(string), " "); len(w) > 4 {
		x[0] = strings.Join(w[:4], " ")
	}
	return []any{x[0], x[1], uint16(r.Intn(30)), r.Intn(2) == 0}
}

func VG_C30_spaces(r *rand.Rand) []any {
	x := VG_C30_wrap(r)
	x[0] = strings.ReplaceAll(x[0].(string), "b", " ")
	return x
}
