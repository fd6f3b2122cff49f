package main

import (
	"math/rand"

	v "github.com/kklash/mnemonikey/zzv"
)

// C32: the prompt returns the first non-empty password entered, entered twice in a row if it
// has to be confirmed, and asks no further; an error if the input ends before. An interrupt
// may come any time.
//
//verif:body userInputPassword
func VL_C32_prompt(confirm bool, entered []string) {
	v.Terminal(true)
	first, accepted, half, over := "", "", false, false
	v.AnyPasswords(entered, func(p string) {
		switch {
		case accepted != "":
			over = true
		case half:
			half = false
			if p == first {
				accepted = p
			}
		case p != "" && confirm:
			first, half = p, true
		case p != "":
			accepted = p
		}
	})
	p, err := userInputPassword("password: ", confirm)
	if v.Symbolic() {
		v.Assert("it asks no further", !over)
	}
	if accepted != "" {
		v.Assert("a password was accepted, or the user interrupted", v.AnyOf(err == nil, v.Interrupted()))
	}
	if err == nil {
		v.Assert("the password entered is returned", v.AllOf(accepted != "", string(p) == accepted))
	} else {
		v.Assert("no password comes with an error", len(p) == 0)
	}
}

func VG_C32_prompt(r *rand.Rand) []any {
	l := []string{}
	for i := r.Intn(6); i > 0; i-- {
		l = append(l, []string{"", "a", "a", "secret", " x "}[r.Intn(5)])
	}
	return []any{r.Intn(2) == 0, l}
}
