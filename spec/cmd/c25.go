package main

import (
	"math"
	"math/rand"
	"strconv"
	"time"

	v "github.com/kklash/mnemonikey/zzv"
)

const specDay = 24 * 60 * 60 * 1000000000

func specUnit(c byte) uint64 {
	switch c {
	case 'd', 'D':
		return specDay
	case 'w', 'W':
		return 7 * specDay
	case 'm', 'M':
		return 365 * specDay / 12
	case 'y', 'Y':
		return 365 * specDay
	}
	return 0
}

// C25: every text.
func VL_C25_ttl(input string) {
	got, err := parseTTL(input)
	if len(input) == 0 {
		v.Assert("an empty text is refused", err != nil)
		return
	}
	unit := specUnit(input[len(input)-1])
	n, bad := strconv.ParseUint(input[:len(input)-1], 10, 64)
	if unit == 0 || bad != nil {
		v.Assert("a malformed text is refused", err != nil)
		return
	}
	if n > math.MaxInt64/unit {
		v.Assert("too long a duration is refused", err != nil)
		return
	}
	v.Assert("a well-formed text is accepted", err == nil)
	v.Assert("the duration is exact", got == time.Duration(n*unit))
}

func VG_C25_ttl(r *rand.Rand) []any {
	nums := []string{"", "0", "1", "7", "24", "365", "106751", "106752", "292", "293", "15250", "15251", "3509", "3510", "9223372036854775807",
		"9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "213504", "0x10", "1_0", "010", "+5", "-5", " 5", "5 ",
		"1e3", "1.5", "٣", "00000000000000000000000007"}
	units := []string{"d", "w", "m", "y", "D", "W", "M", "Y", "h", "", "dd", "\xff", "ŷ", " d", "d ", "s", "min", "K"}
	s := nums[r.Intn(len(nums))]
	if r.Intn(3) == 0 {
		s = strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10)
	}
	return []any{s + units[r.Intn(len(units))]}
}

// C25: what counts as a decimal number, for texts of up to five bytes.
func VL_C25_digits(b [5]byte, n uint8) {
	v.Assume(n <= 5)
	k := int(v.Split(uint64(n)))
	input := string(b[:k])
	got, err := parseTTL(input)
	if k == 0 {
		return
	}
	num := uint64(0)
	digits := []bool{k > 1}
	for _, c := range b[:k-1] {
		digits = append(digits, c >= '0', c <= '9')
		num = num*10 + uint64(c-'0')
	}
	unit := specUnit(b[k-1])
	if !v.AllOf(digits...) || unit == 0 {
		v.Assert("a malformed text is refused", err != nil)
		return
	}
	if num > math.MaxInt64/unit {
		v.Assert("too long a duration is refused", err != nil)
		return
	}
	v.Assert("short numbers are accepted", err == nil)
	v.Assert("short numbers are exact", got == time.Duration(num*unit))
}
