package mnemonic

import (
	"math/big"

	v "github.com/kklash/mnemonikey/zzv"
)

// Contract of EncodeToIndices, for its callers: an integer that fits is cut into twelve
// bits per position, the last position holding the lowest bits.
const VT_EncodeToIndices = "github.com/kklash/mnemonikey/mnemonic.EncodeToIndices"

func VS_EncodeToIndices(payload *big.Int, bitSize uint) ([]uint16, error) {
	v.Requires("at most 255 bits", bitSize <= 255)
	v.Requires("not negative", payload.Sign() >= 0)
	v.Requires("the integer fits", payload.BitLen() <= int(bitSize))
	n := (int(bitSize) + 11) / 12
	buf := make([]byte, 36)
	payload.FillBytes(buf)
	out := make([]uint16, n)
	for i := 0; i < n; i++ {
		low := 12 * (n - 1 - i)
		at := 35 - low/8
		if low%8 == 0 {
			out[i] = uint16(buf[at-1]&15)<<8 | uint16(buf[at])
		} else {
			out[i] = uint16(buf[at-1])<<4 | uint16(buf[at]>>4)
		}
	}
	return out, nil
}

func VP_EncodeToIndices(mag [32]byte, bitSize uint8) {
	x := new(big.Int).SetBytes(mag[:])
	v.Assume(x.BitLen() <= int(bitSize))
	orig := new(big.Int).Set(x)
	got, err := EncodeToIndices(x, uint(bitSize))
	v.Assert("it succeeds", err == nil)
	v.Assert("the integer is not modified", x.Cmp(orig) == 0)
	want, _ := VS_EncodeToIndices(orig, uint(bitSize))
	v.Assert("as many positions", len(got) == len(want))
	for i := range want {
		v.Assert("twelve bits each", got[i] == want[i])
	}
}
