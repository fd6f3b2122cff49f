// Package zzv holds the specification primitives. The verifier gives Assume,
// Assert, Requires ... their logical meaning; the bodies here are what runs when
// a lemma is executed natively to replay a counterexample.
package zzv

import "io"

type skip struct{}

// Failure is an assertion that does not hold in a native run.
type Failure struct{ Label string }

// Assume restricts the lemma to inputs satisfying c.
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assert is a proof obligation.
func Assert(label string, c bool) {
	if !c {
		panic(Failure{label})
	}
}

// Requires is a precondition of a contract.
func Requires(label string, c bool) {
	if !c {
		panic(skip{})
	}
}

// AnyOf and AllOf are disjunction and conjunction without a case split.
func AnyOf(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func AllOf(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Symbolic tells a proof from a native run.
func Symbolic() bool { return false }

// Split is the identity; the verifier splits the proof by the value.
func Split(x uint64) uint64 { return x }

// IsFreshRandom: the bytes were drawn from crypto/rand and used nowhere else. A
// native run can only observe that no value of eight or more bytes comes twice.
func IsFreshRandom(b []byte) bool {
	if len(b) < 8 {
		return true
	}
	zero := true
	for _, x := range b {
		zero = zero && x == 0
	}
	if zero || seen[string(b)] {
		return false
	}
	seen[string(b)] = true
	return true
}

var seen = map[string]bool{}

// SystemRandom is everything drawn from crypto/rand so far.
func SystemRandom() []byte { return drawn }

var drawn []byte

type recorder struct{ r io.Reader }

func (r recorder) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	drawn = append(drawn, p[:n]...)
	return n, err
}

// Note and Noted are ghost state: a contract notes a value under a key, and Noted finds
// the one whose key is provably the given one. Native runs do not use contracts and have none.
func Note(kind string, key, val []byte)    {}
func Noted(kind string, key []byte) []byte { return nil }

// SamePtr reports pointer identity.
func SamePtr(a, b any) bool { return a == b }

// Word is a string parameter that native runs mostly fill with list words.
type Word string

// RandByte is byte number pos of the random stream named key. Some streams start with the
// same byte over and over.
func RandByte(key uint64, pos int) byte {
	switch n := int(key & 63); {
	case key>>6 == 0 && pos < n:
		return 0
	case key>>6 == 1<<58-1 && pos < n:
		return 0xff
	}
	x := key*0x9E3779B97F4A7C15 + uint64(pos)*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return byte(x)
}

// Reader is an arbitrary random source: an unknown byte stream, which may
// deliver as few as one byte per call and fails after Limit bytes (if Limit >= 0).
type Reader struct {
	Key   uint64
	Pos   int
	Limit int
	Short bool
}

type readErr struct{}

func (*readErr) Error() string { return "random source failed" }

// ErrRead is the error of a failing Reader.
var ErrRead error = &readErr{}

func (r *Reader) Read(p []byte) (int, error) {
	n := len(p)
	if r.Short && n > 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if r.Limit >= 0 && r.Pos >= r.Limit {
			return i, ErrRead
		}
		p[i] = RandByte(r.Key, r.Pos)
		r.Pos++
	}
	return n, nil
}

// Choose is an arbitrary outcome of the environment. Native runs meet no faults.
func Choose(what string) bool { return false }

// FreshString, FreshByte, FreshUint32 are arbitrary inputs (proofs only).
func FreshString(what string) string { panic(skip{}) }
func FreshByte(what string) byte     { panic(skip{}) }
func FreshUint32(what string) uint32 { panic(skip{}) }

// Fun is an unknown function of the texts (proofs only).
func Fun(name string, parts ...string) string { panic(skip{}) }

// List is an arbitrary list, the same for the same key (proofs only).
func List(what, key string) []string { panic(skip{}) }

// FuncName names a function value (proofs only).
func FuncName(f any) string { panic(skip{}) }

// Unsupported ends a proof attempt.
func Unsupported(what string) { panic(skip{}) }

// Same says that two texts are equal; proofs may fail to see it and then say false.
func Same(a, b string) bool { return a == b }
