package zzv

import (
	crand "crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
)

// This file runs lemmas natively: to replay a counterexample of the verifier, to
// look for a failing input near it, and to validate the models the verifier assumes.

// Job is what a native run is asked to do.
type Job struct {
	Lemma   string
	Seed    int64
	Seconds float64
	Iters   int
	Hints   []map[string]string // models of the verifier: parameter -> hex value, parameter.len -> hex length
	Replay  []json.RawMessage   // exact inputs of an earlier run
	Out     string
	Timeout float64 // seconds one execution may take
}

// Outcome is what it found.
type Outcome struct {
	Lemma  string
	Runs   int
	Held   int
	Failed bool
	Label  string
	Stack  string
	Inputs []json.RawMessage
	Show   []string
}

// RunJob executes a job over the given lemma and generator functions.
func RunJob(lemmas map[string]any, words []string) {
	b, err := os.ReadFile(os.Getenv("ZZJOB"))
	if err != nil {
		panic(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		panic(err)
	}
	if j.Timeout == 0 {
		j.Timeout = 30
	}
	o := &Outcome{Lemma: j.Lemma}
	defer func() {
		b, _ := json.MarshalIndent(o, "", " ")
		os.WriteFile(j.Out, b, 0o644)
	}()
	f, ok := lemmas[j.Lemma]
	if !ok {
		return
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	r := rand.New(rand.NewSource(j.Seed))
	g := &gen{r: r, words: words}
	saved = [3]*os.File{os.Stdin, os.Stdout, os.Stderr}
	crand.Reader = recorder{crand.Reader}
	try := func(args []reflect.Value) bool {
		o.Runs++
		drawn = nil
		held, label, stack := runOnce(fv, args, j.Timeout)
		reset()
		if held {
			o.Held++
		}
		if label == "" {
			return false
		}
		o.Failed, o.Label, o.Stack = true, label, stack
		for _, a := range args {
			o.Inputs = append(o.Inputs, enc(a))
			s := fmt.Sprintf("%#v", a.Interface())
			if len(s) > 2000 {
				s = s[:2000] + "..."
			}
			o.Show = append(o.Show, s)
		}
		return true
	}
	if j.Replay != nil {
		args := make([]reflect.Value, ft.NumIn())
		for i := range args {
			args[i] = reflect.New(ft.In(i)).Elem()
			dec(args[i], j.Replay[i])
		}
		try(args)
		return
	}
	end := time.Now().Add(time.Duration(j.Seconds * float64(time.Second)))
	for n := 0; ; n++ {
		if j.Iters > 0 && n >= j.Iters {
			return
		}
		if time.Now().After(end) {
			return
		}
		var args []reflect.Value
		if vg, ok := lemmas["VG"+j.Lemma[2:]]; ok && (len(j.Hints) == 0 || n%4 != 0) {
			for _, x := range vg.(func(*rand.Rand) []any)(r) {
				args = append(args, reflect.ValueOf(x))
			}
			for i := range args {
				args[i] = args[i].Convert(ft.In(i))
			}
		} else {
			var hint map[string]string
			if len(j.Hints) > 0 && (n < 40*len(j.Hints) || n%2 == 0) {
				hint = j.Hints[n%len(j.Hints)]
			}
			for i := 0; i < ft.NumIn(); i++ {
				a := reflect.New(ft.In(i)).Elem()
				g.fill(a, fmt.Sprintf("p%d", i), hint, n)
				args = append(args, a)
			}
		}
		if try(args) {
			return
		}
	}
}

func runOnce(fv reflect.Value, args []reflect.Value, timeout float64) (held bool, label, stack string) {
	type res struct {
		held         bool
		label, stack string
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				switch x := p.(type) {
				case skip:
					ch <- res{}
				case Failure:
					ch <- res{false, x.Label, ""}
				default:
					ch <- res{false, fmt.Sprintf("panic: %v", p), string(debug.Stack())}
				}
			}
		}()
		// fresh copies, so that a lemma that mutates its inputs does not spoil the report
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			in[i] = reflect.New(a.Type()).Elem()
			dec(in[i], enc(a))
		}
		fv.Call(in)
		ch <- res{held: true}
	}()
	select {
	case x := <-ch:
		return x.held, x.label, x.stack
	case <-time.After(time.Duration(timeout * float64(time.Second))):
		return false, fmt.Sprintf("does not terminate (%.0f s)", timeout), ""
	}
}

func enc(v reflect.Value) json.RawMessage {
	var x any
	switch v.Kind() {
	case reflect.Bool:
		x = v.Bool()
	case reflect.String:
		x = hex.EncodeToString([]byte(v.String()))
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			x = hex.EncodeToString(b)
			break
		}
		l := []json.RawMessage{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, enc(v.Index(i)))
		}
		x = l
	case reflect.Struct:
		l := []json.RawMessage{}
		for i := 0; i < v.NumField(); i++ {
			l = append(l, enc(v.Field(i)))
		}
		x = l
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x = fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x = fmt.Sprint(v.Uint())
	}
	b, _ := json.Marshal(x)
	return b
}

func dec(v reflect.Value, m json.RawMessage) {
	str := func() string {
		var s string
		if err := json.Unmarshal(m, &s); err != nil {
			panic(err)
		}
		return s
	}
	switch v.Kind() {
	case reflect.Bool:
		var b bool
		json.Unmarshal(m, &b)
		v.SetBool(b)
	case reflect.String:
		b, _ := hex.DecodeString(str())
		v.SetString(string(b))
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b, _ := hex.DecodeString(str())
			if v.Kind() == reflect.Slice {
				v.SetBytes(b)
			} else {
				reflect.Copy(v, reflect.ValueOf(b))
			}
			return
		}
		var l []json.RawMessage
		json.Unmarshal(m, &l)
		if v.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		}
		for i := range l {
			dec(v.Index(i), l[i])
		}
	case reflect.Struct:
		var l []json.RawMessage
		json.Unmarshal(m, &l)
		for i := range l {
			dec(v.Field(i), l[i])
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var n int64
		fmt.Sscan(str(), &n)
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var n uint64
		fmt.Sscan(str(), &n)
		v.SetUint(n)
	}
}

type gen struct {
	r     *rand.Rand
	words []string
}

func (g *gen) bits(w int) uint64 {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(70))
	case 1: // near a power of two
		k := r.Intn(w + 1)
		var x uint64
		if k < 64 {
			x = 1 << uint(k)
		}
		return x + uint64(r.Intn(5)) - 2
	case 2: // few significant bits
		return r.Uint64() >> uint(r.Intn(64))
	case 3:
		return uint64(r.Intn(5000))
	}
	return r.Uint64()
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	r := g.r
	switch r.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // leading zeros
		r.Read(b)
		for i := 0; i < r.Intn(n+1); i++ {
			b[i] = 0
		}
		if z := r.Intn(n + 1); z < n {
			b[z] >>= uint(r.Intn(9))
		}
	case 3: // few bits
		if n > 0 {
			b[r.Intn(n)] = 1 << uint(r.Intn(8))
		}
	default:
		r.Read(b)
	}
	return b
}

func (g *gen) str() string {
	r := g.r
	pool := []string{"", "a", "b", "0", "1", "-1", " ", "\t", "  x ", "Name", "name@example.com", "1y", "2m", "3d", "10h", "99999999999999999999",
		"hunter2", "pässword", "\xff\xfe", "line\nbreak", "(", ")", "<", ">", "Zürich", "٣"}
	switch r.Intn(8) {
	case 0, 1:
		return pool[r.Intn(len(pool))]
	case 2, 3:
		if len(g.words) > 0 {
			return g.words[r.Intn(len(g.words))]
		}
		return "word"
	case 4:
		return string(g.bytes([]int{1, 2, 3, 31, 32, 64, 191, 192, 193, 200, 255, 256, 257, 1000, 8383, 8384, 8385, 70000}[r.Intn(18)]))
	case 5:
		s := pool[r.Intn(len(pool))] + pool[r.Intn(len(pool))]
		return s
	}
	n := r.Intn(24)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return string(b)
}

func hexBytes(s string, n int) []byte {
	if len(s) > 2*n {
		s = s[len(s)-2*n:]
	}
	s = strings.Repeat("0", 2*n-len(s)) + s
	b, _ := hex.DecodeString(s)
	return b
}

func (g *gen) fill(v reflect.Value, name string, hint map[string]string, n int) {
	h, has := hint[name]
	if has && n >= 20 && g.r.Intn(4) == 0 {
		has = false // vary around the model
	}
	switch v.Kind() {
	case reflect.Bool:
		if has {
			v.SetBool(h == "1")
		} else {
			v.SetBool(g.r.Intn(2) == 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var x uint64
		if has {
			fmt.Sscanf(h, "%x", &x)
		} else {
			x = g.bits(v.Type().Bits())
		}
		k := uint(64 - v.Type().Bits())
		v.SetInt(int64(x<<k) >> k)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var x uint64
		if has {
			fmt.Sscanf(h, "%x", &x)
		} else {
			x = g.bits(v.Type().Bits())
		}
		k := uint(64 - v.Type().Bits())
		v.SetUint(x << k >> k)
	case reflect.String:
		if hl, ok := hint[name+".len"]; ok && g.r.Intn(2) == 0 {
			var l uint64
			fmt.Sscanf(hl, "%x", &l)
			if l <= 1<<20 {
				v.SetString(string(g.bytes(int(l))))
				return
			}
		}
		if v.Type() == reflect.TypeOf(Word("")) && g.r.Intn(8) != 0 && len(g.words) > 0 {
			v.SetString(g.words[g.r.Intn(len(g.words))])
			return
		}
		v.SetString(g.str())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if hl, ok := hint[name+".len"]; ok && g.r.Intn(3) != 0 {
				var l uint64
				fmt.Sscanf(hl, "%x", &l)
				if l <= 1<<20 {
					v.SetBytes(g.bytes(int(l)))
					return
				}
			}
			v.SetBytes([]byte(g.str()))
			return
		}
		l := g.r.Intn(20)
		if h, ok := hint[name+".n"]; ok && g.r.Intn(2) == 0 {
			var k uint64
			fmt.Sscanf(h, "%x", &k)
			if k < 100 {
				l = int(k)
			}
		}
		v.Set(reflect.MakeSlice(v.Type(), l, l))
		for i := 0; i < l; i++ {
			g.fill(v.Index(i), fmt.Sprintf("%s[%d]", name, i), hint, n)
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := g.bytes(v.Len())
			if has {
				b = hexBytes(h, v.Len())
			}
			reflect.Copy(v, reflect.ValueOf(b))
			return
		}
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), fmt.Sprintf("%s[%d]", name, i), hint, n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), name+"."+v.Type().Field(i).Name, hint, n)
		}
	}
}
