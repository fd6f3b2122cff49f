package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native execution of lemmas against the real code (go test -overlay).

type nativeOutcome struct {
	Lemma  string
	Runs   int
	Held   int
	Failed bool
	Label  string
	Stack  string
	Inputs []json.RawMessage
	Show   []string
}

type nativeJob struct {
	Lemma   string
	Seed    int64
	Seconds float64
	Iters   int
	Hints   []map[string]string
	Replay  []json.RawMessage
	Out     string
	Timeout float64
}

type Native struct {
	dir     string // scratch
	overlay map[string]string
	mu      sync.Mutex
	bins    map[string]string
	errs    map[string]string
}

var lemmaRe = regexp.MustCompile(`(?m)^func (V[LGB]_\w+)\(`)

func newNative(overlay map[string]string) (*Native, error) {
	d, err := os.MkdirTemp("", "goverif-native-")
	if err != nil {
		return nil, err
	}
	return &Native{dir: d, overlay: overlay, bins: map[string]string{}, errs: map[string]string{}}, nil
}

func (n *Native) close() { os.RemoveAll(n.dir) }

// build compiles the test binary of a package; fast replaces argon2 by a cheap stand-in.
func (n *Native) build(pkg string, fast bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key := fmt.Sprintf("%s-%v", pkg, fast)
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	if e, ok := n.errs[key]; ok {
		return "", fmt.Errorf("%s", e)
	}
	fail := func(e string) (string, error) {
		n.errs[key] = e
		return "", fmt.Errorf("%s", e)
	}
	rel := pkgDirs[pkg]
	rep := map[string]string{}
	for k, f := range n.overlay {
		rep[k] = f
	}
	ts, _ := filepath.Glob(filepath.Join(repoDir, rel, "*_test.go"))
	for _, t := range ts {
		rep[t] = ""
	}
	var names []string
	pkgName := ""
	for k, f := range n.overlay {
		if filepath.Dir(k) != filepath.Join(repoDir, rel) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return fail(err.Error())
		}
		for _, m := range lemmaRe.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(string(b)); m != nil {
			pkgName = m[1]
		}
	}
	sort.Strings(names)
	var src bytes.Buffer
	fmt.Fprintf(&src, "package %s\n\nimport (\n\t\"testing\"\n\tzzrun %q\n\tzzwl \"github.com/kklash/wordlist4096\"\n)\n\nfunc TestZZVerif(t *testing.T) {\n\tzzrun.RunJob(map[string]any{\n", pkgName, zzvPath)
	for _, x := range names {
		fmt.Fprintf(&src, "\t\t%q: %s,\n", x, x)
	}
	src.WriteString("\t}, zzwl.WordList[:])\n}\n")
	tf := filepath.Join(n.dir, "run_"+pkg+"_test.go")
	if err := os.WriteFile(tf, src.Bytes(), 0o644); err != nil {
		return fail(err.Error())
	}
	rep[filepath.Join(repoDir, rel, "zz_verif_run_test.go")] = tf
	var extra []string
	if stub := pkg == "cmd"; fast || stub {
		if mf, err := n.modfile(fast, stub); err == nil {
			extra = []string{"-modfile", mf, "-mod=mod"}
		}
	}
	ov := filepath.Join(n.dir, "overlay-"+key+".json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return fail(err.Error())
	}
	bin := filepath.Join(n.dir, "test-"+key)
	if out, err := n.gocmd(append(append([]string{"test", "-c", "-vet=off", "-overlay", ov, "-o", bin}, extra...), "./"+rel)...); err != nil {
		return fail("native build failed: " + out)
	}
	n.bins[key] = bin
	return bin, nil
}

// modfile makes a go.mod that replaces x/crypto by a copy whose argon2 is the stand-in
// (fast), and x/term by one that takes keys and passwords from the lemma (stub).
func (n *Native) modfile(fast, stub bool) (string, error) {
	mf := filepath.Join(n.dir, fmt.Sprintf("mod-%v-%v.mod", fast, stub))
	if _, err := os.Stat(mf); err == nil {
		return mf, nil
	}
	gm, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	gs, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	os.WriteFile(strings.TrimSuffix(mf, ".mod")+".sum", gs, 0o644)
	if fast {
		dst, err := n.fastCrypto()
		if err != nil {
			return "", err
		}
		gm = append(gm, []byte("\nreplace golang.org/x/crypto => "+dst+"\n")...)
	}
	if stub {
		dst := filepath.Join(n.dir, "xterm")
		if err := os.MkdirAll(dst, 0o755); err != nil {
			return "", err
		}
		os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module golang.org/x/term\n\ngo 1.17\n\nrequire golang.org/x/sys v0.10.0\n"), 0o644)
		os.WriteFile(filepath.Join(dst, "term.go"), []byte(stubTerm), 0o644)
		gm = append(gm, []byte("\nreplace golang.org/x/term => "+dst+"\n")...)
	}
	if err := os.WriteFile(mf, gm, 0o644); err != nil {
		return "", err
	}
	return mf, nil
}

const stubTerm = `package term

import (
	"encoding/hex"
	"errors"
	"io"
	"os"
	"strconv"
	"strings"
)

type State struct{ x int }

var errNot = errors.New("not a terminal")

func IsTerminal(fd int) bool { return os.Getenv("ZZ_TERM") == "1" }

func GetState(fd int) (*State, error) {
	if !IsTerminal(fd) {
		return nil, errNot
	}
	return &State{}, nil
}

func MakeRaw(fd int) (*State, error) { return GetState(fd) }

func Restore(fd int, s *State) error { return nil }

func GetSize(fd int) (int, int, error) {
	w, err := strconv.Atoi(os.Getenv("ZZ_WIDTH"))
	if err != nil {
		return 0, 0, errNot
	}
	return w, 30, nil
}

func ReadPassword(fd int) ([]byte, error) {
	l := os.Getenv("ZZ_PASS")
	if l == "" {
		return nil, io.EOF
	}
	p, rest, _ := strings.Cut(l, ",")
	os.Setenv("ZZ_PASS", rest)
	return hex.DecodeString(strings.TrimPrefix(p, "x"))
}
`

func (n *Native) fastCrypto() (string, error) {
	dst := filepath.Join(n.dir, "xcrypto")
	if _, err := os.Stat(filepath.Join(dst, "argon2", "zz_fast.go")); err == nil {
		return dst, nil
	}
	out, err := n.gocmd("list", "-m", "-f", "{{.Dir}}", "golang.org/x/crypto")
	if err != nil {
		return "", err
	}
	src := strings.TrimSpace(out)
	if out, err := exec.Command("cp", "-r", "--no-preserve=mode", src, dst).CombinedOutput(); err != nil {
		return "", fmt.Errorf("%s", out)
	}
	af := filepath.Join(dst, "argon2", "argon2.go")
	b, err := os.ReadFile(af)
	if err != nil {
		return "", err
	}
	re := regexp.MustCompile(`(?m)^func deriveKey\(mode int, password, salt, secret, data \[\]byte, time, memory uint32, threads uint8, keyLen uint32\) \[\]byte \{$`)
	if !re.Match(b) {
		return "", fmt.Errorf("unexpected argon2 source")
	}
	b = re.ReplaceAll(b, []byte("$0\n\tif true {\n\t\treturn zzFast(mode, password, salt, secret, data, time, memory, threads, keyLen)\n\t}"))
	if err := os.WriteFile(af, b, 0o644); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dst, "argon2", "zz_fast.go"), []byte(fastArgon), 0o644); err != nil {
		return "", err
	}
	return dst, nil
}

const fastArgon = `package argon2

import (
	"encoding/binary"

	"golang.org/x/crypto/blake2b"
)

// zzFast stands in for Argon2 while inputs are searched for: a deterministic
// function of all parameters. Hits are confirmed with the real Argon2.
func zzFast(mode int, password, salt, secret, data []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	h, _ := blake2b.NewXOF(keyLen, nil)
	w := func(b []byte) {
		var l [8]byte
		binary.LittleEndian.PutUint64(l[:], uint64(len(b)))
		h.Write(l[:])
		h.Write(b)
	}
	var p [20]byte
	binary.LittleEndian.PutUint32(p[0:], uint32(mode))
	binary.LittleEndian.PutUint32(p[4:], time)
	binary.LittleEndian.PutUint32(p[8:], memory)
	binary.LittleEndian.PutUint32(p[12:], uint32(threads))
	binary.LittleEndian.PutUint32(p[16:], keyLen)
	w(p[:])
	w(password)
	w(salt)
	w(secret)
	w(data)
	out := make([]byte, keyLen)
	h.Read(out)
	return out
}
`

func (n *Native) gocmd(args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = repoDir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	return string(out), err
}

func (n *Native) run(pkg string, fast bool, j nativeJob, stop <-chan struct{}) (*nativeOutcome, error) {
	bin, err := n.build(pkg, fast)
	if err != nil {
		return nil, err
	}
	d, err := os.MkdirTemp(n.dir, "job-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	j.Out = filepath.Join(d, "out.json")
	b, _ := json.Marshal(j)
	jf := filepath.Join(d, "job.json")
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		return nil, err
	}
	c := exec.Command(bin, "-test.run", "^TestZZVerif$", "-test.timeout", fmt.Sprintf("%.0fs", j.Seconds+j.Timeout+120))
	c.Dir = d
	c.Env = append(os.Environ(), "ZZJOB="+jf, "HOME="+d, "TMPDIR="+d, "GOMEMLIMIT=2GiB")
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		return nil, err
	}
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-stop:
		c.Process.Kill()
		<-done
		return &nativeOutcome{Lemma: j.Lemma}, nil
	case <-time.After(time.Duration((j.Seconds + j.Timeout + 150) * float64(time.Second))):
		c.Process.Kill()
		<-done
		return nil, fmt.Errorf("native run timed out")
	}
	rb, err := os.ReadFile(j.Out)
	if err != nil {
		o := ob.String()
		if len(o) > 3000 {
			o = o[len(o)-3000:]
		}
		return nil, fmt.Errorf("native run gave no result: %s", o)
	}
	var o nativeOutcome
	if err := json.Unmarshal(rb, &o); err != nil {
		return nil, err
	}
	return &o, nil
}

// search looks for an input that makes the lemma fail natively, confirmed with the
// unmodified dependencies.
func (n *Native) search(pkg, lemma string, hints []map[string]string, seed int64, seconds float64) (*nativeOutcome, string) {
	deadline := time.Now().Add(time.Duration(seconds * float64(time.Second)))
	note := ""
	for round := 0; round < 4 && time.Now().Before(deadline); round++ {
		fast := round%2 == 0
		left := time.Until(deadline).Seconds()
		budget := left
		if fast {
			budget = left * 0.6
		}
		par := 4
		if _, err := n.build(pkg, fast); err != nil {
			return nil, err.Error()
		}
		if !fast {
			par = 3
		}
		res := make([]*nativeOutcome, par)
		var wg sync.WaitGroup
		var once sync.Mutex
		stop := make(chan struct{})
		stopped := false
		for k := 0; k < par; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				b := budget
				h := hints
				if k%2 == 1 {
					h = nil
				}
				o, err := n.run(pkg, fast, nativeJob{Lemma: lemma, Seed: seed*1000 + int64(round*10+k), Seconds: b, Hints: h, Timeout: 30}, stop)
				once.Lock()
				defer once.Unlock()
				if err != nil {
					note = err.Error()
					return
				}
				res[k] = o
				if o.Failed && !stopped {
					stopped = true
					close(stop)
				}
			}(k)
		}
		wg.Wait()
		runs := 0
		for _, o := range res {
			if o == nil {
				continue
			}
			runs += o.Runs
			if !o.Failed {
				continue
			}
			if !fast {
				return o, ""
			}
			c, err := n.run(pkg, false, nativeJob{Lemma: lemma, Replay: o.Inputs, Timeout: 120}, nil)
			if err != nil {
				note = err.Error()
			} else if c.Failed {
				return c, ""
			} else {
				note = fmt.Sprintf("with a cheap stand-in for argon2 it fails (%s) for %v, which the real argon2 does not reproduce", o.Label, o.Show)
			}
		}
		if note == "" {
			note = fmt.Sprintf("%d native executions, none failed", runs)
		}
	}
	return nil, note
}
