package zzv

import (
	"bufio"
	"encoding/hex"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// What lemmas say about files, standard streams and the terminal: over the ghost state in
// proofs, over a scratch directory and replaced standard streams in native runs.

var scratch string
var saved [3]*os.File
var streams [3]*os.File

func dir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "zzv-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

// Path is a path of the lemma's own.
func Path(i int) string {
	if Symbolic() {
		return "/zzv/" + string([]byte{byte('0' + i)})
	}
	return filepath.Join(dir(), strconv.Itoa(i), "words")
}

// SetFile sets what there is at a path.
func SetFile(path string, kind int, data string, mode uint32) {
	if Symbolic() {
		n := find(path)
		n.kind, n.data, n.mode = kind, data, mode
		return
	}
	d := filepath.Dir(path)
	os.RemoveAll(d)
	if kind == FileNoParent {
		return
	}
	if kind == FileNotDir {
		os.WriteFile(d, nil, 0o600)
		return
	}
	if kind == FileLate {
		Assume(false) // not reproduced natively
	}
	os.MkdirAll(d, 0o700)
	switch kind {
	case FileRegular:
		os.WriteFile(path, []byte(data), 0o600)
		os.Chmod(path, os.FileMode(mode&0o777))
	case FileLink:
		os.Symlink(filepath.Join(d, "target"), path)
	case FileDir:
		os.Mkdir(path, 0o700)
	}
}

// File tells what there is at a path now.
func File(path string) (kind int, data string, mode uint32) {
	if Symbolic() {
		n := find(path)
		return n.kind, n.data, n.mode
	}
	d := filepath.Dir(path)
	if i, err := os.Stat(d); err != nil {
		return FileNoParent, "", 0
	} else if !i.IsDir() {
		return FileNotDir, "", 0
	}
	i, err := os.Lstat(path)
	if err != nil {
		return FileNone, "", 0
	}
	switch {
	case i.IsDir():
		return FileDir, "", 0
	case i.Mode()&os.ModeSymlink != 0:
		if b, err := os.ReadFile(path); err == nil {
			return FileTouched, string(b), 0
		}
		return FileLink, "", 0
	}
	b, _ := os.ReadFile(path)
	return FileRegular, string(b), uint32(i.Mode().Perm())
}

// Faulted says whether the environment failed in some call.
func Faulted() bool { return faulted }

// ScanFails says whether reading the contents word by word ends early, because of a word
// that is too long or a failing read; ScanLimit is the number of words read then.
func ScanFails(content string) bool {
	s := bufio.NewScanner(strings.NewReader(content))
	s.Split(bufio.ScanWords)
	for s.Scan() {
	}
	return s.Err() != nil
}

func ScanLimit(content string) int {
	s := bufio.NewScanner(strings.NewReader(content))
	s.Split(bufio.ScanWords)
	n := 0
	for s.Scan() {
		n++
	}
	return n
}

func stream(i int) *os.File {
	if streams[i] == nil {
		f, err := os.CreateTemp(dir(), "stream")
		if err != nil {
			panic(err)
		}
		streams[i] = f
	}
	return streams[i]
}

// Terminal replaces the standard streams; raw says whether standard input is a terminal.
func Terminal(raw bool) {
	if Symbolic() {
		rawTerm = raw
		return
	}
	os.Stdin, os.Stdout, os.Stderr = stream(0), stream(1), stream(2)
	os.Setenv("ZZ_TERM", "")
	if raw {
		os.Setenv("ZZ_TERM", "1")
	}
	os.Setenv("ZZ_PASS", "")
	os.Setenv("ZZ_WIDTH", "")
}

// Width sets the width of the terminal; in proofs it is arbitrary otherwise.
func Width(w int) {
	if Symbolic() {
		width = w
		return
	}
	os.Setenv("ZZ_WIDTH", strconv.Itoa(w))
}

// Stdout and Stderr are what was written so far.
func Stdout() string {
	if Symbolic() {
		return out
	}
	b, _ := os.ReadFile(streams[1].Name())
	return string(b)
}

func Stderr() string {
	if Symbolic() {
		return errOut
	}
	b, _ := os.ReadFile(streams[2].Name())
	return string(b)
}

// Passwords are what the user enters at password prompts; then the input ends.
func Passwords(ps ...string) {
	if Symbolic() {
		passes = ps
		return
	}
	var l []string
	for _, p := range ps {
		l = append(l, "x"+hex.EncodeToString([]byte(p)))
	}
	os.Setenv("ZZ_PASS", strings.Join(l, ","))
}

// EnterPassword is the assumed contract of a password prompt: the first non-empty password
// entered, and entered twice if it has to be confirmed; an error if the input ends before.
func EnterPassword(confirm bool) ([]byte, bool) {
	for {
		p, ok := NextPassword()
		if !ok {
			return nil, false
		}
		if len(p) == 0 {
			continue
		}
		if confirm {
			q, ok := NextPassword()
			if !ok {
				return nil, false
			}
			if string(p) != string(q) {
				continue
			}
		}
		return p, true
	}
}

// AnyPasswords are what the user enters; in proofs arbitrary ones come, whatever ps is, and
// the input may end any time. f sees each password entered.
func AnyPasswords(ps []string, f func(string)) {
	if Symbolic() {
		anyPass = f
		return
	}
	Passwords(ps...)
	for _, p := range ps {
		f(p)
	}
}

// NextPassword is the next password entered.
func NextPassword() ([]byte, bool) {
	if anyPass != nil {
		if Choose("end of input") {
			return nil, false
		}
		p := FreshString("password")
		anyPass(p)
		return []byte(p), true
	}
	if len(passes) == 0 {
		return nil, false
	}
	p := passes[0]
	passes = passes[1:]
	return []byte(p), true
}

// Lines are the lines of standard input; in proofs arbitrary ones come, whatever lines is.
// f sees each line read.
func Lines(lines []string, f func(string)) {
	if Symbolic() {
		onLine = f
		return
	}
	text := ""
	for _, l := range lines {
		text += strings.ReplaceAll(l, "\n", " ") + "\n"
	}
	if len(text) > 60000 {
		Assume(false)
	}
	stream(0).WriteString(text)
	streams[0].Seek(0, 0)
	s := bufio.NewScanner(strings.NewReader(text))
	for s.Scan() {
		f(s.Text())
	}
}

// Keys are the keys typed; in proofs arbitrary ones come, whatever keys is.
// f sees each key read.
func Keys(keys []byte, f func(byte)) {
	if Symbolic() {
		onKey = f
		return
	}
	stream(0).Write(keys)
	streams[0].Seek(0, 0)
	for _, k := range keys {
		f(k)
	}
}

// PrintedWords are the list words printed one by one in a text, in order.
func PrintedWords(text string) []string {
	escapes := regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")
	wordLine := regexp.MustCompile(`^\s*\d+\W+([a-z]+)\W*$`)
	words := []string{}
	for _, l := range strings.Split(escapes.ReplaceAllString(text, ""), "\n") {
		if m := wordLine.FindStringSubmatch(l); m != nil {
			words = append(words, m[1])
		}
	}
	return words
}

func reset() {
	for i, f := range streams {
		if f != nil {
			f.Close()
		}
		streams[i] = nil
	}
	if saved[0] != nil {
		os.Stdin, os.Stdout, os.Stderr = saved[0], saved[1], saved[2]
	}
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// Files counts what there is at the lemma's paths.
func Files() int {
	n := 0
	if Symbolic() {
		for _, x := range nodes {
			if x.kind != FileNone {
				n++
			}
		}
		return n
	}
	for i := 0; i < 3; i++ {
		if k, _, _ := File(Path(i)); k != FileNone && k != FileNoParent {
			n++
		}
	}
	return n
}

// Interrupted says whether the user interrupted the program.
func Interrupted() bool { return interrupted }
