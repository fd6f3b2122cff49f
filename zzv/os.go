package zzv

import (
	"bufio"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"github.com/kklash/wordlist4096"
	"golang.org/x/term"
)

// The contracts the verifier assumes for files, standard streams and the terminal, as Go
// code over ghost state: M_<function> stands for that function in proofs. Every call that
// can fail in the real world may fail here.

// What there is at a path before the lemma.
const (
	FileNone     = 0 // nothing
	FileRegular  = 1 // a regular file
	FileLink     = 2 // a symbolic link to a path where nothing is
	FileDir      = 3 // a directory
	FileNoParent = 4 // not even the directory
	FileNotDir   = 5 // the path leads through a regular file
	FileLate     = 6 // nothing, but a regular file appears before it is opened
	FileTouched  = 7 // a link whose target was made (only afterwards)
)

type node struct {
	path string
	kind int
	data string
	mode uint32
}

type handle struct {
	f    *os.File
	n    *node
	off  int
	shut bool
}

type scanner struct {
	s     *bufio.Scanner
	h     *handle
	std   bool
	words bool
	ready bool
	toks  []string
	limit int
	pos   int
	cur   string
	bad   bool
}

var (
	nodes       []*node
	handles     []*handle
	scanners    []*scanner
	out         string
	errOut      string
	faulted     bool
	interrupted bool
	rawTerm     bool
	passes      []string
	anyPass     func(string)
	width       = -1
	onLine      func(string)
	onKey       func(byte)
)

var errFault error = errors.New("input/output error")
var errNotDir error = errors.New("not a directory")

func fails(what string) bool {
	if Choose(what) {
		faulted = true
		return true
	}
	return false
}

func find(path string) *node {
	for _, n := range nodes {
		if n.path == path {
			return n
		}
	}
	n := &node{path: path}
	nodes = append(nodes, n)
	return n
}

type fileInfo struct{ n node }

func (i fileInfo) Name() string       { return i.n.path }
func (i fileInfo) Size() int64        { return int64(len(i.n.data)) }
func (i fileInfo) Mode() fs.FileMode  { return fs.FileMode(i.n.mode) }
func (i fileInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i fileInfo) IsDir() bool        { return i.n.kind == FileDir }
func (i fileInfo) Sys() any           { return nil }

func notExist(op, path string) error { return fmt.Errorf("%s %s: %w", op, path, fs.ErrNotExist) }
func exists(op, path string) error   { return fmt.Errorf("%s %s: %w", op, path, fs.ErrExist) }

func M_os_Stat(name string) (os.FileInfo, error) {
	n := find(name)
	switch n.kind {
	case FileNone, FileLate, FileLink, FileNoParent:
		return nil, notExist("stat", name)
	case FileNotDir:
		return nil, errNotDir
	}
	return fileInfo{*n}, nil
}

func M_os_Lstat(name string) (os.FileInfo, error) {
	n := find(name)
	if n.kind == FileLink {
		return fileInfo{*n}, nil
	}
	return M_os_Stat(name)
}

func M_os_IsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }
func M_os_IsExist(err error) bool    { return errors.Is(err, fs.ErrExist) }

func M_os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n := find(name)
	if n.kind == FileLate {
		n.kind = FileRegular
	}
	create := flag&os.O_CREATE != 0
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	excl := create && flag&os.O_EXCL != 0
	switch n.kind {
	case FileNoParent:
		return nil, notExist("open", name)
	case FileNotDir:
		return nil, errNotDir
	case FileNone, FileLink:
		if n.kind == FileLink && excl {
			return nil, exists("open", name)
		}
		if !create {
			return nil, notExist("open", name)
		}
		if fails("open") {
			return nil, errFault
		}
		if n.kind == FileLink {
			n.kind = FileTouched
		} else {
			n.kind = FileRegular
		}
		n.data, n.mode = "", uint32(perm)
	default:
		if excl {
			return nil, exists("open", name)
		}
		if write && n.kind == FileDir {
			return nil, errFault
		}
		if fails("open") {
			return nil, errFault
		}
		if write && flag&os.O_TRUNC != 0 {
			n.data = ""
		}
	}
	h := &handle{f: new(os.File), n: n}
	if flag&os.O_APPEND != 0 {
		h.off = len(n.data)
	}
	handles = append(handles, h)
	return h.f, nil
}

func M_os_Open(name string) (*os.File, error) { return M_os_OpenFile(name, os.O_RDONLY, 0) }
func M_os_Create(name string) (*os.File, error) {
	return M_os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func M_os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := M_os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = M___os_File__Write(f, data)
	if err1 := M___os_File__Close(f); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func M_os_ReadFile(name string) ([]byte, error) {
	f, err := M_os_Open(name)
	if err != nil {
		return nil, err
	}
	if fails("read") {
		return nil, errFault
	}
	return []byte(of(f).n.data), nil
}

func M_os_Chmod(name string, mode os.FileMode) error {
	if fails("chmod") {
		return errFault
	}
	find(name).mode = uint32(mode)
	return nil
}

func M_os_Remove(name string) error {
	n := find(name)
	if n.kind == FileNone || fails("remove") {
		return errFault
	}
	n.kind, n.data, n.mode = FileNone, "", 0
	return nil
}

func of(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	Unsupported("a file that was not opened by the code")
	return nil
}

func M___os_File__Write(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		out += string(b)
		return len(b), nil
	}
	if f == os.Stderr {
		errOut += string(b)
		return len(b), nil
	}
	h := of(f)
	if h.shut || fails("write") {
		return 0, errFault
	}
	d := h.n.data[:h.off] + string(b)
	if len(d) < len(h.n.data) {
		d += h.n.data[len(d):]
	}
	h.n.data = d
	h.off += len(b)
	return len(b), nil
}

func M___os_File__WriteString(f *os.File, s string) (int, error) {
	return M___os_File__Write(f, []byte(s))
}

func M___os_File__Close(f *os.File) error {
	h := of(f)
	if h.shut || fails("close") {
		return errFault
	}
	h.shut = true
	return nil
}

func M___os_File__Sync(f *os.File) error {
	if fails("sync") {
		return errFault
	}
	return nil
}

func M___os_File__Chmod(f *os.File, mode os.FileMode) error {
	if fails("chmod") {
		return errFault
	}
	of(f).n.mode = uint32(mode)
	return nil
}

func M___os_File__Name(f *os.File) string { return of(f).n.path }
func M___os_File__Fd(f *os.File) uintptr  { return 0 }

// Read from the terminal gives one key per call, from a file all that is there.
func M___os_File__Read(f *os.File, b []byte) (int, error) {
	if f != os.Stdin {
		h := of(f)
		if h.shut || h.n.kind == FileDir || fails("read") {
			return 0, errFault
		}
		if len(b) == 0 {
			return 0, nil
		}
		n := len(h.n.data) - h.off
		if n <= 0 {
			return 0, io.EOF
		}
		if n > len(b) {
			n = len(b)
		}
		copy(b, h.n.data[h.off:h.off+n])
		h.off += n
		return n, nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	if fails("read") {
		return 0, errFault
	}
	b[0] = FreshByte("key")
	if onKey != nil {
		onKey(b[0])
	}
	return 1, nil
}

func M_io_ReadAll(r io.Reader) ([]byte, error) {
	f, ok := r.(*os.File)
	if !ok || f == os.Stdin {
		Unsupported("io.ReadAll")
	}
	if fails("read") {
		return nil, errFault
	}
	return []byte(of(f).n.data), nil
}

func M_fmt_Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(fmt.Sprint(a...))) }
func M_fmt_Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(fmt.Sprintln(a...))) }
func M_fmt_Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return w.Write([]byte(fmt.Sprintf(f, a...)))
}
func M_fmt_Print(a ...any) (int, error)   { return os.Stdout.Write([]byte(fmt.Sprint(a...))) }
func M_fmt_Println(a ...any) (int, error) { return os.Stdout.Write([]byte(fmt.Sprintln(a...))) }
func M_fmt_Printf(f string, a ...any) (int, error) {
	return os.Stdout.Write([]byte(fmt.Sprintf(f, a...)))
}

// The list of options in a usage message is left out.
func M___flag_FlagSet__VisitAll(f *flag.FlagSet, fn func(*flag.Flag)) {}

func M_bufio_NewScanner(r io.Reader) *bufio.Scanner {
	f, ok := r.(*os.File)
	if !ok {
		Unsupported("a scanner over something else than a file")
	}
	s := &scanner{s: new(bufio.Scanner), std: f == os.Stdin}
	if !s.std {
		s.h = of(f)
	}
	scanners = append(scanners, s)
	return s.s
}

func ofScanner(s *bufio.Scanner) *scanner {
	for _, x := range scanners {
		if x.s == s {
			return x
		}
	}
	Unsupported("a scanner that was not made by the code")
	return nil
}

func M___bufio_Scanner__Split(s *bufio.Scanner, split bufio.SplitFunc) {
	x := ofScanner(s)
	switch FuncName(split) {
	case "bufio.ScanWords":
		x.words = true
	case "bufio.ScanLines":
		x.words = false
	default:
		Unsupported("split function")
	}
}

func M___bufio_Scanner__Buffer(s *bufio.Scanner, buf []byte, max int) {}

func M___bufio_Scanner__Scan(s *bufio.Scanner) bool {
	x := ofScanner(s)
	if x.std {
		if x.words {
			Unsupported("words of standard input")
		}
		if Choose("end of input") {
			return false
		}
		x.cur = FreshString("line")
		if onLine != nil {
			onLine(x.cur)
		}
		return true
	}
	if !x.ready {
		x.ready = true
		if x.words {
			x.toks = strings.Fields(x.h.n.data)
		} else {
			x.toks = List("lines", x.h.n.data)
		}
		x.limit = len(x.toks)
		x.bad = ScanFails(x.h.n.data)
		if x.bad {
			x.limit = ScanLimit(x.h.n.data)
			Assume(x.limit >= 0 && x.limit <= len(x.toks))
		}
	}
	if x.pos >= x.limit {
		return false
	}
	x.cur = x.toks[x.pos]
	x.pos++
	return true
}

func M___bufio_Scanner__Text(s *bufio.Scanner) string  { return ofScanner(s).cur }
func M___bufio_Scanner__Bytes(s *bufio.Scanner) []byte { return []byte(ofScanner(s).cur) }
func M___bufio_Scanner__Err(s *bufio.Scanner) error {
	x := ofScanner(s)
	if x.bad && x.ready && x.pos >= x.limit {
		return errFault
	}
	return nil
}

func M_golang_org_x_term_MakeRaw(fd int) (*term.State, error) {
	if !rawTerm {
		return nil, errFault
	}
	return new(term.State), nil
}
func M_golang_org_x_term_GetState(fd int) (*term.State, error) {
	if !rawTerm {
		return nil, errFault
	}
	return new(term.State), nil
}
func M_golang_org_x_term_Restore(fd int, s *term.State) error { return nil }
func M_golang_org_x_term_IsTerminal(fd int) bool              { return rawTerm }
func M_golang_org_x_term_GetSize(fd int) (int, int, error) {
	if fails("terminal size") {
		return 0, 0, errFault
	}
	if width < 0 {
		width = int(FreshUint32("width") & 0xffff)
	}
	return width, 0, nil
}

// Completions of a query: none for the empty one; the first one completes it to a word of
// the list, and is empty for a word.
func M_github_com_kklash_wordlist4096_Search(query string) *wordlist4096.SearchResult {
	r := &wordlist4096.SearchResult{Suffixes: []string{}}
	if query == "" {
		return r
	}
	_, r.ExactMatch = wordlist4096.WordMap[query]
	s := List("suffixes", query)
	if r.ExactMatch {
		Assume(len(s) > 0)
		Assume(s[0] == "")
	}
	if len(s) > 0 {
		_, ok := wordlist4096.WordMap[query+s[0]]
		Assume(ok)
	}
	r.Suffixes = s
	return r
}

var errEnd error = errors.New("end of input")

func M_golang_org_x_term_ReadPassword(fd int) ([]byte, error) {
	p, ok := NextPassword()
	if !ok {
		return nil, errEnd
	}
	return p, nil
}

// Contexts that an interrupt, or cancelling, ends. The interrupt may come, or not.

type notifyCtx struct {
	parent context.Context
	done   chan struct{}
	ended  bool
}

func (c *notifyCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *notifyCtx) Done() <-chan struct{}       { return c.done }
func (c *notifyCtx) Value(key any) any           { return nil }
func (c *notifyCtx) Err() error {
	if c.ended {
		return errCanceled
	}
	return nil
}

var errCanceled error = errors.New("context canceled")

func (c *notifyCtx) end() {
	if !c.ended {
		c.ended = true
		close(c.done)
	}
}

func M_context_Background() context.Context { return &notifyCtx{} }

func M_context_WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &notifyCtx{parent: parent, done: make(chan struct{})}
	if p := parent.Done(); p != nil {
		go func() {
			<-p
			c.end()
		}()
	}
	return c, c.end
}

func M_os_signal_NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	c := &notifyCtx{parent: parent, done: make(chan struct{})}
	go func() {
		if Choose("interrupt") {
			interrupted = true
			c.end()
		}
	}()
	return c, c.end
}

func M_os_signal_Notify(c chan<- os.Signal, sig ...os.Signal) {
	go func() {
		if Choose("interrupt") {
			interrupted = true
			c <- nil
		}
	}()
}

func M_os_signal_Stop(c chan<- os.Signal) {}
