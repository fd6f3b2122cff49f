package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	name    string
	argv    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int
	elapsed time.Duration
	maxTime time.Duration
}

var (
	primary    = &Solver{name: "z3", argv: []string{"z3", "-in"}}
	cross      []*Solver
	queryMemo  = map[string]Result{}
	backups    = []*Solver{{name: "z3-new", argv: []string{"z3-new", "-in"}}, {name: "cvc5", argv: []string{"cvc5", "--incremental", "--lang", "smt2"}}}
	backupUsed = map[string]int{}
)

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	return nil
}
func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w int) string {
	switch w {
	case SBool:
		return "Bool"
	case SBytes:
		return "B"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func ufSym(t *Term) string {
	if t.op == OpVar {
		return "|" + t.name + "|"
	}
	var sb strings.Builder
	sb.WriteString("|f." + t.name)
	for _, a := range t.args {
		sb.WriteString("." + strconv.Itoa(a.w))
	}
	sb.WriteString("." + strconv.Itoa(t.w) + "|")
	return sb.String()
}

// factClosure returns asserts plus the facts of every term reachable from them.
func factClosure(asserts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	work := append([]*Term{}, asserts...)
	inOut := map[int]bool{}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if inOut[a.id] || a == tTrue {
			continue
		}
		inOut[a.id] = true
		out = append(out, a)
		st := []*Term{a}
		for len(st) > 0 {
			t := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[t.id] {
				continue
			}
			seen[t.id] = true
			work = append(work, termFacts[t.id]...)
			st = append(st, t.args...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

var scriptMemo = map[string]Result{}

func script(asserts []*Term, values []*Term) string {
	var sb strings.Builder
	sb.WriteString("(declare-sort B 0)\n")
	done := map[int]bool{}
	decl := map[string]bool{}
	// without values to report, names do not matter: number them, so that the same
	// question about other variables is the same script
	names := map[int]string{}
	name := func(t *Term, pre string) string {
		if len(values) > 0 {
			return pre + strconv.Itoa(t.id)
		}
		n, ok := names[t.id]
		if !ok {
			n = pre + strconv.Itoa(len(names))
			names[t.id] = n
		}
		return n
	}
	ufSym := func(t *Term) string {
		if t.op == OpVar && len(values) == 0 {
			return name(t, "x")
		}
		return ufSym(t)
	}
	ref := func(t *Term) string {
		switch t.op {
		case OpConst:
			if t.w == SBool {
				if t == tTrue {
					return "true"
				}
				return "false"
			}
			return "(_ bv" + t.val.String() + " " + strconv.Itoa(t.w) + ")"
		case OpVar:
			return ufSym(t)
		}
		return name(t, "t")
	}
	var emit func(t *Term)
	emit = func(t *Term) {
		if done[t.id] {
			return
		}
		done[t.id] = true
		for _, a := range t.args {
			emit(a)
		}
		switch t.op {
		case OpConst:
			return
		case OpVar, OpUF:
			s := ufSym(t)
			if !decl[s] {
				decl[s] = true
				sb.WriteString("(declare-fun " + s + " (")
				for i, a := range t.args {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(sortName(a.w))
				}
				sb.WriteString(") " + sortName(t.w) + ")\n")
			}
			if t.op == OpVar {
				return
			}
		}
		sb.WriteString("(define-fun " + name(t, "t") + " () " + sortName(t.w) + " ")
		bin := func(n string) {
			sb.WriteString("(" + n)
			for _, a := range t.args {
				sb.WriteByte(' ')
				sb.WriteString(ref(a))
			}
			sb.WriteByte(')')
		}
		switch t.op {
		case OpUF:
			if len(t.args) == 0 {
				sb.WriteString(ufSym(t))
			} else {
				bin(ufSym(t))
			}
		case OpNot:
			bin("not")
		case OpAnd:
			bin("and")
		case OpOr:
			bin("or")
		case OpIte:
			bin("ite")
		case OpEq:
			bin("=")
		case OpUlt:
			bin("bvult")
		case OpSlt:
			bin("bvslt")
		case OpMul:
			bin("bvmul")
		case OpBAnd:
			bin("bvand")
		case OpBOr:
			bin("bvor")
		case OpBXor:
			bin("bvxor")
		case OpConcat:
			bin("concat")
		case OpShl:
			bin("bvshl")
		case OpLshr:
			bin("bvlshr")
		case OpAshr:
			bin("bvashr")
		case OpUDiv:
			bin("bvudiv")
		case OpURem:
			bin("bvurem")
		case OpSDiv:
			bin("bvsdiv")
		case OpSRem:
			bin("bvsrem")
		case OpExtract:
			fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.hi, t.lo, ref(t.args[0]))
		case OpSext:
			fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
		case OpLin:
			parts := []string{}
			for i, a := range t.args {
				c := t.coefs[i]
				if c.Cmp(big1) == 0 {
					parts = append(parts, ref(a))
				} else {
					parts = append(parts, fmt.Sprintf("(bvmul (_ bv%s %d) %s)", c, t.w, ref(a)))
				}
			}
			if t.val.Sign() != 0 {
				parts = append(parts, fmt.Sprintf("(_ bv%s %d)", t.val, t.w))
			}
			if len(parts) == 1 {
				sb.WriteString(parts[0])
			} else {
				e := parts[0]
				for _, p := range parts[1:] {
					e = "(bvadd " + e + " " + p + ")"
				}
				sb.WriteString(e)
			}
		default:
			panic("emit op")
		}
		sb.WriteString(")\n")
	}
	for _, a := range asserts {
		emit(a)
	}
	for _, v := range values {
		emit(v)
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + ref(a) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// check decides satisfiability of the conjunction of asserts (and their facts).
func (s *Solver) check(asserts []*Term, timeoutMs int, values []*Term) (Result, []*big.Int, string) {
	for _, a := range asserts {
		if a == tFalse {
			return Unsat, nil, ""
		}
	}
	return s.checkAll(factClosure(asserts), timeoutMs, values)
}

// checkAll is check of exactly the given asserts.
func (s *Solver) checkAll(all []*Term, timeoutMs int, values []*Term) (Result, []*big.Int, string) {
	if len(all) == 0 && len(values) == 0 {
		return Sat, nil, ""
	}
	for _, a := range all {
		if a == tFalse {
			return Unsat, nil, ""
		}
	}
	key := ""
	if len(values) == 0 {
		var sb strings.Builder
		sb.WriteString(s.name)
		for _, a := range all {
			sb.WriteString("," + strconv.Itoa(a.id))
		}
		key = sb.String()
		if r, ok := queryMemo[key]; ok {
			return r, nil, ""
		}
	}
	if !hardStop.IsZero() {
		left := int(time.Until(hardStop).Milliseconds())
		if left <= 0 {
			return Unknown, nil, ""
		}
		if timeoutMs > left {
			timeoutMs = left
		}
	}
	sc := script(all, values)
	if key != "" {
		if r, ok := scriptMemo[s.name+sc]; ok {
			queryMemo[key] = r
			return r, nil, sc
		}
	}
	t0 := time.Now()
	first := timeoutMs
	if s == primary && first > 6000 {
		first = 6000
	}
	r, vals := s.run(sc, first, values)
	if s == primary && r == Unknown {
		for _, b := range backups {
			if r, vals = b.run(sc, timeoutMs/2, values); r != Unknown {
				backupUsed[b.name]++
				break
			}
		}
	}
	d := time.Since(t0)
	s.elapsed += d
	s.queries++
	if d > s.maxTime {
		s.maxTime = d
	}
	if debugSlow > 0 && d > debugSlow {
		fmt.Fprintf(os.Stderr, "slow query %v -> %v (%d bytes)\n", d, r, len(sc))
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.queries), []byte(sc), 0644)
	}
	if key != "" && r != Unknown {
		queryMemo[key] = r
		if len(sc) < 20000 {
			scriptMemo[s.name+sc] = r
		}
	}
	return r, vals, sc
}

var debugSlow time.Duration

// hardStop: no query is started after this time.
var hardStop time.Time

func (s *Solver) run(sc string, timeoutMs int, values []*Term) (Result, []*big.Int) {
	for attempt := 0; attempt < 2; attempt++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				return Unknown, nil
			}
		}
		var sb strings.Builder
		sb.WriteString("(reset)\n")
		if strings.HasPrefix(s.name, "z3") {
			fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMs)
			if len(values) > 0 {
				sb.WriteString("(set-option :produce-models true)\n")
			}
			sb.WriteString("(set-logic QF_UFBV)\n")
		} else {
			if len(values) > 0 {
				sb.WriteString("(set-option :produce-models true)\n")
			}
			fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n(set-logic QF_UFBV)\n", timeoutMs)
		}
		sb.WriteString(sc)
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			s.stop()
			continue
		}
		type rd struct {
			line string
			err  error
		}
		ch := make(chan rd, 1)
		readLine := func() (string, bool) {
			go func() {
				l, err := s.out.ReadString('\n')
				ch <- rd{l, err}
			}()
			select {
			case x := <-ch:
				return strings.TrimSpace(x.line), x.err == nil
			case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 3*time.Second):
				return "", false
			}
		}
		line, ok := readLine()
		if !ok {
			s.stop()
			if attempt == 0 && line == "" {
				return Unknown, nil
			}
			continue
		}
		switch line {
		case "unsat":
			return Unsat, nil
		case "unknown", "timeout":
			return Unknown, nil
		case "sat":
			if len(values) == 0 {
				return Sat, nil
			}
			var out []*big.Int
			for _, v := range values {
				ref := "t" + strconv.Itoa(v.id)
				if v.op == OpVar {
					ref = ufSym(v)
				}
				io.WriteString(s.in, "(get-value ("+ref+"))\n")
				// may span lines: read until balanced
				txt := ""
				for {
					l, ok := readLine()
					if !ok {
						s.stop()
						return Sat, nil
					}
					txt += l + " "
					if strings.Count(txt, "(") == strings.Count(txt, ")") {
						break
					}
				}
				out = append(out, parseVal(txt))
			}
			return Sat, out
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "solver error:", line)
				os.WriteFile("/tmp/solver_error.smt2", []byte(sb.String()), 0644)
				s.stop()
				return Unknown, nil
			}
			s.stop()
			return Unknown, nil
		}
	}
	return Unknown, nil
}

func parseVal(txt string) *big.Int {
	if i := strings.Index(txt, "#x"); i >= 0 {
		h := txt[i+2:]
		j := strings.IndexAny(h, ") ")
		v, _ := new(big.Int).SetString(h[:j], 16)
		return v
	}
	if i := strings.Index(txt, "#b"); i >= 0 {
		h := txt[i+2:]
		j := strings.IndexAny(h, ") ")
		v, _ := new(big.Int).SetString(h[:j], 2)
		return v
	}
	if i := strings.Index(txt, "(_ bv"); i >= 0 {
		h := txt[i+5:]
		j := strings.IndexAny(h, ") ")
		v, _ := new(big.Int).SetString(h[:j], 10)
		return v
	}
	if strings.Contains(txt, " true)") {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}
