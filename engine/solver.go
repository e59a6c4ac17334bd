package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one incremental SMT process.  The assertion stack is kept
// aligned with the path condition by pushing one literal per level.
type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	tc     *TermCtx
	lin    bool
	decl   map[string]bool
	stack  []*Term
	to     int // ms
	Q      int
	T      time.Duration
	Unk    int
	dead   bool
	buf    strings.Builder
	binary string
	log    *os.File
}

func NewSolver(tc *TermCtx, lin bool, timeoutMs int, binary string) *Solver {
	s := &Solver{tc: tc, lin: lin, to: timeoutMs, binary: binary}
	if d := os.Getenv("SYMGO_SMTLOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "smt*.smt2")
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.decl = map[string]bool{}
	s.stack = nil
	s.dead = false
	s.cmd = exec.Command(s.binary, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.to))
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	s.buf.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}
func (s *Solver) flush() {
	if s.buf.Len() > 0 {
		if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
			s.dead = true
		}
		s.buf.Reset()
	}
}

func (s *Solver) declareTerm(t *Term) {
	for _, v := range t.Vars() {
		s.declareVar(v)
	}
}

func (s *Solver) declareVar(v *Term) {
	if s.decl[v.name] {
		return
	}
	s.decl[v.name] = true
	srt := map[Sort]string{SBool: "Bool", SInt: "Int", SReal: "Real"}[v.sort]
	s.send(fmt.Sprintf("(declare-const %s %s)\n", v.name, srt))
}

// bounds of a variable are asserted as path literals by the explorer (so that
// popping cannot lose them).

func (s *Solver) text(t *Term) string {
	x := s.tc.SMT(t, s.lin)
	s.declareTerm(t)
	if s.lin && t.nonlinear() {
		for name, v := range s.tc.nlvars {
			if !s.decl[name] {
				s.declareVar(v)
			}
		}
	}
	return x
}

func (s *Solver) align(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		x := s.text(pc[n])
		s.send("(push 1)\n(assert " + x + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// Check decides pc && extra.
func (s *Solver) Check(pc []*Term, extra ...*Term) SatRes { return s.CheckRaw(pc, extra, nil, nil) }

// CheckRaw additionally asserts raw SMT-LIB text and, on sat, reads a model of
// the given variables into m.
func (s *Solver) CheckRaw(pc []*Term, extra []*Term, raw []string, want func(Model) []*Term) SatRes {
	if s.dead {
		s.restart()
		if s.dead {
			return Unknown
		}
	}
	t0 := time.Now()
	s.align(pc)
	var texts []string
	for _, e := range extra {
		texts = append(texts, s.text(e))
	}
	s.send("(push 1)\n")
	for _, x := range texts {
		s.send("(assert " + x + ")\n")
	}
	for _, r := range raw {
		s.send(r + "\n")
	}
	s.send("(check-sat)\n")
	s.flush()
	s.Q++
	res := Unknown
	wd := time.AfterFunc(time.Duration(s.to+5000)*time.Millisecond, func() { s.cmd.Process.Kill() })
	l, ok := s.readLine()
	wd.Stop()
	if s.log != nil {
		s.log.WriteString("; ANSWER " + l + "\n")
	}
	switch {
	case !ok:
	case l == "unsat":
		res = Unsat
	case l == "sat":
		res = Sat
	case strings.HasPrefix(l, "(error"):
		// drain by restarting: inconclusive
		if debugSolver {
			fmt.Println("SOLVER ERROR", l)
		}
		s.T += time.Since(t0)
		s.restart()
		s.Unk++
		return Unknown
	}
	if res == Unknown {
		s.Unk++
	}
	if res == Sat && want != nil {
		m := Model{}
		vars := want(m)
		s.getValues(vars, m)
	}
	if !s.dead {
		s.send("(pop 1)\n")
	}
	s.T += time.Since(t0)
	return res
}

var debugSolver = false

func (s *Solver) getValues(vars []*Term, m Model) {
	for i := 0; i < len(vars); i += 200 {
		j := i + 200
		if j > len(vars) {
			j = len(vars)
		}
		byName := map[string]*Term{}
		var names []string
		for _, v := range vars[i:j] {
			s.declareVar(v)
			names = append(names, v.name)
			byName[v.name] = v
		}
		s.send("(get-value (" + strings.Join(names, " ") + "))\n")
		s.flush()
		txt := ""
		depth := 0
		started := false
		for !started || depth > 0 {
			l, ok := s.readLine()
			if !ok {
				return
			}
			if strings.HasPrefix(l, "(error") {
				return
			}
			txt += l + " "
			for _, ch := range l {
				if ch == '(' {
					depth++
					started = true
				} else if ch == ')' {
					depth--
				}
			}
		}
		x, _ := parseSexp(txt, 0)
		for _, pr := range x.kids {
			if len(pr.kids) != 2 {
				continue
			}
			v := byName[pr.kids[0].atom]
			if v == nil {
				continue
			}
			if r, ok := sexpRat(pr.kids[1]); ok {
				m[v] = r
			}
		}
	}
}

type sexp struct {
	atom string
	kids []sexp
}

func parseSexp(t string, i int) (sexp, int) {
	for i < len(t) && (t[i] == ' ' || t[i] == '\n') {
		i++
	}
	if i < len(t) && t[i] == '(' {
		var s sexp
		i++
		for {
			for i < len(t) && t[i] == ' ' {
				i++
			}
			if i >= len(t) || t[i] == ')' {
				return s, i + 1
			}
			var k sexp
			k, i = parseSexp(t, i)
			s.kids = append(s.kids, k)
		}
	}
	j := i
	for j < len(t) && t[j] != ' ' && t[j] != '(' && t[j] != ')' {
		j++
	}
	return sexp{atom: t[i:j]}, j
}

func sexpRat(s sexp) (*big.Rat, bool) {
	if s.atom != "" {
		switch s.atom {
		case "true":
			return ratOne, true
		case "false":
			return ratZero, true
		}
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(s.atom, "?"))
		return r, ok
	}
	if len(s.kids) == 2 && s.kids[0].atom == "-" {
		r, ok := sexpRat(s.kids[1])
		if !ok {
			return nil, false
		}
		return new(big.Rat).Neg(r), true
	}
	if len(s.kids) == 3 && s.kids[0].atom == "/" {
		a, ok1 := sexpRat(s.kids[1])
		b, ok2 := sexpRat(s.kids[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(a, b), true
	}
	return nil, false
}
