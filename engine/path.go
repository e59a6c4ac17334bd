package main

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
)

// Decision is one resolved nondeterministic step of a path.
type Decision struct {
	Val    int
	Forced bool
	Kind   byte // 'b'ranch, 'c'hoice, 'a'ssert
	At     int  // instruction count, to detect diverging replays
	Txt    string
}

type InputRec struct {
	Kind string // int, u64, float, bool, choose
	Name string
	T    *Term
	C    string // concrete value of choose
}

type Obs struct {
	Label string
	V     Value
	T     string // kind tag
}

type knownCond struct {
	id string
	c  *Term
}

type Path struct {
	text     bool // numbers are written as tokens
	textNums []*Term
	orderSwitches int // times the iteration order of a map has changed
	i             *Interp
	w             *Worker
	tc            *TermCtx
	h             *HarnessRun
	prefix        []Decision
	pos           int
	trace         []Decision
	pc            []*Term
	known         map[*Term]bool
	subst         map[*Term]*Term
	memo          map[*Term]*Term
	model         Model
	modelOK       bool
	steps         int
	maxSteps      int
	inputs        []InputRec
	vars          []*Term
	obs           []Obs
	once          map[*Value]bool
	nvar          int
	reached       map[string]bool
	kconds        []knownCond
	asserts       int
	overapx       bool // a branch was taken on an inconclusive feasibility answer
	maxForks      int
	inTry         int
	log           []string
}

func (p *Path) knownLit(t *Term) (bool, bool) {
	v, ok := p.known[t]
	return v, ok
}

func (p *Path) simp(t *Term) *Term {
	if t.kind == KConst || t.kind == KTrue || t.kind == KFalse {
		return t
	}
	if len(p.known) == 0 && len(p.subst) == 0 {
		return t
	}
	return p.tc.SimpP(t, p)
}

// isKnown: 1 true, 0 false, -1 undetermined syntactically
func (p *Path) isKnown(c *Term) int {
	c = p.simp(c)
	if c.IsTrue() {
		return 1
	}
	if c.IsFalse() {
		return 0
	}
	return -1
}

func (p *Path) learn(c *Term, v bool) {
	if c.kind == KNot {
		p.learn(c.args[0], !v)
		return
	}
	if _, ok := p.known[c]; ok {
		return
	}
	p.known[c] = v
	if (c.kind == KAnd && v) || (c.kind == KOr && !v) {
		for _, a := range c.args {
			p.learn(a, v)
		}
	}
	if c.kind == KEq0 && v {
		p.learnEq(c.args[0])
	}
	p.memo = map[*Term]*Term{}
}

// varIdx is the creation index of an input variable on its path; unlike term
// ids it does not depend on what the worker did before.
func varIdx(v *Term) int {
	n := 0
	for k := 1; k < len(v.name) && v.name[k] >= '0' && v.name[k] <= '9'; k++ {
		n = n*10 + int(v.name[k]-'0')
	}
	return n
}

// replay consumes the next recorded decision; at guards against a replay that
// does not follow the recorded execution.
func (p *Path) replay(kind byte) Decision {
	d := p.prefix[p.pos]
	p.pos++
	if d.Kind != kind || d.At != p.steps {
		if os.Getenv("SYMGO_DIV") != "" {
			fmt.Printf("DIVERGED want %c@%d %s\n have %c@%d pos %d/%d\n", d.Kind, d.At, d.Txt, kind, p.steps, p.pos, len(p.prefix))
		}
		panic(pathAbort{"replay diverged"})
	}
	p.trace = append(p.trace, d)
	return d
}

// learnEq turns an equation into a substitution when it can be solved for a
// variable that occurs linearly with a suitable coefficient.
func (p *Path) learnEq(poly *Term) {
	poly = p.simpNoKnown(poly)
	ms := monosOf(poly)
	var best *Term
	var bestC *big.Rat
	for _, m := range ms {
		if len(m.atoms) != 1 {
			continue
		}
		a := m.atoms[0]
		if a.kind != KVar {
			continue
		}
		if poly.sort == SInt && new(big.Rat).Abs(m.c).Cmp(ratOne) != 0 {
			continue
		}
		occ := 0
		for _, n := range ms {
			for _, b := range n.atoms {
				for _, v := range b.Vars() {
					if v == a {
						occ++
					}
				}
			}
		}
		if occ == 1 && (best == nil || varIdx(a) > varIdx(best)) {
			best, bestC = a, m.c
		}
	}
	if best == nil {
		// to_real(x) == c
		if len(ms) <= 2 {
			for _, m := range ms {
				if len(m.atoms) == 1 && m.atoms[0].kind == KToReal && m.atoms[0].args[0].kind == KVar {
					rest, c := splitConst(poly)
					if len(rest) == 1 {
						v := new(big.Rat).Quo(new(big.Rat).Neg(c), rest[0].c)
						if v.IsInt() {
							p.subst[m.atoms[0].args[0]] = p.tc.Const(SInt, v)
						}
					}
				}
			}
		}
		return
	}
	if len(ms) > 6 {
		return
	}
	// best = -(poly - c*best)/c
	rest := p.tc.Sub(poly, p.tc.Scale(best, bestC))
	r := p.tc.Scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(bestC)))
	p.subst[best] = r
}

func (p *Path) simpNoKnown(t *Term) *Term { return p.simp(t) }

// SimpP simplifies under the path's knowledge.
func (tc *TermCtx) SimpP(t *Term, p *Path) *Term {
	for k := 0; k < 8; k++ {
		r := tc.simpRec(t, p)
		if r == t {
			return r
		}
		t = r
	}
	return t
}

func (tc *TermCtx) simpRec(t *Term, p *Path) *Term {
	if t.kind == KVar {
		if s, ok := p.subst[t]; ok {
			return s
		}
	}
	return tc.Simp2(t, p)
}

func (tc *TermCtx) Simp2(t *Term, p *Path) *Term {
	switch t.kind {
	case KConst, KTrue, KFalse:
		return t
	case KVar:
		if s, ok := p.subst[t]; ok {
			return s
		}
		if t.sort == SBool {
			if v, ok := p.known[t]; ok {
				return tc.Bool(v)
			}
		}
		return t
	}
	if r, ok := p.memo[t]; ok {
		return r
	}
	s := func(x *Term) *Term { return tc.Simp2(x, p) }
	var r *Term
	switch t.kind {
	case KNot:
		r = tc.Not(s(t.args[0]))
	case KAnd, KOr:
		if v, ok := p.known[t]; ok {
			r = tc.Bool(v)
			break
		}
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = s(a)
		}
		if t.kind == KAnd {
			r = tc.And(xs...)
		} else {
			r = tc.Or(xs...)
		}
	case KEq0, KLe0, KLt0:
		if v, ok := p.known[t]; ok {
			r = tc.Bool(v)
			break
		}
		q := s(t.args[0])
		switch {
		case q == t.args[0]:
			r = t
		case t.kind == KEq0:
			r = tc.eq0(q)
		default:
			r = tc.le0(q, t.kind == KLt0)
		}
		if r.kind == KNot {
			if v, ok := p.known[r.args[0]]; ok {
				r = tc.Bool(!v)
			}
		} else if v, ok := p.known[r]; ok {
			r = tc.Bool(v)
		}
	case KPoly:
		changed := false
		for _, m := range t.monos {
			for _, a := range m.atoms {
				if s(a) != a {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		var ms []Mono
		sum := tc.Num(t.sort, 0)
		for _, m := range t.monos {
			ch := false
			for _, a := range m.atoms {
				if s(a) != a {
					ch = true
				}
			}
			if !ch {
				ms = append(ms, m)
				continue
			}
			q := tc.Const(t.sort, m.c)
			for _, a := range m.atoms {
				q = tc.Mul(q, s(a))
				if q.IsConst() && q.c.Sign() == 0 {
					break
				}
			}
			sum = tc.Add(sum, q)
		}
		r = tc.Add(tc.polyFromUnsorted(t.sort, ms), sum)
	case KInd:
		r = tc.Ind(t.sort, s(t.args[0]))
	case KIte:
		c := s(t.args[0])
		if c.IsTrue() {
			r = s(t.args[1])
		} else if c.IsFalse() {
			r = s(t.args[2])
		} else {
			r = tc.Ite(c, s(t.args[1]), s(t.args[2]))
		}
	case KToReal:
		r = tc.ToReal(s(t.args[0]))
	case KDiv:
		d := s(t.args[1])
		if d.IsConst() && d.c.Sign() == 0 {
			r = t
		} else {
			r = tc.Div(s(t.args[0]), d)
		}
	case KIDiv:
		d := s(t.args[1])
		if d.IsConst() && d.c.Sign() == 0 {
			r = t
		} else {
			r = tc.IDiv(s(t.args[0]), d)
		}
	case KIMod:
		d := s(t.args[1])
		if d.IsConst() && d.c.Sign() == 0 {
			r = t
		} else {
			r = tc.IMod(s(t.args[0]), d)
		}
	case KWrap:
		r = tc.Wrap(s(t.args[0]), t.width, t.signed)
	case KTrunc:
		r = tc.Trunc(s(t.args[0]))
	case KFun:
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = s(a)
		}
		r = tc.Fun(t.name, xs...)
	default:
		r = t
	}
	p.memo[t] = r
	return r
}

func (p *Path) addPC(c *Term) {
	p.pc = append(p.pc, c)
	if c.kind == KNot {
		p.learn(c.args[0], false)
	} else {
		p.learn(c, true)
	}
}

// holdsInModel evaluates pc && extra in m.
func (p *Path) holdsInModel(m Model, extra ...*Term) bool {
	for _, l := range p.pc {
		v, ok := p.tc.Eval(l, m)
		if !ok || v.Sign() == 0 {
			return false
		}
	}
	for _, l := range extra {
		v, ok := p.tc.Eval(l, m)
		if !ok || v.Sign() == 0 {
			return false
		}
	}
	return true
}

// feasible decides pc && c and returns a model on sat when one was obtained.
func (p *Path) feasible(c *Term) (SatRes, Model) {
	return p.w.solve(p, []*Term{c}, nil)
}

var traceBranches = os.Getenv("SYMGO_TRACE") != ""

func (p *Path) Branch(c *Term) bool {
	if !traceBranches {
		return p.branch(c)
	}
	c0 := c
	n := len(p.trace)
	r := p.branch(c)
	fr := "syntactic"
	if len(p.trace) > n {
		fr = fmt.Sprint("forced=", p.trace[n].Forced)
	}
	p.log = append(p.log, fmt.Sprintf("%s -> %v %s (%d)", p.tc.SMT(c0, false), r, fr, len(p.pc)))
	return r
}

func (p *Path) branch(c *Term) bool {
	c = p.simp(c)
	if c.IsTrue() {
		return true
	}
	if c.IsFalse() {
		return false
	}
	if p.pos < len(p.prefix) {
		if divDebug {
			if d := p.prefix[p.pos]; d.Kind != 'b' || d.At != p.steps || d.Txt != "" && d.Txt != p.tc.SMT(c, false) {
				fmt.Printf("DIV want %c@%d %s\n have b@%d %s\n", d.Kind, d.At, d.Txt, p.steps, p.tc.SMT(c, false))
			}
		}
		d := p.replay('b')
		v := d.Val == 1
		lit := c
		if !v {
			lit = p.tc.Not(c)
		}
		if d.Forced {
			p.learn(c, v)
		} else {
			p.addPC(lit)
		}
		return v
	}
	nc := p.tc.Not(c)
	first := true // side known feasible
	var mT, mF Model
	var rT, rF SatRes
	haveSide := false
	if p.modelOK {
		if v, ok := p.tc.Eval(c, p.model); ok {
			haveSide = true
			first = v.Sign() != 0
		}
	}
	if haveSide {
		if first {
			rT, mT = Sat, p.model
			rF, mF = p.feasible(nc)
		} else {
			rF, mF = Sat, p.model
			rT, mT = p.feasible(c)
		}
	} else {
		rT, mT = p.feasible(c)
		rF, mF = p.feasible(nc)
		if rT == Unsat && rF == Unsat {
			panic(pathDead{})
		}
	}
	if rF == Unsat {
		p.decide('b', 1, true)
		p.dtxt(c)
		p.learn(c, true)
		return true
	}
	if rT == Unsat {
		p.decide('b', 0, true)
		p.dtxt(c)
		p.learn(c, false)
		return false
	}
	if rT == Unknown || rF == Unknown {
		p.w.addUnknown(p)
		p.overapx = true
	}
	// fork: continue on the side whose model we hold, queue the other
	takeT := true
	if haveSide {
		takeT = first
	}
	if takeT {
		p.fork('b', 0, mF)
		p.decide('b', 1, false)
		p.dtxt(c)
		p.setModel(mT)
		p.addPC(c)
		return true
	}
	p.fork('b', 1, mT)
	p.decide('b', 0, false)
	p.dtxt(c)
	p.setModel(mF)
	p.addPC(nc)
	return false
}

func (p *Path) dtxt(c *Term) {
	if divDebug {
		p.trace[len(p.trace)-1].Txt = p.tc.SMT(c, false)
	}
}

var divDebug = os.Getenv("SYMGO_DIV") != ""

func (p *Path) setModel(m Model) {
	p.model = m
	p.modelOK = m != nil
}

func (p *Path) decide(kind byte, v int, forced bool) {
	p.trace = append(p.trace, Decision{v, forced, kind, p.steps, ""})
}

func (p *Path) fork(kind byte, v int, m Model) {
	pre := make([]Decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = Decision{v, false, kind, p.steps, ""}
	it := &WorkItem{h: p.h, prefix: pre}
	if m != nil {
		it.model = map[string]*big.Rat{}
		for k, x := range m {
			it.model[k.name] = x
		}
	}
	p.w.push(it)
}

// choose picks one of n alternatives; all are explored.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.replay('c')
		return d.Val
	}
	for k := n - 1; k >= 1; k-- {
		m := p.model
		if !p.modelOK {
			m = nil
		}
		p.fork('c', k, m)
	}
	p.decide('c', 0, false)
	return 0
}

func (p *Path) chooseOrder(n int) int {
	if p == nil {
		return 0
	}
	return p.choose(n)
}

// concretize forks over the possible values of t.
func (p *Path) concretize(t *Term) *big.Rat {
	t = p.simp(t)
	if t.IsConst() {
		return t.c
	}
	if t.lo != nil && t.hi != nil {
		span := new(big.Rat).Sub(t.hi, t.lo)
		if t.sort == SInt && span.Cmp(big.NewRat(12, 1)) <= 0 {
			for v := new(big.Rat).Set(t.lo); v.Cmp(t.hi) < 0; v = new(big.Rat).Add(v, ratOne) {
				if p.Branch(p.tc.Eq(t, p.tc.Const(t.sort, v))) {
					return v
				}
			}
			p.Branch(p.tc.Eq(t, p.tc.Const(t.sort, t.hi)))
			return t.hi
		}
	}
	for k := int64(0); k < 12; k++ {
		if p.Branch(p.tc.Eq(t, p.tc.Num(t.sort, k))) {
			return new(big.Rat).SetInt64(k)
		}
	}
	panic(pathAbort{"concretisation of a wide symbolic value"})
}

func (p *Path) newVar(s Sort, label string, lo, hi *big.Rat) *Term {
	name := "v" + strconv.Itoa(p.nvar) + "_" + strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, label)
	p.nvar++
	v := p.tc.Var(s, name, lo, hi)
	p.vars = append(p.vars, v)
	if lo != nil {
		p.pc = append(p.pc, p.tc.mkLe(p.tc.Sub(p.tc.Const(s, lo), v)))
	}
	if hi != nil {
		p.pc = append(p.pc, p.tc.mkLe(p.tc.Sub(v, p.tc.Const(s, hi))))
	}
	// models carried over from a fork are by name
	if p.modelOK && p.w.item != nil && p.w.item.model != nil {
		if _, ok := p.model[v]; !ok {
			if x, ok := p.w.item.model[name]; ok {
				p.model[v] = x
			}
		}
	}
	return v
}

func (p *Path) Assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathDead{})
		}
	case *Term:
		c := p.simp(x)
		if c.IsTrue() {
			return
		}
		if c.IsFalse() {
			panic(pathDead{})
		}
		if p.pos < len(p.prefix) {
			// replaying: feasibility was established before
			p.addPC(c)
			return
		}
		if p.modelOK {
			if r, ok := p.tc.Eval(c, p.model); ok && r.Sign() != 0 {
				p.addPC(c)
				return
			}
		}
		r, m := p.feasible(c)
		if r == Unsat {
			panic(pathDead{})
		}
		if r == Unknown {
			p.w.addUnknown(p)
			p.overapx = true
		}
		p.setModel(m)
		p.addPC(c)
	default:
		panic(pathAbort{fmt.Sprintf("assume %T", v)})
	}
}

// Assert discharges one obligation on this path.
func (p *Path) Assert(v Value, msg string) {
	p.asserts++
	var c *Term
	switch x := v.(type) {
	case bool:
		c = p.tc.Bool(x)
	case *Term:
		c = p.simp(x)
	default:
		panic(pathAbort{fmt.Sprintf("assert %T", v)})
	}
	if p.pos < len(p.prefix) {
		// already decided when the prefix was first explored
		if c.IsTrue() {
			return
		}
		d := p.replay('a')
		if d.Val == 1 {
			p.learn(c, true)
		}
		return
	}
	p.w.countObligation(p, c.IsTrue())
	if c.IsTrue() {
		return
	}
	nc := p.tc.Not(c)
	var ks []*Term
	for _, k := range p.kconds {
		ks = append(ks, k.c)
	}
	notKnown := p.tc.T
	if len(ks) > 0 {
		notKnown = p.tc.Not(p.tc.Or(ks...))
	}
	goal := p.tc.And(nc, notKnown)
	r := Unsat
	var m Model
	if !goal.IsFalse() {
		r, m = p.feasible(goal)
	}
	switch r {
	case Sat:
		p.w.violation(p, goal, m, msg)
	case Unknown:
		p.w.addUnknown(p)
		p.w.tryUnknown(p, goal, msg)
	}
	if r != Sat && len(ks) > 0 {
		if r2, m2 := p.feasible(nc); r2 == Sat {
			ids := []string{}
			for _, k := range p.kconds {
				if kv, ok := p.tc.Eval(k.c, m2); m2 == nil || !ok || kv.Sign() != 0 {
					ids = append(ids, k.id)
				}
			}
			p.w.knownHit(p, nc, m2, ids, msg)
			panic(pathDead{})
		}
	}
	if r == Sat {
		panic(pathDead{})
	}
	if r == Unsat {
		p.decide('a', 1, true)
		p.learn(c, true)
	} else {
		p.decide('a', 0, true)
	}
}
