package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms of the constraint language handed to the SMT solver.  They are
// hash-consed per worker.  Numeric terms are kept as canonical polynomials
// over atoms, so that most equalities between what the code computed and what
// the reference computed become syntactic.

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
)

type Kind uint8

const (
	KConst  Kind = iota // numeric constant
	KVar                // numeric variable (SInt, SReal) or boolean variable
	KPoly               // sum of monos
	KInd                // 0/1 indicator of a boolean term (sort SInt or SReal)
	KIte                // opaque numeric ite (only when expansion would blow up)
	KDiv                // real division a/b, b != 0 on the path
	KToReal             // int atom as real
	KIDiv               // truncated integer division by a constant (Go semantics)
	KIMod               // truncated integer remainder (Go semantics)
	KWrap               // wrap an int into a machine type
	KTrunc              // real to int truncation
	KFun                // uninterpreted function of reals
	KTrue
	KFalse
	KNot
	KAnd
	KOr
	KEq0 // poly == 0
	KLe0 // poly <= 0
	KLt0 // poly < 0 (reals only)
)

type Mono struct {
	c     *big.Rat
	atoms []*Term
}

type Term struct {
	id     int
	kind   Kind
	sort   Sort
	name   string
	c      *big.Rat
	monos  []Mono
	args   []*Term
	lo, hi *big.Rat // interval, nil = unbounded
	key    string
	sh     uint64 // structural hash: orders terms independently of creation order
	smt    string
	smtLin string
	nl     int8 // 0 unknown, 1 no, 2 yes : contains a nonlinear product
	vars   []*Term
	varsOK bool
	width  int // for KWrap
	signed bool
}

type TermCtx struct {
	table  map[string]*Term
	n      int
	T, F   *Term
	ints   map[int64][2]*Term
	nlvars map[string]*Term
}

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)
var ratNegOne = big.NewRat(-1, 1)

func NewTermCtx() *TermCtx {
	tc := &TermCtx{table: map[string]*Term{}, nlvars: map[string]*Term{}}
	tc.T = tc.intern(&Term{kind: KTrue, sort: SBool}, "T")
	tc.F = tc.intern(&Term{kind: KFalse, sort: SBool}, "F")
	return tc
}

func (tc *TermCtx) intern(t *Term, key string) *Term {
	if o, ok := tc.table[key]; ok {
		return o
	}
	tc.n++
	t.id = tc.n
	t.sh = structHash(t)
	t.key = key
	tc.table[key] = t
	return t
}

// structHash depends on the structure of a term only, not on what the worker
// built before, so that canonical forms are the same in every replay.
func structHash(t *Term) uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) {
		h ^= x
		h *= 1099511628211
		h ^= h >> 29
	}
	str := func(s string) {
		for k := 0; k < len(s); k++ {
			mix(uint64(s[k]))
		}
		mix(256)
	}
	mix(uint64(t.kind)<<8 | uint64(t.sort))
	if t.kind == KVar {
		str(t.name)
		return h
	}
	if t.c != nil {
		str(t.c.RatString())
	}
	for _, m := range t.monos {
		str(m.c.RatString())
		for _, a := range m.atoms {
			mix(a.sh)
		}
	}
	for _, a := range t.args {
		mix(a.sh)
	}
	mix(uint64(t.width))
	return h
}

func termLess(a, b *Term) bool {
	if a.sh != b.sh {
		return a.sh < b.sh
	}
	return a.id < b.id
}

func sortTag(s Sort) string {
	switch s {
	case SInt:
		return "i"
	case SReal:
		return "r"
	}
	return "b"
}

func (tc *TermCtx) Const(s Sort, c *big.Rat) *Term {
	key := "c" + sortTag(s) + c.RatString()
	if o, ok := tc.table[key]; ok {
		return o
	}
	return tc.intern(&Term{kind: KConst, sort: s, c: c, lo: c, hi: c}, key)
}
func (tc *TermCtx) Int(i int64) *Term         { return tc.Const(SInt, new(big.Rat).SetInt64(i)) }
func (tc *TermCtx) Num(s Sort, i int64) *Term { return tc.Const(s, new(big.Rat).SetInt64(i)) }
func (tc *TermCtx) Bool(b bool) *Term {
	if b {
		return tc.T
	}
	return tc.F
}

func (tc *TermCtx) Var(s Sort, name string, lo, hi *big.Rat) *Term {
	return tc.intern(&Term{kind: KVar, sort: s, name: name, lo: lo, hi: hi}, "v"+sortTag(s)+name+ratKey(lo)+ratKey(hi))
}

func ratKey(r *big.Rat) string {
	if r == nil {
		return "~"
	}
	return "[" + r.RatString() + "]"
}

func (t *Term) IsConst() bool { return t.kind == KConst }
func (t *Term) IsTrue() bool  { return t.kind == KTrue }
func (t *Term) IsFalse() bool { return t.kind == KFalse }

// monosOf views a numeric term as a polynomial.
func monosOf(t *Term) []Mono {
	switch t.kind {
	case KPoly:
		return t.monos
	case KConst:
		if t.c.Sign() == 0 {
			return nil
		}
		return []Mono{{c: t.c}}
	}
	return []Mono{{c: ratOne, atoms: []*Term{t}}}
}

func cmpAtoms(a, b []*Term) int {
	// graded by nothing: lexicographic by id, shorter first
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if termLess(a[i], b[i]) {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func (tc *TermCtx) fromMonos(s Sort, ms []Mono) *Term {
	// ms must be sorted and merged, without zero coefficients
	if len(ms) == 0 {
		return tc.Const(s, ratZero)
	}
	if len(ms) == 1 {
		if len(ms[0].atoms) == 0 {
			return tc.Const(s, ms[0].c)
		}
		if len(ms[0].atoms) == 1 && ms[0].c.Cmp(ratOne) == 0 {
			return ms[0].atoms[0]
		}
	}
	var sb strings.Builder
	sb.WriteString("p")
	sb.WriteString(sortTag(s))
	for _, m := range ms {
		sb.WriteString(m.c.RatString())
		for _, a := range m.atoms {
			fmt.Fprintf(&sb, "*%d", a.id)
		}
		sb.WriteByte('+')
	}
	key := sb.String()
	if o, ok := tc.table[key]; ok {
		return o
	}
	t := &Term{kind: KPoly, sort: s, monos: ms}
	t.lo, t.hi = polyInterval(ms)
	return tc.intern(t, key)
}

func polyInterval(ms []Mono) (lo, hi *big.Rat) {
	lo, hi = new(big.Rat), new(big.Rat)
	for _, m := range ms {
		l, h := monoInterval(m)
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo = new(big.Rat).Add(lo, l)
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi = new(big.Rat).Add(hi, h)
			}
		}
	}
	return
}

func monoInterval(m Mono) (lo, hi *big.Rat) {
	lo, hi = m.c, m.c
	for i := 0; i < len(m.atoms); i++ {
		a := m.atoms[i]
		al, ah := a.lo, a.hi
		if i+1 < len(m.atoms) && m.atoms[i+1] == a { // even power: nonnegative
			al, ah = mulInterval(a.lo, a.hi, a.lo, a.hi)
			if al == nil || al.Sign() < 0 {
				al = ratZero
			}
			i++
		}
		lo, hi = mulInterval(lo, hi, al, ah)
	}
	return
}

func mulInterval(al, ah, bl, bh *big.Rat) (lo, hi *big.Rat) {
	isPoint0 := func(l, h *big.Rat) bool { return l != nil && h != nil && l.Sign() == 0 && h.Sign() == 0 }
	if isPoint0(al, ah) || isPoint0(bl, bh) {
		return ratZero, ratZero
	}
	if al == nil || ah == nil || bl == nil || bh == nil {
		// handle nonneg * nonneg half-open
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			return new(big.Rat).Mul(al, bl), nil
		}
		// c * [l, inf)
		if al != nil && ah != nil && al.Cmp(ah) == 0 {
			return scaleInterval(al, bl, bh)
		}
		if bl != nil && bh != nil && bl.Cmp(bh) == 0 {
			return scaleInterval(bl, al, ah)
		}
		return nil, nil
	}
	for i, x := range []*big.Rat{al, ah} {
		for j, y := range []*big.Rat{bl, bh} {
			p := new(big.Rat).Mul(x, y)
			if (i == 0 && j == 0) || p.Cmp(lo) < 0 {
				lo = p
			}
			if (i == 0 && j == 0) || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return
}

func scaleInterval(c, l, h *big.Rat) (lo, hi *big.Rat) {
	if c.Sign() < 0 {
		l, h = h, l
	}
	if l != nil {
		lo = new(big.Rat).Mul(c, l)
	}
	if h != nil {
		hi = new(big.Rat).Mul(c, h)
	}
	return
}

// normMono sorts atoms, squashes idempotent indicators, and detects
// contradictory indicators (I(c)*I(not c) never arises: I(not c)=1-I(c)).
func normAtoms(atoms []*Term) []*Term {
	sort.Slice(atoms, func(i, j int) bool { return termLess(atoms[i], atoms[j]) })
	out := atoms[:0]
	for i, a := range atoms {
		if i > 0 && a == atoms[i-1] && a.kind == KInd {
			continue
		}
		out = append(out, a)
	}
	return out
}

func (tc *TermCtx) polyFromUnsorted(s Sort, ms []Mono) *Term {
	sort.SliceStable(ms, func(i, j int) bool { return cmpAtoms(ms[i].atoms, ms[j].atoms) < 0 })
	out := make([]Mono, 0, len(ms))
	for i := 0; i < len(ms); {
		j := i + 1
		c := ms[i].c
		for j < len(ms) && cmpAtoms(ms[i].atoms, ms[j].atoms) == 0 {
			c = new(big.Rat).Add(c, ms[j].c)
			j++
		}
		if c.Sign() != 0 {
			out = append(out, Mono{c: c, atoms: ms[i].atoms})
		}
		i = j
	}
	return tc.fromMonos(s, out)
}

func (tc *TermCtx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tc.Const(a.sort, new(big.Rat).Add(a.c, b.c))
	}
	if a.IsConst() && a.c.Sign() == 0 {
		return b
	}
	if b.IsConst() && b.c.Sign() == 0 {
		return a
	}
	x, y := monosOf(a), monosOf(b)
	out := make([]Mono, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		if i == len(x) {
			out = append(out, y[j])
			j++
			continue
		}
		if j == len(y) {
			out = append(out, x[i])
			i++
			continue
		}
		c := cmpAtoms(x[i].atoms, y[j].atoms)
		switch {
		case c < 0:
			out = append(out, x[i])
			i++
		case c > 0:
			out = append(out, y[j])
			j++
		default:
			s := new(big.Rat).Add(x[i].c, y[j].c)
			if s.Sign() != 0 {
				out = append(out, Mono{c: s, atoms: x[i].atoms})
			}
			i++
			j++
		}
	}
	return tc.fromMonos(a.sort, out)
}

func (tc *TermCtx) Scale(a *Term, c *big.Rat) *Term {
	if c.Sign() == 0 {
		return tc.Const(a.sort, ratZero)
	}
	if c.Cmp(ratOne) == 0 {
		return a
	}
	x := monosOf(a)
	out := make([]Mono, len(x))
	for i, m := range x {
		out[i] = Mono{c: new(big.Rat).Mul(m.c, c), atoms: m.atoms}
	}
	return tc.fromMonos(a.sort, out)
}
func (tc *TermCtx) Neg(a *Term) *Term    { return tc.Scale(a, ratNegOne) }
func (tc *TermCtx) Sub(a, b *Term) *Term { return tc.Add(a, tc.Neg(b)) }

const maxPoly = 400

func (tc *TermCtx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		return tc.Scale(b, a.c)
	}
	if b.IsConst() {
		return tc.Scale(a, b.c)
	}
	x, y := monosOf(a), monosOf(b)
	if len(x)*len(y) > 20000 {
		panic(pathAbort{"term too large"})
	}
	out := make([]Mono, 0, len(x)*len(y))
	for _, m := range x {
		for _, n := range y {
			at := make([]*Term, 0, len(m.atoms)+len(n.atoms))
			at = append(at, m.atoms...)
			at = append(at, n.atoms...)
			out = append(out, Mono{c: new(big.Rat).Mul(m.c, n.c), atoms: normAtoms(at)})
		}
	}
	return tc.polyFromUnsorted(a.sort, out)
}

// Ind is the 0/1 indicator of a boolean term, as a pseudo-boolean polynomial.
func (tc *TermCtx) Ind(s Sort, c *Term) *Term {
	switch c.kind {
	case KTrue:
		return tc.Num(s, 1)
	case KFalse:
		return tc.Num(s, 0)
	case KNot:
		return tc.Sub(tc.Num(s, 1), tc.Ind(s, c.args[0]))
	case KAnd:
		r := tc.Num(s, 1)
		for _, a := range c.args {
			r = tc.Mul(r, tc.Ind(s, a))
		}
		return r
	case KOr:
		r := tc.Num(s, 1)
		for _, a := range c.args {
			r = tc.Mul(r, tc.Sub(tc.Num(s, 1), tc.Ind(s, a)))
		}
		return tc.Sub(tc.Num(s, 1), r)
	}
	return tc.intern(&Term{kind: KInd, sort: s, args: []*Term{c}, lo: ratZero, hi: ratOne}, fmt.Sprintf("I%s%d", sortTag(s), c.id))
}

func (tc *TermCtx) Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.sort == SBool {
		return tc.Or(tc.And(c, a), tc.And(tc.Not(c), b))
	}
	d := tc.Sub(a, b)
	if boolSize(c) <= 6 && len(monosOf(d)) <= 40 && len(monosOf(b)) <= 200 {
		ind := tc.Ind(a.sort, c)
		if len(monosOf(ind))*len(monosOf(d)) <= maxPoly {
			return tc.Add(b, tc.Mul(ind, d))
		}
	}
	t := &Term{kind: KIte, sort: a.sort, args: []*Term{c, a, b}}
	if a.lo != nil && b.lo != nil {
		t.lo = minRat(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		t.hi = maxRat(a.hi, b.hi)
	}
	return tc.intern(t, fmt.Sprintf("?%d,%d,%d", c.id, a.id, b.id))
}

func boolSize(c *Term) int {
	switch c.kind {
	case KNot:
		return boolSize(c.args[0])
	case KAnd, KOr:
		n := 0
		for _, a := range c.args {
			n += boolSize(a)
		}
		return n
	}
	return 1
}

func minRat(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxRat(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (tc *TermCtx) Div(a, b *Term) *Term {
	if b.IsConst() && b.c.Sign() != 0 {
		return tc.Scale(a, new(big.Rat).Inv(b.c))
	}
	if a.IsConst() && a.c.Sign() == 0 {
		return a
	}
	// pull the constant factor out of numerator when it is a single mono
	return tc.intern(&Term{kind: KDiv, sort: SReal, args: []*Term{a, b}}, fmt.Sprintf("/%d,%d", a.id, b.id))
}

func (tc *TermCtx) ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	switch a.kind {
	case KConst:
		return tc.Const(SReal, a.c)
	case KPoly:
		r := tc.Num(SReal, 0)
		for _, m := range a.monos {
			x := tc.Const(SReal, m.c)
			for _, at := range m.atoms {
				x = tc.Mul(x, tc.ToReal(at))
			}
			r = tc.Add(r, x)
		}
		return r
	case KInd:
		return tc.Ind(SReal, a.args[0])
	case KIte:
		return tc.Ite(a.args[0], tc.ToReal(a.args[1]), tc.ToReal(a.args[2]))
	}
	return tc.intern(&Term{kind: KToReal, sort: SReal, args: []*Term{a}, lo: a.lo, hi: a.hi}, fmt.Sprintf("R%d", a.id))
}

// Wrap reduces an integer term into the range of a machine integer type.
func (tc *TermCtx) Wrap(a *Term, width int, signed bool) *Term {
	lo, hi := intRange(width, signed)
	if a.lo != nil && a.hi != nil && a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 {
		return a
	}
	if a.IsConst() {
		v := new(big.Int).Set(a.c.Num())
		m := new(big.Int).Lsh(big.NewInt(1), uint(width))
		v.Mod(v, m)
		if signed && v.Bit(width-1) == 1 {
			v.Sub(v, m)
		}
		return tc.Const(SInt, new(big.Rat).SetInt(v))
	}
	return tc.intern(&Term{kind: KWrap, sort: SInt, args: []*Term{a}, lo: lo, hi: hi, width: width, signed: signed}, fmt.Sprintf("W%d,%d,%v", a.id, width, signed))
}

func intRange(width int, signed bool) (lo, hi *big.Rat) {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(width-1))
		l := new(big.Int).Neg(h)
		return new(big.Rat).SetInt(l), new(big.Rat).SetInt(new(big.Int).Sub(h, one))
	}
	h := new(big.Int).Lsh(one, uint(width))
	return ratZero, new(big.Rat).SetInt(new(big.Int).Sub(h, one))
}

func (tc *TermCtx) IDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tc.Const(SInt, new(big.Rat).SetInt(new(big.Int).Quo(a.c.Num(), b.c.Num())))
	}
	t := &Term{kind: KIDiv, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil {
		m := maxRat(new(big.Rat).Abs(a.lo), new(big.Rat).Abs(a.hi))
		t.hi = m
		if a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
			t.lo = ratZero
		} else {
			t.lo = new(big.Rat).Neg(m)
		}
	}
	return tc.intern(t, fmt.Sprintf("D%d,%d", a.id, b.id))
}
func (tc *TermCtx) IMod(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tc.Const(SInt, new(big.Rat).SetInt(new(big.Int).Rem(a.c.Num(), b.c.Num())))
	}
	t := &Term{kind: KIMod, sort: SInt, args: []*Term{a, b}}
	if b.lo != nil && b.hi != nil {
		m := maxRat(new(big.Rat).Abs(b.lo), new(big.Rat).Abs(b.hi))
		t.hi = new(big.Rat).Sub(m, ratOne)
		t.lo = new(big.Rat).Neg(t.hi)
		if a.lo != nil && a.lo.Sign() >= 0 {
			t.lo = ratZero
		}
	}
	return tc.intern(t, fmt.Sprintf("M%d,%d", a.id, b.id))
}
func (tc *TermCtx) Trunc(a *Term) *Term {
	if a.IsConst() {
		return tc.Const(SInt, new(big.Rat).SetInt(new(big.Int).Quo(a.c.Num(), a.c.Denom())))
	}
	if a.kind == KToReal {
		return a.args[0]
	}
	t := &Term{kind: KTrunc, sort: SInt, args: []*Term{a}}
	if a.lo != nil {
		t.lo = new(big.Rat).SetInt(new(big.Int).Quo(a.lo.Num(), a.lo.Denom()))
	}
	if a.hi != nil {
		t.hi = new(big.Rat).SetInt(new(big.Int).Quo(a.hi.Num(), a.hi.Denom()))
	}
	return tc.intern(t, fmt.Sprintf("t%d", a.id))
}
func (tc *TermCtx) Fun(name string, args ...*Term) *Term {
	k := "f" + name
	for _, a := range args {
		k += fmt.Sprintf(",%d", a.id)
	}
	return tc.intern(&Term{kind: KFun, sort: SReal, name: name, args: args}, k)
}

// ---- booleans ----

func (tc *TermCtx) Not(a *Term) *Term {
	switch a.kind {
	case KTrue:
		return tc.F
	case KFalse:
		return tc.T
	case KNot:
		return a.args[0]
	case KAnd:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = tc.Not(x)
		}
		return tc.Or(xs...)
	case KOr:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = tc.Not(x)
		}
		return tc.And(xs...)
	}
	return tc.intern(&Term{kind: KNot, sort: SBool, args: []*Term{a}}, fmt.Sprintf("!%d", a.id))
}

func (tc *TermCtx) nary(k Kind, unit, zero *Term, xs []*Term) *Term {
	var flat []*Term
	for _, x := range xs {
		if x == unit {
			continue
		}
		if x == zero {
			return zero
		}
		if x.kind == k {
			flat = append(flat, x.args...)
		} else {
			flat = append(flat, x)
		}
	}
	sort.Slice(flat, func(i, j int) bool { return termLess(flat[i], flat[j]) })
	out := flat[:0]
	for i, x := range flat {
		if i > 0 && x == flat[i-1] {
			continue
		}
		out = append(out, x)
	}
	has := map[*Term]bool{}
	for _, x := range out {
		has[x] = true
	}
	for _, x := range out {
		if x.kind == KNot && has[x.args[0]] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	var sb strings.Builder
	if k == KAnd {
		sb.WriteByte('&')
	} else {
		sb.WriteByte('|')
	}
	for _, x := range out {
		fmt.Fprintf(&sb, ",%d", x.id)
	}
	cp := append([]*Term(nil), out...)
	return tc.intern(&Term{kind: k, sort: SBool, args: cp}, sb.String())
}
func (tc *TermCtx) And(xs ...*Term) *Term { return tc.nary(KAnd, tc.T, tc.F, xs) }
func (tc *TermCtx) Or(xs ...*Term) *Term  { return tc.nary(KOr, tc.F, tc.T, xs) }
func (tc *TermCtx) Iff(a, b *Term) *Term {
	if a == b {
		return tc.T
	}
	return tc.Or(tc.And(a, b), tc.And(tc.Not(a), tc.Not(b)))
}

// splitConst separates p = rest + c
func splitConst(p *Term) (rest []Mono, c *big.Rat) {
	ms := monosOf(p)
	if len(ms) > 0 && len(ms[0].atoms) == 0 {
		return ms[1:], ms[0].c
	}
	return ms, ratZero
}

func (tc *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return tc.T
	}
	if a.sort == SBool {
		return tc.Iff(a, b)
	}
	d := tc.Sub(a, b)
	return tc.eq0(d)
}

func (tc *TermCtx) eq0(d *Term) *Term {
	if d.IsConst() {
		return tc.Bool(d.c.Sign() == 0)
	}
	if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
		return tc.F
	}
	ms := monosOf(d)
	lead := ms[len(ms)-1].c
	d = tc.Scale(d, new(big.Rat).Inv(lead))
	if d.kind == KInd {
		return tc.Not(d.args[0])
	}
	// lift ToReal-only linear equalities to a canonical form is unnecessary
	if d.sort == SInt {
		// integer: make coefficients coprime integers; constant not divisible -> false
		d2, ok := intNormalize(tc, d)
		if !ok {
			return tc.F
		}
		d = d2
	}
	// c*x = 0 with single product mono: or over atoms (helps reals)
	if d.kind == KPoly && len(d.monos) == 1 && len(d.monos[0].atoms) > 1 {
		var ds []*Term
		var prev *Term
		for _, a := range d.monos[0].atoms {
			if a != prev {
				ds = append(ds, tc.eq0(a))
			}
			prev = a
		}
		return tc.Or(ds...)
	}
	if d.kind == KPoly && len(d.monos) == 1 && len(d.monos[0].atoms) == 1 {
		d = d.monos[0].atoms[0]
	}
	if d.kind == KInd {
		return tc.Not(d.args[0])
	}
	return tc.intern(&Term{kind: KEq0, sort: SBool, args: []*Term{d}}, fmt.Sprintf("=%d", d.id))
}

// intNormalize divides by the gcd of non-constant coefficients (after making
// them integral); returns false if the equality is unsatisfiable over Z.
func intNormalize(tc *TermCtx, d *Term) (*Term, bool) {
	rest, c := splitConst(d)
	g := gcdCoefs(rest)
	inv := new(big.Rat).Inv(g)
	d = tc.Scale(d, inv)
	cc := new(big.Rat).Mul(c, inv)
	return d, cc.IsInt()
}

// gcdCoefs returns a positive rational g such that every coefficient / g is an
// integer and they are coprime.
func gcdCoefs(ms []Mono) *big.Rat {
	num := new(big.Int)
	den := big.NewInt(1)
	for _, m := range ms {
		// lcm of denominators
		g := new(big.Int).GCD(nil, nil, den, m.c.Denom())
		den = new(big.Int).Mul(den, new(big.Int).Quo(m.c.Denom(), g))
	}
	for _, m := range ms {
		v := new(big.Int).Mul(m.c.Num(), new(big.Int).Quo(den, m.c.Denom()))
		v.Abs(v)
		num.GCD(nil, nil, num, v)
	}
	return new(big.Rat).SetFrac(num, den)
}

func (tc *TermCtx) Le(a, b *Term) *Term { return tc.le0(tc.Sub(a, b), false) }
func (tc *TermCtx) Lt(a, b *Term) *Term { return tc.le0(tc.Sub(a, b), true) }

func (tc *TermCtx) le0(d *Term, strict bool) *Term {
	if d.IsConst() {
		if strict {
			return tc.Bool(d.c.Sign() < 0)
		}
		return tc.Bool(d.c.Sign() <= 0)
	}
	if d.hi != nil {
		if d.hi.Sign() < 0 || (!strict && d.hi.Sign() == 0) {
			return tc.T
		}
	}
	if d.lo != nil {
		if d.lo.Sign() > 0 || (strict && d.lo.Sign() == 0) {
			return tc.F
		}
	}
	ms := monosOf(d)
	lead := ms[len(ms)-1].c
	neg := lead.Sign() < 0
	if d.sort == SInt {
		rest, c := splitConst(d)
		g := gcdCoefs(rest)
		inv := new(big.Rat).Inv(g)
		d = tc.Scale(d, inv)
		c = new(big.Rat).Mul(c, inv)
		// rest' + c <= 0  (or < 0)  over integers:  rest' <= floor(-c) ; strict: rest' <= ceil(-c)-1
		mc := new(big.Rat).Neg(c)
		fl := floorRat(mc)
		if strict && mc.IsInt() {
			fl.Sub(fl, big.NewInt(1))
		}
		// d' = rest' - fl <= 0
		r := tc.Sub(d, tc.Const(SInt, c))
		d = tc.Sub(r, tc.Const(SInt, new(big.Rat).SetInt(fl)))
		if neg {
			// -p <= k  <=>  not (p <= -k-1)
			p := tc.Neg(r)
			k := new(big.Rat).SetInt(new(big.Int).Add(fl, big.NewInt(1)))
			q := tc.Add(p, tc.Const(SInt, k))
			return tc.Not(tc.mkLe(q))
		}
		return tc.mkLe(d)
	}
	d = tc.Scale(d, new(big.Rat).Inv(new(big.Rat).Abs(lead)))
	if neg {
		p := tc.Neg(d)
		// -p <= 0  <=> not (p < 0);  -p < 0 <=> not (p <= 0)
		if strict {
			return tc.Not(tc.intern(&Term{kind: KLe0, sort: SBool, args: []*Term{p}}, fmt.Sprintf("<=%d", p.id)))
		}
		return tc.Not(tc.mkLt(p))
	}
	if strict {
		return tc.mkLt(d)
	}
	return tc.mkLe(d)
}
func (tc *TermCtx) mkLe(p *Term) *Term {
	if p.kind == KInd { // I <= 0
		return tc.Not(p.args[0])
	}
	return tc.intern(&Term{kind: KLe0, sort: SBool, args: []*Term{p}}, fmt.Sprintf("<=%d", p.id))
}
func (tc *TermCtx) mkLt(p *Term) *Term {
	return tc.intern(&Term{kind: KLt0, sort: SBool, args: []*Term{p}}, fmt.Sprintf("<%d", p.id))
}

func floorRat(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

// ---- variables ----

func (t *Term) Vars() []*Term {
	if t.varsOK {
		return t.vars
	}
	set := map[*Term]bool{}
	var out []*Term
	add := func(vs []*Term) {
		for _, v := range vs {
			if !set[v] {
				set[v] = true
				out = append(out, v)
			}
		}
	}
	if t.kind == KVar {
		out = []*Term{t}
	}
	for _, m := range t.monos {
		for _, a := range m.atoms {
			add(a.Vars())
		}
	}
	for _, a := range t.args {
		add(a.Vars())
	}
	t.vars, t.varsOK = out, true
	return out
}

// ---- SMT-LIB printing ----

func smtRat(s Sort, r *big.Rat) string {
	var n string
	abs := new(big.Int).Abs(r.Num())
	if s == SInt {
		n = abs.String()
	} else if r.IsInt() {
		n = abs.String() + ".0"
	} else {
		n = "(/ " + abs.String() + ".0 " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + n + ")"
	}
	return n
}

// SMT prints the term; when lin is set, products of two or more non-indicator
// atoms are abstracted into fresh variables (sound for showing unsat).
func (tc *TermCtx) SMT(t *Term, lin bool) string {
	if lin {
		if t.smtLin == "" {
			t.smtLin = tc.smt1(t, true)
		}
		return t.smtLin
	}
	if t.smt == "" {
		t.smt = tc.smt1(t, false)
	}
	return t.smt
}

func (tc *TermCtx) smt1(t *Term, lin bool) string {
	switch t.kind {
	case KConst:
		return smtRat(t.sort, t.c)
	case KVar:
		return t.name
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KNot:
		return "(not " + tc.SMT(t.args[0], lin) + ")"
	case KAnd, KOr:
		op := "(and"
		if t.kind == KOr {
			op = "(or"
		}
		for _, a := range t.args {
			op += " " + tc.SMT(a, lin)
		}
		return op + ")"
	case KEq0, KLe0, KLt0:
		op := map[Kind]string{KEq0: "=", KLe0: "<=", KLt0: "<"}[t.kind]
		p := t.args[0]
		// move constant to the right for readability
		rest, c := splitConst(p)
		z := smtRat(p.sort, new(big.Rat).Neg(c))
		return "(" + op + " " + tc.smtMonos(p.sort, rest, lin) + " " + z + ")"
	case KPoly:
		return tc.smtMonos(t.sort, t.monos, lin)
	case KInd:
		if t.sort == SInt {
			return "(ite " + tc.SMT(t.args[0], lin) + " 1 0)"
		}
		return "(ite " + tc.SMT(t.args[0], lin) + " 1.0 0.0)"
	case KIte:
		return "(ite " + tc.SMT(t.args[0], lin) + " " + tc.SMT(t.args[1], lin) + " " + tc.SMT(t.args[2], lin) + ")"
	case KToReal:
		return "(to_real " + tc.SMT(t.args[0], lin) + ")"
	case KDiv:
		if lin {
			return tc.nlVar(fmt.Sprintf("div_%d_%d", t.args[0].id, t.args[1].id), SReal).name
		}
		return "(/ " + tc.SMT(t.args[0], lin) + " " + tc.SMT(t.args[1], lin) + ")"
	case KIDiv, KIMod:
		a, b := tc.SMT(t.args[0], lin), tc.SMT(t.args[1], lin)
		if lin && !t.args[1].IsConst() {
			return tc.nlVar(fmt.Sprintf("idv_%d_%d_%d", t.kind, t.args[0].id, t.args[1].id), SInt).name
		}
		q := fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a, a, b, a, b)
		if t.kind == KIDiv {
			return q
		}
		return fmt.Sprintf("(- %s (* %s %s))", a, b, q)
	case KWrap:
		m := new(big.Int).Lsh(big.NewInt(1), uint(t.width)).String()
		a := tc.SMT(t.args[0], lin)
		if !t.signed {
			return fmt.Sprintf("(mod %s %s)", a, m)
		}
		h := new(big.Int).Lsh(big.NewInt(1), uint(t.width-1)).String()
		return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", a, h, m, h)
	case KTrunc:
		a := tc.SMT(t.args[0], lin)
		return fmt.Sprintf("(ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))", a, a, a)
	case KFun:
		s := "(" + t.name
		for _, a := range t.args {
			s += " " + tc.SMT(a, lin)
		}
		return s + ")"
	}
	panic("smt1: kind")
}

func (tc *TermCtx) nlVar(name string, s Sort) *Term {
	nm := "nl_" + name
	if v, ok := tc.nlvars[nm]; ok {
		return v
	}
	v := tc.Var(s, nm, nil, nil)
	tc.nlvars[nm] = v
	return v
}

func (tc *TermCtx) smtMonos(s Sort, ms []Mono, lin bool) string {
	var parts []string
	for _, m := range ms {
		parts = append(parts, tc.smtMono(s, m, lin))
	}
	switch len(parts) {
	case 0:
		return smtRat(s, ratZero)
	case 1:
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (tc *TermCtx) smtMono(s Sort, m Mono, lin bool) string {
	var conds []string
	var fac []*Term
	for _, a := range m.atoms {
		if a.kind == KInd {
			conds = append(conds, tc.SMT(a.args[0], lin))
		} else {
			fac = append(fac, a)
		}
	}
	var body string
	switch {
	case len(fac) == 0:
		body = smtRat(s, m.c)
	case len(fac) == 1:
		body = tc.SMT(fac[0], lin)
	case lin:
		nm := "m"
		for _, f := range fac {
			nm += fmt.Sprintf("_%d", f.id)
		}
		body = tc.nlVar(nm, s).name
	default:
		body = "(*"
		for _, f := range fac {
			body += " " + tc.SMT(f, lin)
		}
		body += ")"
	}
	if len(fac) > 0 && m.c.Cmp(ratOne) != 0 {
		body = "(* " + smtRat(s, m.c) + " " + body + ")"
	}
	if len(conds) == 1 {
		body = "(ite " + conds[0] + " " + body + " " + smtRat(s, ratZero) + ")"
	} else if len(conds) > 1 {
		body = "(ite (and " + strings.Join(conds, " ") + ") " + body + " " + smtRat(s, ratZero) + ")"
	}
	return body
}

// nonlinear reports whether the term has a part the linear printing abstracts.
func (t *Term) nonlinear() bool {
	if t.nl != 0 {
		return t.nl == 2
	}
	r := false
	switch t.kind {
	case KDiv:
		r = true
	case KIDiv, KIMod:
		r = !t.args[1].IsConst()
	}
	for _, m := range t.monos {
		n := 0
		for _, a := range m.atoms {
			if a.kind != KInd {
				n++
			}
			r = r || a.nonlinear()
		}
		r = r || n > 1
	}
	for _, a := range t.args {
		r = r || a.nonlinear()
	}
	t.nl = 1
	if r {
		t.nl = 2
	}
	return r
}

// ---- evaluation under a model ----

type Model map[*Term]*big.Rat // booleans as 0/1

type evalErr struct{}

func (tc *TermCtx) Eval(t *Term, m Model) (r *big.Rat, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(evalErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return tc.eval(t, m, map[*Term]*big.Rat{}), true
}

func b2r(b bool) *big.Rat {
	if b {
		return ratOne
	}
	return ratZero
}

func (tc *TermCtx) eval(t *Term, m Model, memo map[*Term]*big.Rat) *big.Rat {
	switch t.kind {
	case KConst:
		return t.c
	case KTrue:
		return ratOne
	case KFalse:
		return ratZero
	case KVar:
		if v, ok := m[t]; ok {
			return v
		}
		// default value inside the interval
		if t.lo != nil && t.lo.Sign() > 0 {
			return t.lo
		}
		if t.hi != nil && t.hi.Sign() < 0 {
			return t.hi
		}
		return ratZero
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r *big.Rat
	ev := func(x *Term) *big.Rat { return tc.eval(x, m, memo) }
	switch t.kind {
	case KNot:
		r = b2r(ev(t.args[0]).Sign() == 0)
	case KAnd:
		r = ratOne
		for _, a := range t.args {
			if ev(a).Sign() == 0 {
				r = ratZero
				break
			}
		}
	case KOr:
		r = ratZero
		for _, a := range t.args {
			if ev(a).Sign() != 0 {
				r = ratOne
				break
			}
		}
	case KEq0:
		r = b2r(ev(t.args[0]).Sign() == 0)
	case KLe0:
		r = b2r(ev(t.args[0]).Sign() <= 0)
	case KLt0:
		r = b2r(ev(t.args[0]).Sign() < 0)
	case KPoly:
		s := new(big.Rat)
		for _, mo := range t.monos {
			p := new(big.Rat).Set(mo.c)
			// indicators first to avoid evaluating guarded divisions
			zero := false
			for _, a := range mo.atoms {
				if a.kind == KInd && ev(a).Sign() == 0 {
					zero = true
					break
				}
			}
			if zero {
				continue
			}
			for _, a := range mo.atoms {
				if a.kind != KInd {
					p.Mul(p, ev(a))
				}
			}
			s.Add(s, p)
		}
		r = s
	case KInd, KToReal:
		r = ev(t.args[0])
	case KIte:
		if ev(t.args[0]).Sign() != 0 {
			r = ev(t.args[1])
		} else {
			r = ev(t.args[2])
		}
	case KDiv:
		d := ev(t.args[1])
		if d.Sign() == 0 {
			panic(evalErr{})
		}
		r = new(big.Rat).Quo(ev(t.args[0]), d)
	case KIDiv, KIMod:
		d := ev(t.args[1])
		if d.Sign() == 0 {
			panic(evalErr{})
		}
		if t.kind == KIDiv {
			r = new(big.Rat).SetInt(new(big.Int).Quo(ev(t.args[0]).Num(), d.Num()))
		} else {
			r = new(big.Rat).SetInt(new(big.Int).Rem(ev(t.args[0]).Num(), d.Num()))
		}
	case KWrap:
		v := new(big.Int).Set(ev(t.args[0]).Num())
		mo := new(big.Int).Lsh(big.NewInt(1), uint(t.width))
		v.Mod(v, mo)
		if t.signed && v.Bit(t.width-1) == 1 {
			v.Sub(v, mo)
		}
		r = new(big.Rat).SetInt(v)
	case KTrunc:
		v := ev(t.args[0])
		r = new(big.Rat).SetInt(new(big.Int).Quo(v.Num(), v.Denom()))
	default:
		panic(evalErr{})
	}
	memo[t] = r
	return r
}

// Subst rebuilds the term replacing boolean literals whose truth is known.
func (tc *TermCtx) Simp(t *Term, known func(*Term) (bool, bool), memo map[*Term]*Term) *Term {
	switch t.kind {
	case KConst, KTrue, KFalse:
		return t
	case KVar:
		if t.sort == SBool {
			if v, ok := known(t); ok {
				return tc.Bool(v)
			}
		}
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	s := func(x *Term) *Term { return tc.Simp(x, known, memo) }
	switch t.kind {
	case KNot:
		r = tc.Not(s(t.args[0]))
	case KAnd, KOr:
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = s(a)
		}
		if t.kind == KAnd {
			r = tc.And(xs...)
		} else {
			r = tc.Or(xs...)
		}
	case KEq0, KLe0, KLt0:
		if v, ok := known(t); ok {
			r = tc.Bool(v)
			break
		}
		p := s(t.args[0])
		if p == t.args[0] {
			r = t
		} else if t.kind == KEq0 {
			r = tc.eq0(p)
		} else {
			r = tc.le0(p, t.kind == KLt0)
		}
		if v, ok := known(r); ok {
			r = tc.Bool(v)
		}
	case KPoly:
		changed := false
		for _, m := range t.monos {
			for _, a := range m.atoms {
				if s(a) != a {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		var ms []Mono
		sum := tc.Num(t.sort, 0)
		for _, m := range t.monos {
			ch := false
			for _, a := range m.atoms {
				if s(a) != a {
					ch = true
				}
			}
			if !ch {
				ms = append(ms, m)
				continue
			}
			p := tc.Const(t.sort, m.c)
			for _, a := range m.atoms {
				p = tc.Mul(p, s(a))
				if p.IsConst() && p.c.Sign() == 0 {
					break
				}
			}
			sum = tc.Add(sum, p)
		}
		r = tc.Add(tc.polyFromUnsorted(t.sort, ms), sum)
	case KInd:
		r = tc.Ind(t.sort, s(t.args[0]))
	case KIte:
		c := s(t.args[0])
		if c.IsTrue() {
			r = s(t.args[1])
		} else if c.IsFalse() {
			r = s(t.args[2])
		} else {
			r = tc.Ite(c, s(t.args[1]), s(t.args[2]))
		}
	case KToReal:
		r = tc.ToReal(s(t.args[0]))
	case KDiv:
		r = tc.Div(s(t.args[0]), s(t.args[1]))
	case KIDiv:
		r = tc.IDiv(s(t.args[0]), s(t.args[1]))
	case KIMod:
		r = tc.IMod(s(t.args[0]), s(t.args[1]))
	case KWrap:
		r = tc.Wrap(s(t.args[0]), t.width, t.signed)
	case KTrunc:
		r = tc.Trunc(s(t.args[0]))
	case KFun:
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = s(a)
		}
		r = tc.Fun(t.name, xs...)
	default:
		r = t
	}
	memo[t] = r
	return r
}
