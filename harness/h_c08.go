package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// c08 substitutes one variable.
func c08(a symbolic.Expression, e symbolic.ScalarExpression) {
	v := gVar("v")
	want := refM(a).mapE(func(p RP) RP { return p.subst([]uint64{v.ID}, []RP{ref(e)}) })
	same(a.Substitute(v, e), want, "Substitute")
	same(a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: e}), want, "SubstituteAccordingTo of one variable")
	ndReach("end")
}
func H_C08_one_monomial() {
	n := ndChoose("n", 4)
	hi := 2 + ndTier()
	if n == 3 {
		hi = 1 + ndTier()
	}
	r := ndChoose("r", nRepl)
	if ndTier() == 0 && n > 1 && (r == 7 || r == 6 && n == 3) {
		return
	}
	c08(gMonoC("a", n, hi), gRepl("r", r))
}
func H_C08_one_power() {
	m := gMonoC("a", 1, 1)
	m.Exponents[0] = 3 + ndChoose("e", 2)
	c08(m, gRepl("r", ndChoose("r", 4+2*ndTier())))
}
func H_C08_one_scalar() {
	r := gRepl("r", ndChoose("r", nRepl))
	switch ndChoose("kind", 2) {
	case 0:
		c08(gK("a"), r)
	default:
		c08(gVar("a"), r)
	}
}
func H_C08_one_polynomial() {
	p := [][]int{{1, 0}, {1, 1}, {2, 1}, {2}}[ndChoose("p", 4)]
	c08(gPolyC("a", 1+ndTier(), p...), gRepl("r", ndChoose("r", 4)))
}
func H_C08_one_vector() {
	k := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2)
	c08(c08any(k, n, 1), gRepl("r", ndChoose("r", 4)))
}
func H_C08_one_matrix() {
	k := matrices[ndChoose("kind", 4)]
	sh := [][2]int{{1, 2}, {2, 1}, {1, 1}}[ndChoose("shape", 3)]
	c08(c08any(k, sh[0], sh[1]), gRepl("r", ndChoose("r", 4)))
}

// two variables at once; the replacements may mention either of them
func c08map(a symbolic.Expression, e1, e2 symbolic.ScalarExpression) {
	v, w := gVar("v"), gVar("w")
	ndAssume(v.ID != w.ID)
	want := refM(a).mapE(func(p RP) RP { return p.subst([]uint64{v.ID, w.ID}, []RP{ref(e1), ref(e2)}) })
	got := a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: e1, w: e2})
	same(got, want, "SubstituteAccordingTo of two variables")
	ndReach("end")
}

// c08repl2: heavy operands get small replacements in the quick tier.
func c08repl2(heavy int) (symbolic.ScalarExpression, symbolic.ScalarExpression) {
	n := 5
	if ndTier() == 0 {
		n -= heavy
	}
	k := [][2]int{{1, 1}, {1, 0}, {2, 1}, {0, 3}, {3, 1}}[ndChoose("r", n)]
	return gRepl("r", k[0]), gRepl("s", k[1])
}
func H_C08_map_monomial() {
	n := ndChoose("n", 3)
	e1, e2 := c08repl2(n)
	a := gMonoC("a", n, 2)
	c08map(a, e1, e2)
}
func H_C08_map_scalar() {
	k := ndChoose("kind", 4)
	e1, e2 := c08repl2([]int{0, 0, 1, 3}[k])
	switch k {
	case 0:
		c08map(gK("a"), e1, e2)
	case 1:
		c08map(gVar("a"), e1, e2)
	case 2:
		c08map(gPolyC("a", 1, 1, 0), e1, e2)
	default:
		c08map(gPolyC("a", 1, 1, 1), e1, e2)
	}
}
func c08heavy(k, n int) int {
	switch {
	case n == 1 && k != kPVec && k != kPMat:
		return 1
	case k == kPVec || k == kPMat:
		return 4
	case k == kKVec || k == kKMat:
		return 0
	}
	return 3
}
func H_C08_map_vector() {
	k := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2)
	e1, e2 := c08repl2(c08heavy(k, n))
	c08map(c08any(k, n, 1), e1, e2)
}
func H_C08_map_matrix() {
	k := matrices[ndChoose("kind", 4)]
	sh := [][2]int{{1, 2}, {1, 1}, {2, 1}, {2, 2}}[ndChoose("shape", 2+2*ndTier())]
	e1, e2 := c08repl2(c08heavy(k, sh[0]*sh[1]))
	c08map(c08any(k, sh[0], sh[1]), e1, e2)
}

// the swap of two variables
func H_C08_swap() {
	v, w := gVar("v"), gVar("w")
	ndAssume(v.ID != w.ID)
	var a symbolic.Expression
	switch ndChoose("kind", 5) {
	case 0:
		a = symbolic.VariableVector{v, w}
	case 1:
		a = symbolic.Monomial{Coefficient: ndFloat("c"), VariableFactors: []symbolic.Variable{v, w}, Exponents: []int{1, 2}}
	case 2:
		a = symbolic.MonomialVector{v.ToMonomial(), w.ToMonomial(), gMonoC("a", 1, 1)}
	case 3:
		a = symbolic.VariableMatrix{{v, w}, {w, v}}
	default:
		a = v.Plus(w.Multiply(2.0))
	}
	want := refM(a).mapE(func(p RP) RP { return p.subst([]uint64{v.ID, w.ID}, []RP{rpV(w.ID), rpV(v.ID)}) })
	same(a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: w, w: v}), want, "swap")
	ndReach("end")
}

// the empty map, and a variable replaced by itself
func H_C08_identity() {
	a := gScalar("a", []int{0, 1, 2, 5}[ndChoose("sa", 4)])
	if ndChoose("mono", 2) == 1 {
		a = gPolyC("a", 2, 2, 1)
	}
	want := ref(a)
	sameS(a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{}), want, "empty substitution")
	v := gVar("v")
	sameS(a.Substitute(v, v), want, "substituting a variable for itself")
	ndReach("end")
}

// large expressions
func c08big(a symbolic.Expression, e symbolic.ScalarExpression) {
	v := X(ndChoose("v", bigVars+1))
	into := func(a symbolic.Expression, e symbolic.ScalarExpression) RM {
		return refM(a).mapE(func(p RP) RP { return p.substX([]uint64{v.ID}, []RP{ref(e)}) })
	}
	want := into(a, e)
	if d := a.Dims(); d[0]*d[1] > 1 || termsOf(a)*termsOf(e) < 5 {
		// another substitution comes first
		s, f := sibling(a).(symbolic.Expression), sibling(e).(symbolic.ScalarExpression)
		x := s.Substitute(v, f)
		defer func() { same(x, into(s, f), "Substitute, before another one") }()
	}
	if ndChoose("way", 2) == 0 {
		same(a.Substitute(v, e), want, "Substitute")
	} else {
		same(a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: e}), want, "SubstituteAccordingTo of one variable")
	}
	ndReach("end")
}
func H_C08_big() {
	a, r := chooseBig("a"), bigRepl(ndChoose("r", bigRepls))
	if m, ok := a.(symbolic.Monomial); ok && len(m.Exponents) > 0 && m.Exponents[0] > 4 && termsOf(r) > 2 {
		return // too many terms
	}
	if termsOf(a)*termsOf(r) <= 12 {
		c08big(a, r)
	}
}
func H_C08_big_shapes() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 4, 1
	if isMatKind(k) {
		r, c = 2, 2+ndTier()
	}
	c08big(bigAny(k, "a", r, c, ndChoose("arb", r*c)), bigRepl(ndChoose("r", 4)))
}

// four variables at once, mentioning each other
func H_C08_big_map() {
	var a symbolic.Expression
	k := ndChoose("k", 3+3*ndTier())
	if ndTier() == 0 {
		k *= 2
	}
	switch {
	case k < 2:
		a = bigMono(ndFloat("a"), []int{11, 8}[k])
	case k < 4:
		a = bigPoly("a", []int{1, 3}[k-2], 0)
	case k == 4:
		a = bigAny(kVVec, "a", 4, 1, 0)
	default:
		a = bigAny(kVMat, "a", 2, 3, 0)
	}
	m := map[symbolic.Variable]symbolic.Expression{}
	var keys []uint64
	var vals []RP
	s := ndChoose("s", 3)
	n := 3 + ndTier()
	for i := 0; i < n; i++ {
		var e symbolic.ScalarExpression = X((i + 1) % n) // around in a circle
		if s == 1 && i%2 == 1 || s == 2 && i == 0 {
			e = symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(2, 1), bigMono(ndFloat("r"+dig(i)), 0)}}
		}
		if s == 2 && i == n-1 {
			e = gK("k")
		}
		m[X(i)] = e
		keys, vals = append(keys, uint64(i)), append(vals, ref(e))
	}
	want := refM(a).mapE(func(p RP) RP { return p.substX(keys, vals) })
	same(a.SubstituteAccordingTo(m), want, "SubstituteAccordingTo of several variables")
	ndReach("end")
}

// many entries
func H_C08_tall() {
	k := chooseShaped("kind")
	vi, e := ndChoose("v", 3), bigRepl([]int{1, 3}[ndChoose("r", 2)])
	var a symbolic.Expression
	if ndTier() > 0 {
		a = bigTall("a", k)
	} else {
		a = bigTallOne("a", k, k+vi)
	}
	v := X(vi)
	want := refM(a).mapE(func(p RP) RP { return p.substX([]uint64{v.ID}, []RP{ref(e)}) })
	same(a.Substitute(v, e), want, "Substitute in many entries")
	ndReach("end")
}
