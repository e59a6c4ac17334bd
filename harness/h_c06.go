package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// canonMono: no repeated variable, no zero exponent.
func canonMono(m symbolic.Monomial, what string) {
	for i := range m.VariableFactors {
		ndAssert(m.Exponents[i] != 0, what+": a zero exponent is left")
		for j := 0; j < i; j++ {
			ndAssert(m.VariableFactors[i].ID != m.VariableFactors[j].ID, what+": a variable is repeated in a term")
		}
	}
}

// canon: the simplified scalar e has one nonzero term per form.
func canon(e any, what string) {
	switch x := e.(type) {
	case symbolic.Monomial:
		canonMono(x, what)
	case symbolic.Polynomial:
		ts := ref(x)
		for i, m := range x.Monomials {
			canonMono(m, what)
			ndAssert(len(x.Monomials) == 1 || m.Coefficient != 0, what+": a zero term is left")
			for j := 0; j < i; j++ {
				ndAssert(ndNot(formEq(ts[i], ts[j])), what+": two terms of the same form are left")
			}
		}
	}
}
func canonAll(e any, what string) {
	switch x := e.(type) {
	case symbolic.MonomialVector:
		for i := range x {
			canonMono(x[i], what)
		}
	case symbolic.PolynomialVector:
		for i := range x {
			canon(x[i], what)
		}
	case symbolic.PolynomialMatrix:
		for i := range x {
			for j := range x[i] {
				canon(x[i][j], what)
			}
		}
	default:
		if isScalarKind(e) {
			canon(e, what)
		}
	}
}

func c06(p symbolic.Polynomial) {
	want := ref(p)
	s := p.Simplify()
	sameS(s, want, "Simplify changed the polynomial")
	canon(s, "Simplify")
	e := p.AsSimplifiedExpression()
	sameS(e, want, "AsSimplifiedExpression changed the polynomial")
	canon(e, "AsSimplifiedExpression")
	ndReach("end")
}

// every polynomial with these numbers of factors, with coinciding forms and
// any coefficients
func H_C06_poly_2terms() { c06(gPoly("a", ndChoose("n0", 4), ndChoose("n1", 4))) }
func H_C06_poly_1term()  { c06(gPoly("a", ndChoose("n0", 5))) }
func H_C06_poly_3terms() {
	c06(gPoly("a", ndChoose("n0", 3), ndChoose("n1", 2), 1+ndChoose("n2", 1+ndTier())))
}
func H_C06_poly_4terms() {
	n := []int{1, 1, 1, 1}
	k := ndChoose("const", 5)
	if k < 4 {
		n[k] = 0
	}
	c06(gPolyE("a", 1, 2, n...))
}

// terms listed with zero exponents
func H_C06_poly_zero_exponents() {
	c06(gPolyE("a", 0, 3, ndChoose("n0", 3), ndChoose("n1", 3)))
}

// monomials
func H_C06_monomial_zero_exponents() {
	m := gMonoE("a", ndChoose("n", 4), 0, expMax)
	want := ref(m)
	e := m.AsSimplifiedExpression()
	sameS(e, want, "AsSimplifiedExpression changed the monomial")
	canon(e, "AsSimplifiedExpression")
	ndReach("end")
}

// terms that list a variable several times
func gMonoRep(name string, n, hi int) symbolic.Monomial {
	m := symbolic.Monomial{Coefficient: ndFloat(name + ".c")}
	for k := 0; k < n; k++ {
		m.VariableFactors = append(m.VariableFactors, gVar(name+".x"+dig(k)))
		m.Exponents = append(m.Exponents, ndInt(name+".e"+dig(k), 0, hi))
	}
	return m
}
func H_C06_monomial_repeated() {
	m := gMonoRep("a", 1+ndChoose("n", 3), 3)
	want := ref(m)
	e := m.AsSimplifiedExpression()
	sameS(e, want, "AsSimplifiedExpression changed the monomial")
	canon(e, "AsSimplifiedExpression")
	ndReach("end")
}
func H_C06_poly_repeated() {
	c06(symbolic.Polynomial{Monomials: []symbolic.Monomial{gMonoRep("a", 2, 2), gMonoRep("b", ndChoose("n1", 3), 2)}})
}
func H_C06_monomial_form() {
	m := gMono("a", ndChoose("n", 4))
	want := ref(m)
	e := m.AsSimplifiedExpression()
	sameS(e, want, "AsSimplifiedExpression changed the monomial")
	canon(e, "AsSimplifiedExpression")
	if m.Coefficient == 0 {
		_, ok := e.(symbolic.K)
		ndAssert(ok, "a zero monomial is not simplified to a constant")
	}
	ndReach("end")
}
func H_C06_konst_variable() {
	k := gK("k")
	sameS(k.AsSimplifiedExpression(), ref(k), "simplified constant")
	v := gVar("v")
	sameS(v.AsSimplifiedExpression(), ref(v), "simplified variable")
	ndReach("end")
}

// every kind of vector and matrix
func H_C06_vector() {
	k := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2+ndTier())
	v := gVariant(k, "a")
	chooseRich(n)
	a := gAny(k, "a", n, 1, v)
	want := refM(a)
	s := a.(symbolic.Expression).AsSimplifiedExpression()
	same(s, want, "simplified vector")
	canonAll(s, "simplified vector")
	if pv, ok := a.(symbolic.PolynomialVector); ok {
		same(pv.Simplify(), want, "PolynomialVector.Simplify")
	}
	ndReach("end")
}
func H_C06_matrix() {
	k := matrices[ndChoose("kind", 4)]
	sh := [][2]int{{1, 2}, {2, 1}, {1, 1}, {2, 2}}[ndChoose("shape", 4)]
	v := gVariant(k, "a")
	chooseRich(sh[0] * sh[1])
	a := gAny(k, "a", sh[0], sh[1], v)
	want := refM(a)
	s := a.(symbolic.Expression).AsSimplifiedExpression()
	same(s, want, "simplified matrix")
	canonAll(s, "simplified matrix")
	if pm, ok := a.(symbolic.PolynomialMatrix); ok {
		same(pm.Simplify(), want, "PolynomialMatrix.Simplify")
	}
	ndReach("end")
}

// two terms per entry that may coincide, cancel or be constant
func H_C06_vector_terms() {
	p := gPoly("a", ndChoose("n0", 2), 1)
	q := gPoly("b", 1, ndChoose("n1", 2))
	v := symbolic.PolynomialVector{p, q}
	if ndChoose("other", 2) == 0 {
		v = symbolic.PolynomialVector{p, gVar("c").ToPolynomial()}
	}
	want := refM(v)
	s := v.AsSimplifiedExpression()
	same(s, want, "simplified vector")
	canonAll(s, "simplified vector")
	ndReach("end")
}

// the package's entry points
func H_C06_concretize() {
	a := gScalar("a", ndChoose("sa", 13))
	want := ref(a)
	e := symbolic.ConcretizeExpression(a)
	sameS(e, want, "ConcretizeExpression changed a scalar")
	canon(e, "ConcretizeExpression")
	ndReach("end")
}

// results of operations are simplified to canonical form as well
func H_C06_results() {
	a := gScalar("a", 3+ndChoose("sa", 6))
	b := gScalar("b", 1+ndChoose("sb", 3))
	if ndChoose("op", 2) == 0 {
		want := ref(a).add(ref(b))
		e := a.Plus(b).AsSimplifiedExpression()
		sameS(e, want, "simplified sum")
		canon(e, "simplified sum")
	} else {
		want := ref(a).mul(ref(b))
		e := a.Multiply(b).AsSimplifiedExpression()
		sameS(e, want, "simplified product")
		canon(e, "simplified product")
	}
	ndReach("end")
}

// large expressions
func H_C06_big() {
	e0 := bigScalar("a", ndChoose("a", bigScalars))
	s := sibling(e0).(symbolic.ScalarExpression)
	r := s.AsSimplifiedExpression()
	c06big(e0)
	sameS(r, ref(s), "AsSimplifiedExpression, before another one")
}
func c06big(e0 symbolic.ScalarExpression) {
	switch a := e0.(type) {
	case symbolic.Polynomial:
		c06(a)
	default:
		want := ref(a)
		e := a.AsSimplifiedExpression()
		sameS(e, want, "AsSimplifiedExpression changed the value")
		canon(e, "AsSimplifiedExpression")
		ndReach("end")
	}
}
func H_C06_big_shapes() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 5, 1
	if isMatKind(k) {
		r, c = 3, 4
	}
	a := bigAny(k, "a", r, c, ndChoose("arb", r*c))
	want := refM(a)
	s := sibling(a).(symbolic.Expression)
	x := s.AsSimplifiedExpression()
	defer func() { same(x, refM(s), "AsSimplifiedExpression, before another one") }()
	e := a.AsSimplifiedExpression()
	same(e, want, "AsSimplifiedExpression changed the value")
	canonAll(e, "AsSimplifiedExpression")
	ndReach("end")
}
func H_C06_tall() {
	a := bigTall("a", chooseShaped("kind"))
	want := refM(a)
	e := a.AsSimplifiedExpression()
	same(e, want, "AsSimplifiedExpression changed the value")
	canonAll(e, "AsSimplifiedExpression")
	ndReach("end")
}
