package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// c07: the derivative of every entry of a with respect to an arbitrary variable.
func c07(a symbolic.Expression) {
	v := gVar("w")
	d := func(e symbolic.Expression) RM { return refM(e).mapE(func(p RP) RP { return p.deriv(v.ID) }) }
	s := sibling(a).(symbolic.Expression)
	x := s.DerivativeWrt(v)
	same(a.DerivativeWrt(v), d(a), "derivative")
	same(x, d(s), "derivative, before another one")
	ndReach("end")
}

func H_C07_scalar() { c07(gScalar("a", ndChoose("sa", scalarShapes))) }
func H_C07_monomial() {
	c07(gMono("a", ndChoose("n", 5)))
}

// coefficients and exponents with the variable known to occur
func H_C07_monomial_occurs() {
	m := gMono("a", 1+ndChoose("n", 4))
	k := ndChoose("k", 4)
	if k >= len(m.VariableFactors) {
		return
	}
	v := m.VariableFactors[k]
	want := ref(m).deriv(v.ID)
	sameS(m.DerivativeWrt(v), want, "derivative of a monomial")
	ndReach("end")
}

// terms that list a variable with exponent zero
func H_C07_zero_exponents() {
	c07(gMonoE("a", 1+ndChoose("n", 2), 0, 3))
}
func H_C07_poly_terms() {
	c07(gPoly("a", ndChoose("n0", 3), 1+ndChoose("n1", 2), ndChoose("n2", 2)))
}
func c07shape(k, r, c int) {
	v := gVariant(k, "a")
	chooseRich(r * c)
	c07(gAny(k, "a", r, c, v).(symbolic.Expression))
}
func H_C07_KVector()          { c07shape(kKVec, 1+ndChoose("n", 3), 1) }
func H_C07_VariableVector()   { c07shape(kVVec, 1+ndChoose("n", 3), 1) }
func H_C07_MonomialVector()   { c07shape(kMVec, 1+ndChoose("n", 3), 1) }
func H_C07_PolynomialVector() { c07shape(kPVec, 1+ndChoose("n", 3), 1) }

var c07shapes = [][2]int{{1, 2}, {2, 1}, {1, 1}, {2, 2}}

func c07matrix(k int) {
	sh := c07shapes[ndChoose("shape", 4)]
	c07shape(k, sh[0], sh[1])
}
func H_C07_KMatrix()          { c07matrix(kKMat) }
func H_C07_VariableMatrix()   { c07matrix(kVMat) }
func H_C07_MonomialMatrix()   { c07matrix(kMMat) }
func H_C07_PolynomialMatrix() { c07matrix(kPMat) }

// entries that share variables with one another
func H_C07_shared_entries() {
	x, y := gVar("x"), gVar("y")
	ndAssume(x.ID != y.ID)
	e1, e2 := ndInt("e1", 1, expMax), ndInt("e2", 1, expMax)
	m1 := symbolic.Monomial{Coefficient: ndFloat("c1"), VariableFactors: []symbolic.Variable{x, y}, Exponents: []int{e1, e2}}
	m2 := symbolic.Monomial{Coefficient: ndFloat("c2"), VariableFactors: []symbolic.Variable{y, x}, Exponents: []int{e2, e1}}
	var a symbolic.Expression
	switch ndChoose("kind", 4) {
	case 0:
		a = symbolic.Polynomial{Monomials: []symbolic.Monomial{m1, m2}}
	case 1:
		a = symbolic.MonomialVector{m1, m2}
	case 2:
		a = symbolic.MonomialMatrix{{m1, m2}}
	default:
		a = symbolic.PolynomialVector{m1.ToPolynomial(), m2.ToPolynomial()}
	}
	c07(a)
}

// second derivatives
func H_C07_second() {
	m := gMono("a", 1+ndChoose("n", 2))
	v, w := gVar("v"), gVar("w")
	want := ref(m).deriv(v.ID).deriv(w.ID)
	sameS(m.DerivativeWrt(v).DerivativeWrt(w), want, "second derivative")
	ndReach("end")
}

// large expressions
func c07big(a symbolic.Expression) {
	v := X(ndChoose("w", bigVars+1))
	want := refM(a).mapE(func(p RP) RP { return p.deriv(v.ID) })
	same(a.DerivativeWrt(v), want, "derivative")
	ndReach("end")
}
func H_C07_big() { c07big(bigScalar("a", ndChoose("a", bigScalars))) }
func H_C07_big_shapes() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 5, 1
	if isMatKind(k) {
		r, c = 3, 4
	}
	c07big(bigAny(k, "a", r, c, ndChoose("arb", r*c)))
}
func H_C07_tall() { c07big(bigTall("a", chooseShaped("kind"))) }
