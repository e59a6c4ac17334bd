package main

import "github.com/MatProGo-dev/SymbolicMath.go/symbolic"

func c02(a, b symbolic.ScalarExpression) {
	sameS(a.Multiply(b), ref(a).mul(ref(b)), "product is not the exact product")
	ndReach("end")
}

func H_C02_konst_any() { c02(gK("a"), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C02_var_any()   { c02(gVar("a"), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C02_mono0_any() { c02(gMono("a", 0), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C02_mono1_any() { c02(gMono("a", 1), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C02_mono2_any() { c02(gMono("a", 2), gScalar("b", ndChoose("sb", 10))) }
func H_C02_mono3_mono() {
	c02(gMono("a", 3), gMono("b", 1+ndChoose("n", 3)))
}
func H_C02_poly_small() {
	c02(gScalar("a", 5+ndChoose("sa", 5)), gScalar("b", ndChoose("sb", 8)))
}
func H_C02_poly_poly() { c02(gPoly("a", 1, ndChoose("na", 2)), gPoly("b", 1, ndChoose("nb", 2))) }
func H_C02_poly2_poly() {
	c02(gPoly("a", 2, 0), gPoly("b", 1, 0))
}

func H_C02_numbers() {
	a := gScalar("a", ndChoose("sa", scalarShapes))
	ra := ref(a)
	switch ndChoose("op", 2) {
	case 0:
		f := ndFloat("f")
		sameS(a.Multiply(f), ra.mul(rpK(f)), "product with a float64 is not exact")
	default:
		switch a.(type) {
		case symbolic.K, symbolic.Variable, symbolic.Monomial:
			n := ndInt("n", -1000, 1000)
			sameS(a.Multiply(n), ra.mul(rpK(float64(n))), "product with an int is not exact")
		}
	}
	ndReach("end")
}

func c02pow(a symbolic.ScalarExpression, max int) {
	n := ndInt("n", 0, max)
	r := a.Power(n)
	n = ndConcretizeI(n)
	sameS(r, ref(a).pow(n), "power is not the exact power")
	ndReach("end")
}
func H_C02_power_atom()  { c02pow(gScalar("a", ndChoose("sa", 5)), 5) }
func H_C02_power_mono3() { c02pow(gMono("a", 3), 4) }
func H_C02_power_poly()  { c02pow(gPoly("a", 1, ndChoose("n2", 2)), 2) }
func H_C02_power_polyK() { c02pow(gPoly("a", 1, 0), 3) }
func H_C02_power_poly1() { c02pow(gPoly("a", 1+ndChoose("n2", 2)), 4) }

// products of several expressions
func H_C02_chain() {
	a, b, c := gMono("a", 1), gPoly("b", 1, 0), gMono("c", 1)
	sameS(a.Multiply(b).Multiply(c), ref(a).mul(ref(b)).mul(ref(c)), "product of three factors")
	ndReach("end")
}

// large operands
func H_C02_big() {
	var a, b symbolic.ScalarExpression
	if ndTier() == 0 && ndChoose("side", 2) == 0 {
		a, b = chooseBig("a"), bigScalar("b", ndChoose("b", bigAtoms))
	} else {
		a, b = bigScalar("a", ndChoose("a", bigScalars)), chooseBig("b")
	}
	if termsOf(a)*termsOf(b) <= 36 {
		c02(a, b)
	}
}

// the same after an operation on similar operands, whose result stays
func H_C02_again() {
	a, b := bigScalar("a", ndChoose("a", bigScalars)), bigScalar("b", bigFew[ndChoose("b", len(bigFew))])
	if termsOf(a)*termsOf(b) > 12 {
		return
	}
	s, t := sibling(a).(symbolic.ScalarExpression), sibling(b).(symbolic.ScalarExpression)
	rs, rt := ref(s), ref(t)
	x := s.Multiply(t)
	c02(a, b)
	sameS(x, rs.mul(rt), "product, after another one")
	if termsOf(a) < 3 {
		y := s.Power(3)
		sameS(a.Power(3), ref(a).pow(3), "power, after another one")
		sameS(y, rs.pow(3), "power, before another one")
	}
}
func H_C02_big_power() {
	a := bigScalar("a", ndChoose("a", bigScalars))
	n := ndChoose("n", 4)
	if p, ok := a.(symbolic.Polynomial); !ok {
		n = []int{0, 3, 6, 8}[n]
		if ndTier() > 0 {
			n += 5
		}
	} else if len(p.Monomials) > 8 && n > 1 || len(p.Monomials) > 2 && n > 2 {
		return
	} else if len(p.Monomials) == 2 {
		n = []int{0, 2, 4, 5}[n]
	}
	sameS(a.Power(n), ref(a).pow(n), "power is not the exact power")
	ndReach("end")
}

// products of long polynomials
func H_C02_long() {
	pairs := [][2]int{{4, 8}, {8, 5}, {11, 0}, {0, 11}}
	p := pairs[ndChoose("pair", len(pairs))]
	at := ndChoose("at", 2)
	last := func(k int) int { return []int{-1, len(bigTerms[k]) - 1}[at] }
	a, b := bigPoly("a", p[0], last(p[0])), bigPoly("b", p[1], last(p[1]))
	c02(a, b)
}
func H_C02_long_square() {
	// x0, x0^2, ...: every term of the product occurs several times
	n := 3 + ndChoose("n", 6+4*ndTier())
	var p, q symbolic.Polynomial
	for i := 0; i < n; i++ {
		m := symbolic.Monomial{Coefficient: float64(i + 1), VariableFactors: Xs(i % 2), Exponents: []int{i/2 + 1}}
		if i == n-1 {
			m.Coefficient = ndFloat("c")
		}
		p.Monomials = append(p.Monomials, m)
		m.Coefficient = float64(2 - i)
		q.Monomials = append(q.Monomials, m)
	}
	c02(p, q)
}
