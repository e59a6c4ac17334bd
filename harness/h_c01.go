package main

import "github.com/MatProGo-dev/SymbolicMath.go/symbolic"

func c01(a, b symbolic.ScalarExpression) {
	ra, rb := ref(a), ref(b)
	if ndChoose("op", 2) == 0 {
		sameS(a.Plus(b), ra.add(rb), "sum is not the exact sum")
	} else {
		sameS(a.Minus(b), ra.sub(rb), "difference is not the exact difference")
	}
	ndReach("end")
}

func H_C01_konst_any() { c01(gK("a"), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C01_var_any()   { c01(gVar("a"), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C01_mono0_any() { c01(gMono("a", 0), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C01_mono1_any() { c01(gMono("a", 1), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C01_mono2_any() { c01(gMono("a", 2), gScalar("b", ndChoose("sb", scalarShapes))) }
func H_C01_mono3()     { c01(gMono("a", 3), gScalar("b", []int{9, 13}[ndChoose("sb", 2)])) }
func H_C01_poly_small() {
	c01(gScalar("a", 5+ndChoose("sa", 6)), gScalar("b", ndChoose("sb", 9)))
}
func H_C01_poly_poly() {
	c01(gScalar("a", 7+ndChoose("sa", 3)), gScalar("b", 7+ndChoose("sb", 3)))
}

// plain numbers on the right
func H_C01_numbers() {
	a := gScalar("a", ndChoose("sa", scalarShapes))
	ra := ref(a)
	f := ndFloat("f")
	switch a.(type) {
	case symbolic.K, symbolic.Variable:
		n := ndInt("n", -1000, 1000)
		if ndChoose("op", 2) == 0 {
			sameS(a.Plus(n), ra.add(rpK(float64(n))), "sum with an int is not exact")
		}
	}
	switch ndChoose("op2", 2) {
	case 0:
		sameS(a.Plus(f), ra.add(rpK(f)), "sum with a float64 is not exact")
	default:
		switch a.(type) {
		case symbolic.K, symbolic.Variable, symbolic.Monomial, symbolic.Polynomial:
			sameS(a.Minus(f), ra.sub(rpK(f)), "difference with a float64 is not exact")
		}
	}
	ndReach("end")
}

// sums of several terms through the package-level Sum
func H_C01_chain() {
	a, b, c := gMono("a", 1), gMono("b", 1), gMono("c", 1)
	s := a.Plus(b).Plus(c)
	sameS(s, ref(a).add(ref(b)).add(ref(c)), "sum of three terms")
	sameS(s.Minus(b), ref(a).add(ref(c)), "sum minus one of its terms")
	ndReach("end")
}

// large operands
func H_C01_big() {
	a, b := bigScalar("a", ndChoose("a", bigScalars)), chooseBig("b")
	if termsOf(a)*termsOf(b) <= 169 || ndTier() > 0 {
		c01(a, b)
	}
}

// the same after an operation on similar operands, whose result stays
func H_C01_again() {
	few := []int{0, 1, 3, 6, 10, 14, 24}
	if ndTier() > 0 {
		few = bigFew
	}
	a, b := bigScalar("a", few[ndChoose("a", len(few))]), bigScalar("b", few[ndChoose("b", len(few))])
	s, t := sibling(a).(symbolic.ScalarExpression), sibling(b).(symbolic.ScalarExpression)
	if ndTier() > 0 && ndChoose("swap", 2) == 1 {
		s, t = t, s
	}
	rs, rt := ref(s), ref(t)
	x, y := s.Plus(t), s.Minus(t)
	c01(a, b)
	sameS(x, rs.add(rt), "sum, after another one")
	sameS(y, rs.sub(rt), "difference, after another one")
}
