package main

import (
	"fmt"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// compare compares through each of the ways there are.
func compare(a symbolic.Expression, b any, way int) (symbolic.Constraint, symbolic.ConstrSense) {
	switch way {
	case 0:
		return a.LessEq(b), symbolic.SenseLessThanEqual
	case 1:
		return a.GreaterEq(b), symbolic.SenseGreaterThanEqual
	case 2:
		return a.Eq(b), symbolic.SenseEqual
	}
	return a.Comparison(b, senses[way-3]), senses[way-3]
}

// broadcast is m with a scalar applied to every entry of the shape.
func broadcast(m RM, r, c int) RM {
	if m.isScalar() {
		x := newRM(r, c)
		for i := range x.e {
			for j := range x.e[i] {
				x.e[i][j] = m.e[0][0]
			}
		}
		return x
	}
	return m
}

// c11scalar: a scalar constraint between l and r
func c11scalar(c symbolic.ScalarConstraint, l, r RP, s symbolic.ConstrSense, what string) {
	ndAssert(c.Check() == nil, what+": the constraint is malformed")
	ndAssert(c.ConstrSense() == s && c.Sense == s, what+": wrong sense")
	sameS(c.Left(), l, what+": left-hand side")
	sameS(c.Right(), r, what+": right-hand side")
}

// c11 checks the constraint c and everything extracted from it.
func c11(c symbolic.Constraint, l, r RM, s symbolic.ConstrSense, what string) {
	R, C := l.r, l.c
	if l.isScalar() {
		R, C = r.r, r.c
	}
	l, r = broadcast(l, R, C), broadcast(r, R, C)
	ndAssert(symbolic.IsConstraint(c), what+": not recognised as a constraint")
	ndAssert(c.Check() == nil, what+": the constraint is malformed")
	ndAssert(c.ConstrSense() == s, what+": wrong sense")
	same(c.Left(), l, what+": left-hand side")
	same(c.Right(), r, what+": right-hand side")
	var parts []symbolic.ScalarConstraint
	switch x := c.(type) {
	case symbolic.ScalarConstraint:
		ndAssert(R == 1 && C == 1, what+": a scalar constraint between vectors or matrices")
		parts = append(parts, x)
	case symbolic.VectorConstraint:
		ndAssert(C == 1, what+": a vector constraint between matrices")
		d := x.Dims()
		ndAssert(x.Len() == R && d[0] == R && d[1] == 1, what+": length")
		for i := 0; i < R; i++ {
			parts = append(parts, x.AtVec(i))
		}
	case symbolic.MatrixConstraint:
		d := x.Dims()
		ndAssert(d[0] == R && d[1] == C, what+": dimensions")
		for i := 0; i < R; i++ {
			for j := 0; j < C; j++ {
				parts = append(parts, x.At(i, j))
			}
		}
	default:
		ndAssert(false, what+": unknown kind of constraint")
	}
	for k, p := range parts {
		c11scalar(p, l.e[k/C][k%C], r.e[k/C][k%C], s, what+", one entry")
	}
}

// c11compile: cs split into scalar constraints
func c11compile(cs []symbolic.Constraint) {
	out := symbolic.CompileConstraintsIntoScalarConstraints(cs)
	n := 0
	for _, c := range cs {
		l, r := refM(c.Left()), refM(c.Right())
		for i := range l.e {
			for j := range l.e[i] {
				ndAssert(n < len(out), "an entry is missing among the scalar constraints")
				c11scalar(out[n], l.e[i][j], r.e[i][j], c.ConstrSense(), "entry among the scalar constraints")
				n++
			}
		}
	}
	ndAssert(n == len(out), "more scalar constraints than entries")
}

// which right-hand sides each kind is compared with
var c11args = map[int][]int{
	kK:    {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kVecD, kVecDp},
	kVar:  {kFloat, kInt, kK, kVar, kMono, kPoly},
	kMono: {kFloat, kInt, kK, kVar, kMono, kPoly},
	kPoly: {kFloat, kInt, kK, kVar, kMono, kPoly},
	kKVec: {kFloat, kInt, kK, kKVec, kVVec, kMVec, kPVec, kVecD},
	kVVec: {kKVec, kVVec, kMVec, kPVec, kVecD},
	kMVec: {kFloat, kK, kKVec, kVVec, kMVec},
	kPVec: {kFloat, kK, kKVec, kVVec, kMVec, kPVec, kVecD},
	kKMat: {kK, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
	kVMat: {kFloat, kK, kKMat, kVMat, kMMat, kPMat, kDen},
	kMMat: {kFloat, kK, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
	kPMat: {kFloat, kK, kKMat, kDen, kDenp},
}

func c11run(recv, maxR, maxC int) {
	args := c11args[recv]
	k := args[ndChoose("kind", len(args))]
	r, c := 1, 1
	if isVecKind(recv) || isVecKind(k) {
		r = 1 + ndChoose("r", maxR)
	}
	if isMatKind(recv) {
		r, c = 1+ndChoose("r", maxR), 1+ndChoose("c", maxC)
	}
	way := ndChoose("way", 6)
	va, vb := gVariantN(recv, "a", 4), gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) {
		return
	}
	chooseRich(r * c)
	a, b := gAny(recv, "a", r, c, va), gAny(k, "b", r, c, vb)
	la, rb := refM(a), refM(b)
	cons, s := compare(a.(symbolic.Expression), b, way)
	c11(cons, la, rb, s, fmt.Sprintf("comparison of %T and %T", a, b))
	if cons.Check() == nil {
		c11compile([]symbolic.Constraint{cons})
	}
	ndReach("end")
}

func H_C11_K()              { c11run(kK, 2, 1) }
func H_C11_Variable()       { c11run(kVar, 1, 1) }
func H_C11_Monomial()       { c11run(kMono, 1, 1) }
func H_C11_Polynomial()     { c11run(kPoly, 1, 1) }
func H_C11_KVector()        { c11run(kKVec, 2, 1) }
func H_C11_VariableVector() { c11run(kVVec, 2, 1) }
func H_C11_MonomialVector() { c11run(kMVec, 2, 1) }
func H_C11_PolynomialVector() {
	c11run(kPVec, 2, 1)
}
func H_C11_KMatrix()          { c11run(kKMat, 2, 2) }
func H_C11_VariableMatrix()   { c11run(kVMat, 2, 2) }
func H_C11_MonomialMatrix()   { c11run(kMMat, 2, 2) }
func H_C11_PolynomialMatrix() { c11run(kPMat, 2, 2) }

// a chain of constraints of all kinds is split in order
func H_C11_compile() {
	n := ndChoose("n", 3+ndTier())
	var cs []symbolic.Constraint
	gRich, gCoeff = -1, 1
	for i := 0; i < n; i++ {
		s := senses[ndChoose("s"+dig(i), 3)]
		x, b := "a"+dig(i), uint64(100*(i+1))
		arb := func(i, j int) bool { return true }
		switch ndChoose("k"+dig(i), 3) {
		case 0:
			cs = append(cs, symbolic.ScalarConstraint{LeftHandSide: gGrid(kMono, x, 1, 1, b, arb).(symbolic.ScalarExpression), RightHandSide: gK("b" + dig(i)), Sense: s})
		case 1:
			cs = append(cs, symbolic.VectorConstraint{LeftHandSide: gGrid(kMVec, x, 2, 1, b, arb).(symbolic.VectorExpression), RightHandSide: gGrid(kVVec, x, 2, 1, b+50, nil).(symbolic.VectorExpression), Sense: s})
		case 2:
			cs = append(cs, symbolic.MatrixConstraint{LeftHandSide: gGrid(kPMat, x, 2, 2, b, arb).(symbolic.MatrixExpression), RightHandSide: gGrid(kMMat, x, 2, 2, b+50, nil).(symbolic.MatrixExpression), Sense: s})
		}
	}
	c11compile(cs)
	ndReach("end")
}

// larger shapes
func H_C11_wide() {
	recv := append(append([]int{}, vectors...), matrices...)[ndChoose("recv", 8)]
	args := c11args[recv]
	k := args[ndChoose("kind", len(args))]
	r, c := 3, 1
	if isMatKind(recv) {
		s := [][2]int{{1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}[ndChoose("shape", 5)]
		r, c = s[0], s[1]
	}
	gCoeff = 1
	if k == kInt {
		return
	}
	a := gGrid(recv, "a", r, c, 100, func(i, j int) bool { return true })
	b := gGrid(k, "b", r, c, 200, nil)
	cons, s := compare(a.(symbolic.Expression), b, ndChoose("way", 3))
	c11(cons, refM(a), refM(b), s, fmt.Sprintf("comparison of %T and %T", a, b))
	c11compile([]symbolic.Constraint{cons})
	ndReach("end")
}

// large sides
func H_C11_big() {
	recv := exprKinds[ndChoose("recv", 12)]
	args := c11args[recv]
	k := args[ndChoose("kind", len(args))]
	r, c := 1, 1
	switch {
	case isMatKind(recv):
		r, c = 2, 4
	case isVecKind(recv) || isVecKind(k):
		r = 5
	}
	way := ndChoose("way", 6)
	i := ndChoose("arb", 2) * (r*c - 1)
	var a, b any = bigAny(recv, "a", r, c, i), nil
	switch k {
	case kFloat, kInt, kVecD, kVecDp, kDen, kDenp:
		if k == kInt {
			b = ndInt("b", -2, 2)
		} else {
			gCoeff = 1
			b = gGrid(k, "b", r, c, 0, func(x, y int) bool { return x*c+y == i || k == kFloat })
		}
	default:
		if isVecKind(k) || isMatKind(k) {
			b = bigAny(k, "b", r, c, i)
		} else {
			b = bigAny(k, "b", 1, 1, 0)
		}
	}
	la, rb := refM(a), refM(b)
	what := fmt.Sprintf("comparison of %T and %T", a, b)
	a0, b0 := sibling(a), sibling(b)
	cons0, s0 := compare(a0.(symbolic.Expression), b0, (way+1)%6)
	cons, s := compare(a.(symbolic.Expression), b, way)
	c11(cons0, refM(a0), refM(b0), s0, what+", before another one")
	c11(cons, la, rb, s, what)
	if !isVecKind(k) || isVecKind(recv) {
		c11compile([]symbolic.Constraint{cons, symbolic.K(1).LessEq(X(2)), cons})
	}
	ndReach("end")
}

// many entries
func H_C11_tall() {
	k := chooseShaped("kind")
	a := bigTall("a", k)
	b := sibling(a)
	if !has(c11args[k], k) {
		return
	}
	if ndChoose("swap", 2) == 1 {
		a, b = b.(symbolic.Expression), a
	}
	cons, s := compare(a, b, ndChoose("way", 6))
	c11(cons, refM(a), refM(b), s, "comparison of many entries")
	c11compile([]symbolic.Constraint{cons, cons})
	ndReach("end")
}

// several constraints of different shapes, split together
func H_C11_compile_tall() {
	shapes := [][2]int{{1, 1}, {8, 1}, {4, 2}, {2, 4}, {1, 8}, {3, 3}, {5, 1}, {2, 5}, {5, 2}}
	var cs []symbolic.Constraint
	for i := 0; i < 2+ndTier(); i++ {
		sh := shapes[ndChoose("shape"+dig(i), len(shapes))]
		s := senses[(ndChoose("sense", 3)+i)%3]
		at := -1
		if i == 0 {
			at = sh[0]*sh[1] - 1
		}
		switch {
		case sh[0]*sh[1] == 1:
			cs = append(cs, symbolic.ScalarConstraint{LeftHandSide: bigMono(ndFloat("a"+dig(i)), 6), RightHandSide: X(i), Sense: s})
		case sh[1] == 1:
			cs = append(cs, symbolic.VectorConstraint{LeftHandSide: bigAny(kMVec, "a"+dig(i), sh[0], 1, at).(symbolic.VectorExpression), RightHandSide: bigAny(kVVec, "b", sh[0], 1, -3-i).(symbolic.VectorExpression), Sense: s})
		default:
			cs = append(cs, symbolic.MatrixConstraint{LeftHandSide: bigAny(kMMat, "a"+dig(i), sh[0], sh[1], at).(symbolic.MatrixExpression), RightHandSide: bigAny(kVMat, "b", sh[0], sh[1], -3-i).(symbolic.MatrixExpression), Sense: s})
		}
	}
	c11compile(cs)
	ndReach("end")
}
