package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

type kept struct {
	es []any
	rs []RM
}

func keep(es ...any) *kept {
	k := &kept{}
	k.add(es...)
	return k
}
func (k *kept) add(es ...any) {
	for _, e := range es {
		k.es = append(k.es, e)
		k.rs = append(k.rs, refM(e))
	}
}

// check: every kept object still has the value it had.
func (k *kept) check(what string) {
	for i, e := range k.es {
		got := refM(e)
		ndAssert(got.r == k.rs[i].r && got.c == k.rs[i].c, what+" changed the shape of an operand or earlier result")
		ndAssert(got.eq(k.rs[i]), what+" changed an operand or earlier result")
	}
}

// unary operations on any expression
func c09unary(op int, a symbolic.Expression, v symbolic.Variable) {
	switch op {
	case 0:
		a.AsSimplifiedExpression()
	case 1:
		a.DerivativeWrt(v)
	case 2:
		a.Transpose()
	case 3:
		a.Substitute(v, symbolic.K(2))
	case 4:
		a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: v.Plus(1.0)})
	case 5:
		a.Variables()
		a.Check()
		a.Dims()
	case 6:
		switch x := a.(type) {
		case symbolic.Monomial:
			x.Constant()
			x.Degree()
			x.Copy()
			x.ToPolynomial().Multiply(2.0)
			_ = x.String()
		case symbolic.Polynomial:
			x.Constant()
			x.Degree()
			x.Simplify()
			x.LinearCoeff([]symbolic.Variable{v})
			_ = x.String()
		case symbolic.Variable:
			x.ToMonomial().Multiply(2.0)
			x.ToPolynomial().Plus(v)
		case symbolic.VariableVector:
			x.Copy()
			x.ToMonomialVector().Multiply(2.0)
			x.ToPolynomialVector().Plus(v)
		case symbolic.MonomialVector:
			x.Constant()
			x.ToPolynomialVector().Plus(v)
			x.ToScalarExpressions()
		case symbolic.PolynomialVector:
			x.Constant()
			x.Simplify()
			x.ToScalarExpressions()
		case symbolic.PolynomialMatrix:
			x.Constant()
			x.Simplify()
		case symbolic.MonomialMatrix:
			x.Constant()
		}
	case 7:
		if d := a.Dims(); d[0] == d[1] {
			a.Power(2)
		}
	default:
		d := a.Dims()
		symbolic.VStack(a, a)
		symbolic.HStack(a, a)
		a.At(d[0]-1, d[1]-1).Plus(v)
	}
}

const nUnary = 9

func H_C09_unary_scalar() {
	op := ndChoose("op", nUnary)
	// exponents are small numbers where the operation repeats products
	var a symbolic.ScalarExpression
	switch k := ndChoose("sa", 7); {
	case k == 0:
		a = gVar("a")
	case k < 4:
		a = gMonoE("a", k-1, 1, 2)
	case k == 4:
		a = gPolyE("a", 1, 2, 1, 0)
	case k == 5:
		a = gPolyE("a", 1, 2, 1, 1)
	default:
		a = gPolyE("a", 1, 2, 2)
	}
	v := gVar("v")
	k := keep(a)
	c09unary(op, a, v)
	k.check("an operation")
	ndReach("end")
}

// the derivative has its own aliasing hazards: all exponents
func H_C09_derivative() {
	a := gScalar("a", 3+ndChoose("sa", scalarShapes-3))
	v := gVar("v")
	k := keep(a)
	d := a.DerivativeWrt(v)
	k.check("DerivativeWrt")
	k.add(d)
	d2 := a.DerivativeWrt(v)
	k.check("DerivativeWrt")
	sameS(d2, ref(d), "the second derivative of the same expression differs")
	d.DerivativeWrt(v)
	k.check("DerivativeWrt of the result")
	ndReach("end")
}
func H_C09_unary_vector() {
	op := ndChoose("op", nUnary)
	kind := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2)
	v := gVar("v")
	chooseRich(n)
	a := gAnyE(kind, "a", n, 1).(symbolic.Expression)
	k := keep(a)
	c09unary(op, a, v)
	k.check("an operation")
	ndReach("end")
}
func H_C09_unary_matrix() {
	op := ndChoose("op", nUnary)
	kind := matrices[ndChoose("kind", 4)]
	sh := [][2]int{{1, 2}, {1, 1}}[ndChoose("shape", 2)]
	v := gVar("v")
	chooseRich(sh[0] * sh[1])
	a := gAnyE(kind, "a", sh[0], sh[1]).(symbolic.Expression)
	k := keep(a)
	c09unary(op, a, v)
	k.check("an operation")
	ndReach("end")
}

// gAnyE is gAny with exponents 1 or 2 (products of them are computed).
func gAnyE(kind int, name string, r, c int) any {
	x := gAny(kind, name, r, c, 0)
	switch y := x.(type) {
	case symbolic.MonomialVector:
		for i := range y {
			limitExps(y[i])
		}
	case symbolic.PolynomialVector:
		for i := range y {
			limitExps(y[i].Monomials...)
		}
	case symbolic.MonomialMatrix:
		for i := range y {
			limitExps(y[i]...)
		}
	case symbolic.PolynomialMatrix:
		for i := range y {
			for j := range y[i] {
				limitExps(y[i][j].Monomials...)
			}
		}
	}
	return x
}
func limitExps(ms ...symbolic.Monomial) {
	for _, m := range ms {
		for _, e := range m.Exponents {
			ndAssume(e <= 2)
		}
	}
}

// binary operations
func H_C09_binary_scalar() {
	op := ndChoose("op", 3)
	a := gScalar("a", []int{1, 3, 4, 7, 8, 9}[ndChoose("sa", 6)])
	b := gScalar("b", []int{0, 1, 3, 4, 7, 8}[ndChoose("sb", 5+ndTier())])
	k := keep(a, b)
	apply(op, a, b)
	k.check("an operation")
	ndReach("end")
}
func H_C09_binary_vector() {
	kind := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2)
	var b any
	op := ndChoose("op", 3)
	chooseRich(n)
	a := gAny(kind, "a", n, 1, 0)
	switch ndChoose("b", 5) {
	case 0:
		b = gVar("b")
	case 1:
		b = gAny(kPoly, "b", 1, 1, 0)
	case 2:
		if op == opMul {
			return
		}
		b = gAny(kPVec, "b", n, 1, 2)
	case 3:
		if op == opMul {
			return
		}
		b = gAny(kMVec, "b", n, 1, 0)
	default:
		if op == opMul {
			return
		}
		b = gAny(kVVec, "b", n, 1, 0)
	}
	k := keep(a, b)
	if p := guarded(func() { apply(op, a.(symbolic.Expression), b) }); p != nil && isCrash(p) {
		return
	}
	k.check("an operation")
	ndReach("end")
}
func H_C09_binary_matrix() {
	kind := matrices[ndChoose("kind", 4)]
	sh := [][2]int{{1, 2}, {1, 1}}[ndChoose("shape", 2)]
	op := ndChoose("op", 3)
	kb := []int{kK, kPoly, kPMat, kMMat, kKMat, kDenp}[ndChoose("b", 6)]
	chooseRich(sh[0] * sh[1])
	a := gAny(kind, "a", sh[0], sh[1], 0)
	b := gAny(kb, "b", sh[0], sh[1], 2)
	if op == opMul && isMatKind(kb) {
		b = gAny(kb, "b", sh[1], 1, 0)
	}
	k := keep(a, b)
	guarded(func() { apply(op, a.(symbolic.Expression), b) })
	k.check("an operation")
	ndReach("end")
}

// dense operands stay as they are
func H_C09_dense() {
	kind := []int{kKVec, kVVec, kKMat, kVMat}[ndChoose("kind", 4)]
	op := ndChoose("op", 3)
	var b any
	n := 2
	a := gAny(kind, "a", 2, 2, 0)
	switch {
	case isVecKind(kind) && op == opMul:
		return
	case isVecKind(kind):
		b = gAny(kVecDp, "b", n, 1, 0)
	case op == opMul && ndChoose("vec", 2) == 1:
		b = gAny(kVecDp, "b", n, 1, 0)
	default:
		b = gAny(kDenp, "b", n, n, 0)
	}
	k := keep(a, b)
	guarded(func() { apply(op, a.(symbolic.Expression), b) })
	k.check("an operation")
	ndReach("end")
}

// Histories: results of results, with shared operands. The factor slices of
// the operands have spare capacity.

func gSpare(name string, n int) symbolic.Monomial {
	m := gMonoE(name, n, 1, 3)
	f := make([]symbolic.Variable, n, n+4)
	e := make([]int, n, n+4)
	copy(f, m.VariableFactors)
	copy(e, m.Exponents)
	m.VariableFactors, m.Exponents = f, e
	return m
}
func gSparePoly(name string, ns ...int) symbolic.Polynomial {
	p := symbolic.Polynomial{Monomials: make([]symbolic.Monomial, 0, len(ns)+4)}
	for i, n := range ns {
		p.Monomials = append(p.Monomials, gSpare(name+dig(i), n))
	}
	return p
}
func c09start(k int) symbolic.ScalarExpression {
	switch k {
	case 0:
		return gSpare("a", 1)
	case 1:
		return gSpare("a", 2)
	case 2:
		return gSparePoly("a", 1, 0)
	}
	return gSparePoly("a", 2)
}
func c09step(k int, e symbolic.Expression, b symbolic.Expression, v symbolic.Variable) symbolic.Expression {
	switch k {
	case 0:
		return e.Plus(b)
	case 1:
		return e.Multiply(b)
	case 2:
		return e.DerivativeWrt(v)
	case 3:
		return e.AsSimplifiedExpression()
	case 4:
		return e.Minus(b)
	default:
		return e.Transpose()
	}
}

// r1 = a.op(b); r2 = r1.op(c); r3 = a.op(c): each later step leaves the
// operands and the earlier results alone.
func H_C09_history() {
	a := c09start(ndChoose("a", 4))
	var b symbolic.ScalarExpression = gVar("b")
	if ndChoose("b", 2) == 1 {
		b = gSpare("b", 1)
	}
	c := gVar("c")
	nOp := 5
	o1, o2, o3 := ndChoose("o1", nOp), ndChoose("o2", nOp), ndChoose("o3", 2)
	if ndTier() == 0 && o3 == 1 && o1 != 1 {
		return
	}
	k := keep(a, b, c)
	r1 := c09step(o1, a, b, c)
	k.check("the first operation")
	k.add(r1)
	r2 := c09step(o2, r1, c, c)
	k.check("the second operation")
	k.add(r2)
	c09step(o3, a, c, c)
	k.check("the third operation")
	ndReach("end")
}

// two products from the same monomial
func H_C09_products() {
	a := gSpare("a", 1+ndChoose("n", 2))
	b, c := gSpare("b", 1), gSpare("c", 1)
	k := keep(a, b, c)
	r1 := a.Multiply(b)
	k.add(r1)
	r2 := a.Multiply(c)
	k.check("a product")
	k.add(r2)
	r1.Multiply(c)
	a.Multiply(gVar("d"))
	k.check("a product")
	ndReach("end")
}

// two monomials whose factors are kept in one array (one is a prefix of the other)
func H_C09_shared_array() {
	b := gSpare("b", 3)
	a := symbolic.Monomial{Coefficient: ndFloat("a.c"), VariableFactors: b.VariableFactors[:1], Exponents: b.Exponents[:1]}
	c := gSpare("c", 1)
	k := keep(a, b, c)
	switch ndChoose("op", 5) {
	case 0:
		a.Multiply(c)
	case 1:
		a.Plus(c)
	case 2:
		a.Multiply(gVar("d"))
	case 3:
		a.ToPolynomial().Multiply(c)
	default:
		a.DerivativeWrt(c.VariableFactors[0])
	}
	k.check("an operation on a monomial that shares its array with another one")
	ndReach("end")
}
func H_C09_shared_terms() {
	q := gSparePoly("q", 1, 1, 0)
	p := symbolic.Polynomial{Monomials: q.Monomials[:2]}
	b := gSpare("b", 1)
	k := keep(q, p, b)
	switch ndChoose("op", 6) {
	case 0:
		p.Plus(b)
	case 1:
		p.Plus(1.0)
	case 2:
		p.Multiply(b)
	case 3:
		p.Plus(gVar("d"))
	case 4:
		p.Plus(b.ToPolynomial())
	default:
		p.Simplify()
		p.DerivativeWrt(b.VariableFactors[0])
	}
	k.check("an operation on a polynomial that shares its terms with another one")
	ndReach("end")
}

// copies do not share state
func H_C09_copy() {
	switch ndChoose("kind", 3) {
	case 0:
		m := gMono("m", 2)
		want := ref(m)
		c := m.Copy()
		sameS(c, want, "copy of a monomial")
		c.Exponents[0]++
		c.VariableFactors[1] = gVar("other")
		c.Coefficient++
		sameS(m, want, "changing a copy changed the monomial")
	case 1:
		p := gPoly("p", 2, 1)
		want := ref(p)
		c := p.Copy()
		sameS(c, want, "copy of a polynomial")
		c.Monomials[1].Exponents[0]++
		c.Monomials[0].VariableFactors[1] = gVar("other")
		c.Monomials[0].Coefficient++
		sameS(p, want, "changing a copy changed the polynomial")
	default:
		v := gAny(kVVec, "v", 2, 1, 0).(symbolic.VariableVector)
		want := refM(v)
		c := v.Copy()
		same(c, want, "copy of a variable vector")
		c[0] = gVar("other")
		same(v, want, "changing a copy changed the variable vector")
	}
	ndReach("end")
}

// conversions to other representations do not share state with the original
// as far as later operations are concerned
func H_C09_conversions() {
	m := gSpare("m", 1)
	p := m.ToPolynomial()
	k := keep(m, p)
	p2 := p.Plus(gVar("x"))
	k.add(p2)
	p.Multiply(gVar("y"))
	p.DerivativeWrt(m.VariableFactors[0])
	k.check("an operation on a converted monomial")
	ndReach("end")
}

// constraints
func H_C09_constraint() {
	a := gPolyE("a", 1, 1, 1, 0)
	var b symbolic.ScalarExpression = gVar("b")
	if ndChoose("b", 2) == 1 {
		b = gMonoLin("b", 1)
	}
	sense := []symbolic.ConstrSense{symbolic.SenseLessThanEqual, symbolic.SenseGreaterThanEqual, symbolic.SenseEqual}[ndChoose("sense", 3)]
	sc := a.Comparison(b, sense).(symbolic.ScalarConstraint)
	other := gVar("w").LessEq(gK("k"))
	k := keep(a, b, sc.LeftHandSide, sc.RightHandSide, other.Left(), other.Right())
	v := gVar("v")
	switch ndChoose("op", 6) {
	case 0:
		sc.Simplify()
	case 1:
		sc.ScaleBy(-2)
	case 2:
		sc.Substitute(v, symbolic.K(3))
	case 3:
		if sense == symbolic.SenseEqual {
			sc.LinearEqualityConstraintRepresentation([]symbolic.Variable{v})
		} else {
			sc.LinearInequalityConstraintRepresentation([]symbolic.Variable{v})
		}
	case 4:
		guarded(func() { sc.ImpliesThisIsAlsoSatisfied(other) })
	default:
		guarded(func() { sc.IsNonnegativityConstraint() })
	}
	ndAssert(sc.Sense == sense, "an operation changed the sense of the constraint")
	k.check("an operation on a constraint")
	ndReach("end")
}
func H_C09_vector_constraint() {
	a := gAny(kVVec, "a", 2, 1, 0).(symbolic.VariableVector)
	b := gAny(kVecDp, "b", 2, 1, 0)
	sense := []symbolic.ConstrSense{symbolic.SenseLessThanEqual, symbolic.SenseGreaterThanEqual, symbolic.SenseEqual}[ndChoose("sense", 3)]
	vc := a.Comparison(symbolic.VecDenseToKVector(*mustVecD(b)), sense).(symbolic.VectorConstraint)
	k := keep(a, b, vc.LeftHandSide, vc.RightHandSide)
	v := gVar("v")
	switch ndChoose("op", 5) {
	case 0:
		vc.AsSimplifiedConstraint()
	case 1:
		vc.Substitute(v, symbolic.K(3))
	case 2:
		if sense == symbolic.SenseEqual {
			vc.LinearEqualityConstraintRepresentation([]symbolic.Variable{v})
		} else {
			vc.LinearInequalityConstraintRepresentation([]symbolic.Variable{v})
		}
	case 3:
		vc.AtVec(1).Simplify()
	default:
		symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{vc})
	}
	k.check("an operation on a vector constraint")
	ndReach("end")
}

// wide shapes: fixed variables and coefficients, except for an arbitrary
// variable of the operation
func H_C09_wide_unary() {
	op := ndChoose("op", nUnary)
	kind := append(append([]int{}, vectors...), matrices...)[ndChoose("kind", 8)]
	sh := [][2]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}}[ndChoose("shape", 4)]
	if isVecKind(kind) || !isMatKind(kind) {
		sh[1] = 1
	}
	v := gVar("v")
	gCoeff = 1
	c := ndChoose("arb", sh[0]*sh[1])
	a := gGrid(kind, "a", sh[0], sh[1], 100, func(i, j int) bool { return i*sh[1]+j == c }).(symbolic.Expression)
	k := keep(a)
	if p := guarded(func() { c09unary(op, a, v) }); p != nil && isCrash(p) {
		return
	}
	k.check("an operation")
	ndReach("end")
}
func H_C09_wide_binary() {
	op := ndChoose("op", 3)
	kinds := append(append(append([]int{}, scalars...), vectors...), matrices...)
	ka, kb := kinds[ndChoose("ka", 12)], []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp, kKMat, kVMat, kMMat, kPMat, kDen, kDenp}[ndChoose("kb", 16)]
	n, m := 2, 2+ndChoose("m", 2)
	c := m
	if isVecKind(ka) {
		c = 1
	}
	gCoeff = 1
	a := gGrid(ka, "a", n, c, 100, func(i, j int) bool { return i+j == 1 }).(symbolic.Expression)
	r := n
	if op == opMul && isMatKind(ka) {
		r = c
	}
	b := gGrid(kb, "b", r, m, 101, nil)
	k := keep(a, b)
	guarded(func() {
		res := apply(op, a, b)
		k.check("an operation")
		// the operands have nothing in common with the result
		k.add(res)
		if e, ok := res.(symbolic.Expression); ok {
			e.Multiply(symbolic.K(3))
			e.Transpose().AsSimplifiedExpression()
			e.DerivativeWrt(gVarID(101))
		}
	})
	k.check("an operation")
	ndReach("end")
}

// large operands
func H_C09_big_unary() {
	a := chooseBig("a")
	op := ndChoose("op", nUnary)
	if op == 7 && termsOf(a) > 8 {
		return
	}
	v := X(ndChoose("v", 4))
	k := keep(a)
	c09unary(op, a, v)
	k.check("an operation")
	ndReach("end")
}
func H_C09_big_binary() {
	a, b := chooseBig("a"), bigScalar("b", bigFew[ndChoose("b", len(bigFew))])
	op := ndChoose("op", 3)
	if termsOf(a)*termsOf(b) > []int{60, 60, 18}[op] {
		return // slow
	}
	k := keep(a, b)
	r := apply(op, a, b)
	k.check("an operation")
	k.add(r)
	x := r.(symbolic.Expression)
	x.AsSimplifiedExpression()
	x.DerivativeWrt(X(2))
	x.Plus(X(0))
	if ndTier() == 1 {
		x.Multiply(X(3))
	}
	k.check("an operation on the result")
	ndReach("end")
}

// bigPrefix: a and b are kept in one array; b is the larger one
func bigPrefix(kind, arb int) (a, b symbolic.Expression) {
	r, c := 4, 1
	if isMatKind(kind) {
		r, c = 3, 3
	}
	b = bigAny(kind, "b", r, c, arb)
	switch x := b.(type) {
	case symbolic.KVector:
		return x[:3], b
	case symbolic.VariableVector:
		return x[:3], b
	case symbolic.MonomialVector:
		return x[:3], b
	case symbolic.PolynomialVector:
		return x[:3], b
	case symbolic.KMatrix:
		return symbolic.KMatrix{x[0][:2], x[1][:2]}, b
	case symbolic.VariableMatrix:
		return symbolic.VariableMatrix{x[0][:2], x[1][:2]}, b
	case symbolic.MonomialMatrix:
		return symbolic.MonomialMatrix{x[0][:2], x[1][:2]}, b
	}
	x := b.(symbolic.PolynomialMatrix)
	return symbolic.PolynomialMatrix{x[0][:2], x[1][:2]}, b
}
func H_C09_big_prefix() {
	kind := append(append([]int{}, vectors...), matrices...)[ndChoose("kind", 8)]
	a, b := bigPrefix(kind, ndChoose("arb", 2))
	op := ndChoose("op", nUnary+4)
	v := X(ndChoose("v", 4))
	k := keep(a, b)
	switch {
	case op < nUnary:
		if p := guarded(func() { c09unary(op, a, v) }); p != nil && isCrash(p) {
			return
		}
	case op == nUnary:
		guarded(func() { a.Plus(a) })
		guarded(func() { a.Plus(v) })
	case op == nUnary+1:
		guarded(func() { a.Minus(a) })
	case op == nUnary+2:
		a.Multiply(symbolic.K(2))
	default:
		guarded(func() {
			c := a.Comparison(a, symbolic.SenseEqual)
			c.AsSimplifiedConstraint()
			symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{c})
		})
	}
	k.check("an operation on a part of a vector or matrix")
	ndReach("end")
}

// many entries
func H_C09_tall() {
	k, op := chooseShaped("kind"), ndChoose("op", nUnary+2)
	a := bigTallOne("a", k, k+op)
	b := sibling(a).(symbolic.Expression)
	kept := keep(a, b)
	if op < nUnary {
		c09unary(op, a, X(0))
	} else if op == nUnary {
		guarded(func() { a.Plus(b) })
	} else {
		guarded(func() { a.Minus(b) })
	}
	kept.check("an operation on many entries")
	ndReach("end")
}

// lists that are given to an operation: with repetitions, with spare room
// behind them, and used again afterwards
func H_C09_lists() {
	v := gVar("v")
	vars := append(make([]symbolic.Variable, 0, 8), X(0), X(0), X(1), v, X(2), X(1), v)
	room := vars[:8]
	room[7] = X(5)
	list := vars[:5+ndChoose("n", 3)]
	ids := append(make([]uint64, 0, 8), 3, 3, v.ID, 1, 3, 7)
	es := append(make([]symbolic.ScalarExpression, 0, 8), X(0), bigMono(ndFloat("c"), 3), X(1), symbolic.K(2), X(0))
	blocks := append(make([]symbolic.Expression, 0, 8), symbolic.VariableVector{X(0), X(1)}, symbolic.KVector{1, 2}, symbolic.VariableVector{X(2), v})
	rows := append(make([][]symbolic.ScalarExpression, 0, 4), es[:2], es[2:4])
	p := bigPoly("p", 5, 0)
	cs := append(make([]symbolic.Constraint, 0, 4), X(0).LessEq(p), symbolic.VariableVector{X(0), v}.GreaterEq(symbolic.KVector{1, 2}), X(3).Eq(1.0))
	m := map[symbolic.Variable]symbolic.Expression{X(0): X(1), v: symbolic.K(3)}
	k := keep(symbolic.VariableVector(room), p)
	for _, e := range es {
		k.add(e)
	}
	for _, e := range blocks {
		k.add(e)
	}
	for _, c := range cs {
		k.add(c.Left(), c.Right())
	}
	lin := symbolic.VariableVector{X(0), v, X(2)}
	k.add(lin)
	var esWas, blocksWas, csWas []RM
	for _, e := range es {
		esWas = append(esWas, refM(e))
	}
	for _, e := range blocks {
		blocksWas = append(blocksWas, refM(e))
	}
	for _, c := range cs {
		csWas = append(csWas, refM(c.Left()))
	}
	guarded(func() {
		switch ndChoose("op", 18) {
		case 0:
			symbolic.UniqueVars(list)
		case 1:
			symbolic.UnionOfVariables(list, []symbolic.Variable{X(4)}, list)
		case 2:
			symbolic.Unique(ids)
		case 3:
			symbolic.FindInSlice(v, list)
		case 4:
			p.LinearCoeff(list)
		case 5:
			lin.LinearCoeff(list)
		case 6:
			X(0).LessEq(v).(symbolic.ScalarConstraint).LinearInequalityConstraintRepresentation(list)
		case 7:
			lin.LessEq(symbolic.KVector{1, 2, 3}).(symbolic.VectorConstraint).LinearInequalityConstraintRepresentation(list)
		case 8:
			symbolic.VStack(blocks...)
		case 9:
			symbolic.HStack(blocks...)
		case 10:
			symbolic.ConcretizeVectorExpression(es)
		case 11:
			symbolic.ConcretizeMatrixExpression(rows)
		case 12:
			symbolic.CompileConstraintsIntoScalarConstraints(cs)
		case 13:
			p.SubstituteAccordingTo(m)
		case 14:
			symbolic.CheckSubstitutionMap(m)
		case 15:
			symbolic.VariableVector(list).Variables()
			symbolic.VariableVector(list).Plus(symbolic.VariableVector(list))
		case 16:
			symbolic.MonomialVector{bigMono(1, 3), bigMono(2, 1)}.LinearCoeff(list)
			X(0).LinearCoeff(list)
			bigMono(1, 1).LinearCoeff(list)
		default:
			symbolic.VariableMatrix{list[:2], list[2:4]}.Variables()
			symbolic.VariableMatrix{list[:2], list[2:4]}.Transpose()
		}
	})
	k.check("an operation on a list")
	for i, e := range es[:8] {
		ndAssert(i < 5 || e == nil, "an operation on a list wrote behind it")
		ndAssert(i >= 5 || e != nil && refM(e).eq(esWas[min(i, 4)]), "an operation on a list changed it")
	}
	for i, e := range blocks[:8] {
		ndAssert(i < 3 || e == nil, "stacking wrote behind the list of blocks")
		ndAssert(i >= 3 || e != nil && refM(e).eq(blocksWas[min(i, 2)]), "stacking changed the list of blocks")
	}
	for i, c := range cs {
		ndAssert(refM(c.Left()).eq(csWas[i]), "splitting constraints changed the list of them")
	}
	for i, w := range []uint64{3, 3, v.ID, 1, 3, 7} {
		ndAssert(ids[i] == w, "an operation on a list of numbers changed it")
	}
	ndAssert(len(m) == 2, "an operation changed the map of a substitution")
	_, here := m[X(0)]
	ndAssert(here, "an operation changed the map of a substitution")
	ndReach("end")
}
