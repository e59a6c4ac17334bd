package main

import (
	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// c16shapes: one operation between every pair of kinds and shapes, compatible
// or not. The variables of the two operands are the same ones, and the first
// coefficient of each is arbitrary, so that terms may merge and cancel.
func c16shapes(op int, kinds []int) {
	ka := kinds[ndChoose("ka", len(kinds))]
	kb := ndChoose("kb", uEnd)
	sa := shapesOf(ka)[ndChoose("sa", len(shapesOf(ka)))]
	sb := shapesOf(kb)[ndChoose("sb", len(shapesOf(kb)))]
	gCoeff = 1
	first := func(i, j int) bool { return i == 0 && j == 0 }
	a := gGrid(ka, "a", sa[0], sa[1], 1, first).(symbolic.Expression)
	var b any
	switch {
	case kb >= kCount:
		b = gUnsupported(kb)
	case kb == kInt:
		b = ndInt("b", -3, 3)
	default:
		b = gGrid(kb, "b", sb[0], sb[1], 1, first)
	}
	noCrash(binaryName[op]+" of "+kindName(a)+" and "+kindName(b), func() {
		r := binary(op, a, b)
		ndAssert(r != nil, "no result")
	})
	ndReach("end")
}

func H_C16_shapes_plus_vectors() {
	c16shapes(0, []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec})
}
func H_C16_shapes_plus_matrices() { c16shapes(0, []int{kKMat, kVMat, kMMat, kPMat}) }
func H_C16_shapes_minus_vectors() {
	c16shapes(1, []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec})
}
func H_C16_shapes_minus_matrices() { c16shapes(1, []int{kKMat, kVMat, kMMat, kPMat}) }
func H_C16_shapes_times_vectors() {
	c16shapes(2, []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec})
}
func H_C16_shapes_times_matrices() { c16shapes(2, []int{kKMat, kVMat, kMMat, kPMat}) }
func H_C16_shapes_compare_vectors() {
	c16shapes(3+ndChoose("op", 3), []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec})
}
func H_C16_shapes_compare_matrices() {
	c16shapes(3+ndChoose("op", 3), []int{kKMat, kVMat, kMMat, kPMat})
}

// one operation on a scalar expression of any shape
func H_C16_scalar_unary() {
	op := ndChoose("op", unaryOps)
	a := gDegScalar("a", ndChoose("shape", degScalars-1+ndTier()), -1, 2)
	v := gVar("v")
	noCrash("operation "+dig2(op)+" on "+kindName(a), func() { unary(op, a, v) })
	ndReach("end")
}

// sums, products and comparisons of unsimplified scalar expressions
func H_C16_scalar_binary() {
	op := ndChoose("op", 4)
	n := 6 + ndTier()
	a := gDegScalar("a", ndChoose("sa", n), 0, 2)
	b := gDegScalar("b", ndChoose("sb", n), 0, 2)
	noCrash(binaryName[op]+" of "+kindName(a)+" and "+kindName(b), func() { binary(op, a, b) })
	ndReach("end")
}

// two operations in a row: the result of the first may have collapsed
func H_C16_scalar_chain() {
	op := ndChoose("op", 3)
	op2 := ndChoose("op2", unaryOps)
	a := gDegScalar("a", ndChoose("sa", 4), 0, 2)
	b := gDegScalar("b", ndChoose("sb", 4), 0, 2)
	v := gVar("v")
	noCrash(binaryName[op]+" of "+kindName(a)+" and "+kindName(b)+", then operation "+dig2(op2), func() {
		unary(op2, binary(op, a, b).(symbolic.Expression), v)
	})
	ndReach("end")
}

func c16unary(kinds []int) {
	k := kinds[ndChoose("k", len(kinds))]
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	op := ndChoose("op", unaryOps)
	rich := ndChoose("rich", s[0]*s[1])
	a := gDegAny(k, "a", s[0], s[1], rich)
	v := gVar("v")
	noCrash("operation "+dig2(op)+" on "+kindName(a), func() { unary(op, a, v) })
	ndReach("end")
}

// gDegAny: entry number rich is arbitrary, even unsimplified; the others are
// fixed.
func gDegAny(k int, name string, r, c, rich int) symbolic.Expression {
	one := func(i, j int) bool { return i*c+j == rich }
	gCoeff = 1
	a := gGrid(k, name, r, c, 1, one).(symbolic.Expression)
	i, j := rich/c, rich%c
	switch x := a.(type) {
	case symbolic.VariableVector:
		x[i] = gVar(name)
	case symbolic.MonomialVector:
		x[i] = gDegMono(name+"m", ndChoose(name+"n", 2), 0, 2)
	case symbolic.PolynomialVector:
		x[i] = gDegPoly(name+"p", 0, 2, [][]int{{0}, {1}, {1, 0}}[ndChoose(name+"n", 3)]...)
	case symbolic.VariableMatrix:
		x[i][j] = gVar(name)
	case symbolic.MonomialMatrix:
		x[i][j] = gDegMono(name+"m", ndChoose(name+"n", 2), 0, 2)
	case symbolic.PolynomialMatrix:
		x[i][j] = gDegPoly(name+"p", 0, 2, [][]int{{0}, {1}, {1, 0}}[ndChoose(name+"n", 3)]...)
	}
	return a
}

func H_C16_vector_unary() { c16unary([]int{kKVec, kVVec, kMVec, kPVec}) }
func H_C16_matrix_unary() { c16unary([]int{kKMat, kVMat, kMMat, kPMat}) }

// indices: any numbers
func H_C16_indices() {
	k := exprKinds[ndChoose("k", len(exprKinds))]
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	gCoeff = 1
	a := gGrid(k, "a", s[0], s[1], 1, nil).(symbolic.Expression)
	i, j := ndInt("i", -5, 5), ndInt("j", -5, 5)
	noCrash("At of "+kindName(a), func() { a.At(i, j) })
	if x, ok := a.(symbolic.VectorExpression); ok {
		noCrash("AtVec of "+kindName(a), func() { x.AtVec(i) })
		c := symbolic.VectorConstraint{LeftHandSide: x, RightHandSide: x, Sense: symbolic.SenseEqual}
		noCrash("AtVec of a constraint", func() { c.AtVec(i) })
	}
	if x, ok := a.(symbolic.MatrixExpression); ok {
		c := symbolic.MatrixConstraint{LeftHandSide: x, RightHandSide: x, Sense: symbolic.SenseEqual}
		noCrash("At of a constraint", func() { c.At(i, j) })
	}
	ndReach("end")
}

// stacking: any two things
func H_C16_stack() {
	ka, kb := exprKinds[ndChoose("ka", len(exprKinds))], exprKinds[ndChoose("kb", len(exprKinds))]
	sa := shapesOf(ka)[ndChoose("sa", len(shapesOf(ka)))]
	sb := shapesOf(kb)[ndChoose("sb", len(shapesOf(kb)))]
	gCoeff = 1
	first := func(i, j int) bool { return i == 0 && j == 0 }
	a := gGrid(ka, "a", sa[0], sa[1], 1, first).(symbolic.Expression)
	b := gGrid(kb, "b", sb[0], sb[1], 20, first).(symbolic.Expression)
	noCrash("HStack of "+kindName(a)+" and "+kindName(b), func() { symbolic.HStack(a, b) })
	noCrash("VStack of "+kindName(a)+" and "+kindName(b), func() { symbolic.VStack(a, b) })
	ndReach("end")
}

// constraint operations on any two sides
func c16constraint(op int, c symbolic.Constraint, o symbolic.Constraint, v symbolic.Variable) {
	switch op {
	case 0:
		c.AsSimplifiedConstraint()
	case 1:
		c.IsLinear()
		c.Variables()
		c.Check()
		symbolic.VariablesInThisConstraint(c)
	case 2:
		c.Substitute(v, symbolic.K(ndFloat("by")))
	case 3:
		c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: gVar("by")})
		c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{})
	case 4:
		c.ImpliesThisIsAlsoSatisfied(o)
	case 5:
		symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{c, o})
	case 6:
		switch x := c.(type) {
		case symbolic.ScalarConstraint:
			x.LinearInequalityConstraintRepresentation()
		case symbolic.VectorConstraint:
			x.LinearInequalityConstraintRepresentation()
		}
	case 7:
		switch x := c.(type) {
		case symbolic.ScalarConstraint:
			x.LinearEqualityConstraintRepresentation()
		case symbolic.VectorConstraint:
			x.LinearEqualityConstraintRepresentation()
		}
	case 8:
		switch x := c.(type) {
		case symbolic.ScalarConstraint:
			x.LinearInequalityConstraintRepresentation([]symbolic.Variable{v})
		case symbolic.VectorConstraint:
			x.LinearInequalityConstraintRepresentation([]symbolic.Variable{v})
		}
	case 9:
		if x, ok := c.(symbolic.ScalarConstraint); ok {
			x.ScaleBy(ndFloat("f"))
			x.Simplify()
			x.IsNonnegativityConstraint()
			_ = x.String()
		}
	}
}

const c16constraintOps = 10

func H_C16_scalar_constraint() {
	op := ndChoose("op", c16constraintOps)
	a := gDegScalar("a", ndChoose("sa", 6), 0, 2)
	b := gDegScalar("b", ndChoose("sb", 2+2*ndTier()), 0, 2)
	c := symbolic.ScalarConstraint{LeftHandSide: a, RightHandSide: b, Sense: senses[ndChoose("s", 3)]}
	v := gVar("v")
	var o symbolic.Constraint = v.LessEq(ndFloat("o"))
	if ndChoose("o", 2) == 1 {
		o = symbolic.VectorConstraint{LeftHandSide: symbolic.VariableVector{v}, RightHandSide: symbolic.KVector{gK("o")}, Sense: symbolic.SenseLessThanEqual}
	}
	noCrash("operation "+dig2(op)+" on a scalar constraint", func() { c16constraint(op, c, o, v) })
	ndReach("end")
}

func H_C16_vector_constraint() {
	op := ndChoose("op", c16constraintOps-1)
	n, m := 1+ndChoose("n", 2), 1+ndChoose("m", 2)
	gCoeff = 1
	ka, kb := vecKinds[ndChoose("ka", 4)], vecKinds[ndChoose("kb", 4)]
	first := func(i, j int) bool { return i == 0 }
	a := gGrid(ka, "a", n, 1, 1, first).(symbolic.VectorExpression)
	b := gGrid(kb, "b", m, 1, 1, first).(symbolic.VectorExpression)
	c := symbolic.VectorConstraint{LeftHandSide: a, RightHandSide: b, Sense: senses[ndChoose("s", 3)]}
	v := gVar("v")
	var o symbolic.Constraint = v.LessEq(ndFloat("o"))
	if ndChoose("o", 2) == 1 {
		o = symbolic.VectorConstraint{LeftHandSide: symbolic.VariableVector{v}, RightHandSide: symbolic.KVector{gK("o")}, Sense: symbolic.SenseLessThanEqual}
	}
	noCrash("operation "+dig2(op)+" on a vector constraint", func() { c16constraint(op, c, o, v) })
	ndReach("end")
}

func H_C16_matrix_constraint() {
	op := ndChoose("op", 6)
	sh := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}}
	sa, sb := sh[ndChoose("sa", 4)], sh[ndChoose("sb", 4)]
	gCoeff = 1
	ka, kb := matrices[ndChoose("ka", 4)], matrices[ndChoose("kb", 4)]
	first := func(i, j int) bool { return i == 0 && j == 0 }
	a := gGrid(ka, "a", sa[0], sa[1], 1, first).(symbolic.MatrixExpression)
	b := gGrid(kb, "b", sb[0], sb[1], 1, first).(symbolic.MatrixExpression)
	c := symbolic.MatrixConstraint{LeftHandSide: a, RightHandSide: b, Sense: senses[ndChoose("s", 3)]}
	v := gVar("v")
	var o symbolic.Constraint = v.LessEq(ndFloat("o"))
	if ndChoose("o", 2) == 1 {
		o = symbolic.MatrixConstraint{LeftHandSide: symbolic.VariableMatrix{{v}}, RightHandSide: symbolic.KMatrix{{gK("o")}}, Sense: symbolic.SenseLessThanEqual}
	}
	noCrash("operation "+dig2(op)+" on a matrix constraint", func() { c16constraint(op, c, o, v) })
	ndReach("end")
}

// recognition and conversion of anything at all
func H_C16_recognise() {
	k := ndChoose("k", uEnd)
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	gCoeff = 1
	var a any
	switch {
	case k >= kCount:
		a = gUnsupported(k)
	case k == kInt:
		a = ndInt("a", -3, 3)
	default:
		a = gGrid(k, "a", s[0], s[1], 1, func(i, j int) bool { return i == 0 })
	}
	what := "with " + kindName(a)
	noCrash("Is... "+what, func() {
		symbolic.IsExpression(a)
		symbolic.IsScalarExpression(a)
		symbolic.IsVectorExpression(a)
		symbolic.IsMatrixExpression(a)
		symbolic.IsPolynomialLike(a)
		symbolic.IsPolynomialLikeScalar(a)
		symbolic.IsPolynomialLikeVector(a)
		symbolic.IsPolynomialLikeMatrix(a)
		symbolic.IsConstraint(a)
	})
	noCrash("ToExpression "+what, func() { symbolic.ToExpression(a) })
	noCrash("ToScalarExpression "+what, func() { symbolic.ToScalarExpression(a) })
	noCrash("ToVectorExpression "+what, func() { symbolic.ToVectorExpression(a) })
	noCrash("ToMatrixExpression "+what, func() { symbolic.ToMatrixExpression(a) })
	noCrash("ToPolynomialLike "+what, func() { symbolic.ToPolynomialLike(a) })
	noCrash("ToPolynomialLikeScalar "+what, func() { symbolic.ToPolynomialLikeScalar(a) })
	noCrash("ToPolynomialLikeVector "+what, func() { symbolic.ToPolynomialLikeVector(a) })
	noCrash("ToPolynomialLikeMatrix "+what, func() { symbolic.ToPolynomialLikeMatrix(a) })
	noCrash("ConcretizeExpression "+what, func() { symbolic.ConcretizeExpression(a) })
	noCrash("getKVector.From "+what, func() { getKVector.From(a) })
	noCrash("getKMatrix.From "+what, func() { getKMatrix.From(a) })
	ndReach("end")
}

// construction from slices of any shape
func H_C16_construct() {
	n := ndChoose("n", 4)
	ragged := ndChoose("ragged", 3)
	var ses []symbolic.ScalarExpression
	var fs []float64
	var es []symbolic.Expression
	var rows [][]symbolic.ScalarExpression
	var frows [][]float64
	for i := 0; i < n; i++ {
		e := gDegScalar("e"+dig(i), ndChoose("s"+dig(i), 4), 0, 1)
		ses, es, fs = append(ses, e), append(es, e), append(fs, ndFloat("f"+dig(i)))
	}
	for i := 0; i < n; i++ {
		m := 2
		if ragged == 1 && i == n-1 {
			m = 1
		}
		if ragged == 2 {
			m = 0
		}
		var r []symbolic.ScalarExpression
		var f []float64
		for j := 0; j < m; j++ {
			r, f = append(r, ses[(i+j)%n]), append(f, fs[(i+j)%n])
		}
		rows, frows = append(rows, r), append(frows, f)
	}
	noCrash("ConcretizeExpression of scalars", func() { symbolic.ConcretizeExpression(ses) })
	noCrash("ConcretizeVectorExpression", func() { symbolic.ConcretizeVectorExpression(ses) })
	noCrash("ConcretizeExpression of rows", func() { symbolic.ConcretizeExpression(rows) })
	noCrash("ConcretizeMatrixExpression", func() { symbolic.ConcretizeMatrixExpression(rows) })
	noCrash("getKVector.From", func() { getKVector.From(fs) })
	noCrash("getKMatrix.From", func() { getKMatrix.From(frows) })
	noCrash("HStack", func() { symbolic.HStack(es...) })
	noCrash("VStack", func() { symbolic.VStack(es...) })
	ndReach("end")
}

// empty and ragged collections
func c16malformed(k int) symbolic.Expression {
	v, m := gVar("v"), gDegMono("m", 1, 0, 2)
	p := symbolic.Polynomial{Monomials: []symbolic.Monomial{m}}
	switch k {
	case 0:
		return symbolic.KVector{}
	case 1:
		return symbolic.VariableVector{}
	case 2:
		return symbolic.MonomialVector{}
	case 3:
		return symbolic.PolynomialVector{}
	case 4:
		return symbolic.KMatrix{}
	case 5:
		return symbolic.VariableMatrix{}
	case 6:
		return symbolic.MonomialMatrix{}
	case 7:
		return symbolic.PolynomialMatrix{}
	case 8:
		return symbolic.KMatrix{{1, 2}, {gK("k")}}
	case 9:
		return symbolic.VariableMatrix{{v, v}, {v}}
	case 10:
		return symbolic.MonomialMatrix{{m}, {m, m}}
	case 11:
		return symbolic.PolynomialMatrix{{p}, {p, p}}
	case 12:
		return symbolic.Polynomial{}
	case 13:
		return symbolic.Monomial{Coefficient: ndFloat("c"), VariableFactors: []symbolic.Variable{v}}
	case 14:
		return symbolic.Monomial{Coefficient: ndFloat("c"), Exponents: []int{1, 2}}
	case 15:
		return symbolic.Polynomial{Monomials: []symbolic.Monomial{m, {Coefficient: ndFloat("c"), VariableFactors: []symbolic.Variable{v}}}}
	case 16:
		return symbolic.KMatrix{{}, {}}
	}
	v.Lower, v.Upper = ndFloat("hi"), ndFloat("lo")
	ndAssume(v.Lower >= v.Upper)
	return v
}

const c16malformedKinds = 18

var _ = mat.NewDense

// large operands, which may cancel entirely
func H_C16_big_unary() {
	op := ndChoose("op", unaryOps)
	a := chooseBig("a")
	if op == 9 && termsOf(a) > 8 {
		return // slow
	}
	v := X(ndChoose("v", 3))
	noCrash("operation "+dig2(op)+" on "+kindName(a), func() { unary(op, a, v) })
	ndReach("end")
}
func H_C16_big_binary() {
	op := ndChoose("op", 4)
	few := bigFew
	if ndTier() == 0 {
		few = []int{0, 1, 5, 10, 30}
	}
	a, b := bigScalar("a", bigFew[ndChoose("a", len(bigFew))]), bigScalar("b", few[ndChoose("b", len(few))])
	op2 := 0
	if op < 3 {
		op2 = ndChoose("op2", 5)
		if op == 2 && (ndTier() == 0 && op2 > 1 || termsOf(a)*termsOf(b) > 40) {
			return
		}
	}
	v := X(1)
	noCrash(binaryName[op]+" of "+kindName(a)+" and "+kindName(b)+", then operation "+dig2(op2), func() {
		r := binary(op, a, b)
		e, ok := r.(symbolic.Expression)
		if !ok {
			r.(symbolic.Constraint).AsSimplifiedConstraint()
			return
		}
		switch op2 {
		case 0:
			unary(0, e, v)
			unary(1, e, v)
		case 1:
			unary(18, e, v)
			unary(14, e, v)
		case 2:
			unary(3, e, v)
		case 3:
			unary(6, e, v)
			unary(10, e, v)
		case 4:
			e.Minus(e)
		}
	})
	ndReach("end")
}

// what is left when everything cancels
func H_C16_big_cancel() {
	a := chooseBig("a")
	op := ndChoose("op", unaryOps)
	v := X(0)
	way := ndChoose("way", 4)
	noCrash("operation "+dig2(op)+" on something that cancels", func() {
		var r symbolic.Expression
		switch way {
		case 0:
			r = a.Minus(a)
		case 1:
			r = a.Multiply(0.0)
		case 2:
			r = a.Plus(a.Multiply(-1.0))
		default:
			r = a.Multiply(symbolic.Monomial{Coefficient: 0, VariableFactors: Xs(1), Exponents: []int{1}})
		}
		unary(op, r, v)
	})
	ndReach("end")
}
func H_C16_big_shapes() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 3, 1
	if isMatKind(k) {
		r, c = 2, 3
		if ndChoose("square", 2) == 1 {
			r, c = 2, 2
		}
	}
	i := ndChoose("arb", r*c)
	if ndTier() == 0 && i != 0 && i != r*c-1 {
		return
	}
	a := bigAny(k, "a", r, c, i)
	op := ndChoose("op", unaryOps)
	v := X(0)
	zero := ndChoose("zero", 4)
	if zero == 3 {
		noCrash("operation "+dig2(op)+" on "+kindName(a), func() { unary(op, a, v) })
		ndReach("end")
		return
	}
	noCrash("operation "+dig2(op)+" on a vector or matrix that cancels", func() {
		var z symbolic.Expression
		switch zero {
		case 0:
			z = a.Minus(a)
		case 1:
			z = a.Multiply(0.0)
		default:
			z = a.Plus(1.0)
		}
		unary(op, z, v)
	})
	ndReach("end")
}
func H_C16_tall() {
	k, op := chooseShaped("kind"), ndChoose("op", unaryOps)
	var a symbolic.Expression
	if ndTier() > 0 {
		a = bigTall("a", k)
	} else {
		a = bigTallOne("a", k, k+op)
	}
	noCrash("operation "+dig2(op)+" on "+kindName(a), func() { unary(op, a, X(0)) })
	ndReach("end")
}
