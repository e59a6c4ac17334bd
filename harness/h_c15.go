package main

import (
	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// refusals
func isDimError(p any) bool {
	switch p.(type) {
	case smErrors.MatrixDimensionError, smErrors.VectorDimensionError:
		return true
	}
	return false
}
func isIndexError(p any) bool {
	switch p.(type) {
	case smErrors.InvalidMatrixIndexError, smErrors.InvalidVectorIndexError:
		return true
	}
	return false
}
func isUnsupported(p any) bool {
	_, ok := p.(smErrors.UnsupportedInputError)
	return ok
}
func isEmptyError(p any) bool {
	switch p.(type) {
	case smErrors.EmptyMatrixError, smErrors.EmptyVectorError:
		return true
	}
	return false
}

// refused: some error of the library, whichever
func refused(p any) bool {
	_, ok := p.(error)
	return ok && !crash(p)
}

// c15ok: which right operands each kind supports
var c15ok = []map[int][]int{
	{ // Plus
		kK:    {kFloat, kInt, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp, kKMat, kVMat, kMMat, kPMat},
		kVar:  {kFloat, kInt, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp},
		kMono: {kFloat, kK, kVar, kMono, kPoly},
		kPoly: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kKMat, kVMat, kMMat, kPMat},
		kKVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp},
		kVVec: {kFloat, kInt, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp},
		kMVec: {kFloat, kInt, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec},
		kPVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec},
		kKMat: {kFloat, kK, kVar, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
		kVMat: {kFloat, kK, kKMat, kVMat, kMMat, kPMat},
		kMMat: {kFloat, kK, kVar, kMono, kPoly, kKMat, kVMat, kMMat, kPMat},
		kPMat: {kFloat, kK, kVar, kMono, kPoly, kKMat, kVMat, kMMat, kPMat},
	},
	{ // Minus
		kK:    {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kKMat, kVMat, kMMat, kPMat, kDen},
		kVar:  {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD},
		kMono: {kFloat, kK, kVar, kMono, kPoly},
		kPoly: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kKMat, kVMat, kMMat, kPMat, kDen},
		kKVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD},
		kVVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD},
		kMVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD},
		kPVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD},
		kKMat: {kFloat, kK, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
		kVMat: {kFloat, kK, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
		kMMat: {kFloat, kK, kVar, kMono, kPoly, kKMat, kVMat, kMMat, kPMat, kDen},
		kPMat: {kFloat, kK, kVar, kMono, kPoly, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
	},
	{ // Multiply
		kK:    {kFloat, kInt, kK, kVar, kMono, kPoly},
		kVar:  {kFloat, kInt, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD},
		kMono: {kFloat, kInt, kK, kVar, kMono, kPoly},
		kPoly: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kKMat},
		kKVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kVecD},
		kVVec: {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec},
		kMVec: {kFloat, kK, kVar, kMono, kPoly},
		kPVec: {kFloat, kK, kPoly, kPVec},
		kKMat: {kFloat, kK, kPoly, kVVec, kVecDp, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
		kVMat: {kFloat, kK, kKVec, kVVec, kVecD, kVecDp, kKMat, kVMat, kMMat, kPMat, kDen, kDenp},
		kMMat: {kFloat, kK, kVVec, kKMat, kVMat, kMMat, kPMat},
		kPMat: {kFloat, kK, kVVec, kKMat, kVMat, kMMat, kPMat},
	},
}

func isScalKind(k int) bool { return k <= kPoly }

// c15fit: the shapes are compatible (1), incompatible (-1), or one of the
// operands is a vector or matrix with a single entry (0), which may be taken
// for a scalar or be refused.
func c15fit(op, ka, kb int, sa, sb [2]int) int {
	switch {
	case isScalKind(ka) || isScalKind(kb):
		return 1
	case op == opMul && sa[1] == sb[0]:
		return 1
	case op != opMul && sa == sb:
		return 1
	case sa == [2]int{1, 1} || sb == [2]int{1, 1}:
		return 0
	}
	return -1
}

// c15arith: one operation between any two things: supported and compatible
// ones are accepted, with the right value; others are refused with the
// documented error; nothing else.
func c15arith(op int, kinds []int) {
	ka := kinds[ndChoose("ka", len(kinds))]
	kb := ndChoose("kb", uEnd)
	sa := shapesOf(ka)[ndChoose("sa", len(shapesOf(ka)))]
	sb := shapesOf(kb)[ndChoose("sb", len(shapesOf(kb)))]
	gCoeff = 1
	first := func(i, j int) bool { return i == 0 && j == 0 }
	a := gGrid(ka, "a", sa[0], sa[1], 1, first).(symbolic.Expression)
	var b any
	switch {
	case kb >= kCount:
		b = gUnsupported(kb)
	case kb == kInt:
		b = ndInt("b", -3, 3)
	default:
		b = gGrid(kb, "b", sb[0], sb[1], 30, first)
	}
	what := binaryName[op] + " of " + kindName(a) + " and " + kindName(b)
	var r any
	p := guarded(func() { r = binary(op, a, b) })
	if kb >= kCount {
		ndAssert(isUnsupported(p), what+" is not refused with UnsupportedInputError")
		ndReach("end")
		return
	}
	fit := c15fit(op, ka, kb, sa, sb)
	ok := has(c15ok[op][ka], kb) && fit == 1
	// products of single-column things with vectors of one entry are supported
	// for a few kinds only
	if p == nil {
		ndAssert(fit >= 0, what+" of incompatible shapes is not refused")
		ra, rb := refM(a), refM(b)
		if fit == 0 {
			ra, rb = c15scalarLike(ra), c15scalarLike(rb)
			if op != opMul {
				R, C := ra.r*rb.r, ra.c*rb.c
				ra, rb = c15spread(ra, R, C), c15spread(rb, R, C)
			}
		}
		same(r, applyRef(op, ra, rb), what)
	} else {
		ndAssert(!ok, what+" of compatible operands is refused")
		if fit == -1 {
			ndAssert(isDimError(p), what+" of incompatible shapes is not refused with a dimension error")
		} else {
			ndAssert(isDimError(p) && fit == 0 || isUnsupported(p), what+" is refused with another error than the documented ones")
		}
	}
	ndReach("end")
}

// c15scalarLike marks a 1-by-1 matrix as a scalar
func c15scalarLike(m RM) RM { return m }

func c15spread(m RM, r, c int) RM {
	if m.r == r && m.c == c {
		return m
	}
	x := newRM(r, c)
	for i := range x.e {
		for j := range x.e[i] {
			x.e[i][j] = m.e[0][0]
		}
	}
	return x
}

var c15vecs = []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec}

func H_C15_plus_vectors()   { c15arith(opPlus, c15vecs) }
func H_C15_plus_matrices()  { c15arith(opPlus, matrices) }
func H_C15_minus_vectors()  { c15arith(opMinus, c15vecs) }
func H_C15_minus_matrices() { c15arith(opMinus, matrices) }
func H_C15_times_vectors()  { c15arith(opMul, c15vecs) }
func H_C15_times_matrices() { c15arith(opMul, matrices) }

// comparisons
var c15compare = map[int][]int{
	kK:    {kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kVecD, kVecDp},
	kVar:  {kFloat, kInt, kK, kVar, kMono, kPoly},
	kMono: {kFloat, kInt, kK, kVar, kMono, kPoly},
	kPoly: {kFloat, kInt, kK, kVar, kMono, kPoly},
	kKVec: {kFloat, kInt, kK, kKVec, kVVec, kMVec, kPVec, kVecD},
	kVVec: {kKVec, kVVec, kMVec, kPVec, kVecD},
	kMVec: {kFloat, kK, kKVec, kVVec, kMVec},
	kPVec: {kFloat, kK, kKVec, kVVec, kMVec, kPVec, kVecD},
}

func c15cmp(kinds []int) {
	op := 3 + ndChoose("op", 3)
	ka := kinds[ndChoose("ka", len(kinds))]
	kb := ndChoose("kb", uEnd)
	sa := shapesOf(ka)[ndChoose("sa", len(shapesOf(ka)))]
	sb := shapesOf(kb)[ndChoose("sb", len(shapesOf(kb)))]
	gCoeff = 1
	first := func(i, j int) bool { return i == 0 && j == 0 }
	a := gGrid(ka, "a", sa[0], sa[1], 1, first).(symbolic.Expression)
	var b any
	switch {
	case kb >= kCount:
		b = gUnsupported(kb)
	case kb == kInt:
		b = ndInt("b", -3, 3)
	default:
		b = gGrid(kb, "b", sb[0], sb[1], 30, first)
	}
	what := binaryName[op] + " of " + kindName(a) + " and " + kindName(b)
	var r any
	p := guarded(func() { r = binary(op, a, b) })
	fit := c15fit(opPlus, ka, kb, sa, sb)
	switch {
	case kb >= kCount:
		ndAssert(isUnsupported(p), what+" is not refused with UnsupportedInputError")
	case p == nil:
		ndAssert(fit == 1, what+" of incompatible shapes is not refused")
		c := r.(symbolic.Constraint)
		ndAssert(c.Check() == nil, what+" gives a malformed constraint")
		_ = c.Left()
		_ = c.Right()
	case has(c15compare[ka], kb):
		ndAssert(fit != 1, what+" of compatible operands is refused")
		ndAssert(isDimError(p), what+" of incompatible shapes is not refused with a dimension error")
	case fit == -1:
		ndAssert(isDimError(p), what+" of incompatible shapes is not refused with a dimension error")
	default:
		ndAssert(isUnsupported(p) || isDimError(p), what+" is refused with another error than the documented ones")
	}
	ndReach("end")
}
func H_C15_compare_vectors()  { c15cmp(c15vecs) }
func H_C15_compare_matrices() { c15cmp(matrices) }

// indices
func H_C15_indices() {
	k := exprKinds[ndChoose("k", len(exprKinds))]
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	gCoeff = 1
	a := gGrid(k, "a", s[0], s[1], 1, nil).(symbolic.Expression)
	i, j := ndInt("i", -5, 5), ndInt("j", -5, 5)
	in := ndAnd(ndAnd(i >= 0, i < s[0]), ndAnd(j >= 0, j < s[1]))
	inV := ndAnd(i >= 0, i < s[0])
	c15index("At of "+kindName(a), in, func() { a.At(i, j) })
	if x, ok := a.(symbolic.VectorExpression); ok {
		c15index("AtVec of "+kindName(a), inV, func() { x.AtVec(i) })
		c := symbolic.VectorConstraint{LeftHandSide: x, RightHandSide: x, Sense: symbolic.SenseEqual}
		c15index("AtVec of a constraint", inV, func() { c.AtVec(i) })
	}
	if x, ok := a.(symbolic.MatrixExpression); ok {
		c := symbolic.MatrixConstraint{LeftHandSide: x, RightHandSide: x, Sense: symbolic.SenseEqual}
		c15index("At of a constraint", in, func() { c.At(i, j) })
	}
	ndReach("end")
}
func c15index(what string, in bool, f func()) {
	p := guarded(f)
	if p == nil {
		ndAssert(in, what+" accepts an index out of range")
		return
	}
	ndAssert(ndNot(in), what+" refuses an index in range")
	ndAssert(isIndexError(p), what+" refuses an index with another error than the documented one")
}

// exponents
func H_C15_exponents() {
	k := exprKinds[ndChoose("k", len(exprKinds))]
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	gCoeff = 1
	a := gGrid(k, "a", s[0], s[1], 1, nil).(symbolic.Expression)
	n := ndInt("n", -1000, 3)
	if ndTier() == 0 && isMatKind(k) {
		ndAssume(n < 3)
	}
	p := guarded(func() { a.Power(n) })
	switch {
	case s[0] != s[1]:
		ndAssert(refused(p), "a power of "+kindName(a)+" that is not square is not refused")
	case p == nil:
		ndAssert(n >= 0, "a negative power of "+kindName(a)+" is not refused")
	default:
		ndAssert(n < 0, "a power of "+kindName(a)+" is refused")
		_, ok := p.(smErrors.NegativeExponentError)
		ndAssert(ok, "a negative power of "+kindName(a)+" is refused with another error than the documented one")
	}
	ndReach("end")
}

// stacking
func H_C15_stack() {
	ka, kb := exprKinds[ndChoose("ka", len(exprKinds))], exprKinds[ndChoose("kb", len(exprKinds))]
	sa := shapesOf(ka)[ndChoose("sa", len(shapesOf(ka)))]
	sb := shapesOf(kb)[ndChoose("sb", len(shapesOf(kb)))]
	gCoeff = 1
	first := func(i, j int) bool { return i == 0 && j == 0 }
	a := gGrid(ka, "a", sa[0], sa[1], 1, first).(symbolic.Expression)
	b := gGrid(kb, "b", sb[0], sb[1], 30, first).(symbolic.Expression)
	c15stack("HStack of "+kindName(a)+" and "+kindName(b), sa[0] == sb[0], func() { symbolic.HStack(a, b) })
	c15stack("VStack of "+kindName(a)+" and "+kindName(b), sa[1] == sb[1], func() { symbolic.VStack(a, b) })
	ndReach("end")
}
func c15stack(what string, fits bool, f func()) {
	p := guarded(f)
	if fits {
		ndAssert(p == nil, what+" of matching shapes is refused")
	} else {
		ndAssert(isDimError(p), what+" of shapes that do not match is not refused with a dimension error")
	}
}

// several blocks, one of which does not fit
func H_C15_stack_many() {
	vertical := ndChoose("vertical", 2) == 0
	n := 3 + ndChoose("n", 2)
	odd := ndChoose("odd", n+1) // n: all fit
	common, other := 1+ndChoose("common", 3), 1+ndChoose("other", 3)
	if common == other {
		return
	}
	k0, step := ndChoose("k0", 4), ndChoose("step", 4)
	var es []symbolic.Expression
	gCoeff = 1
	for i := 0; i < n; i++ {
		w := common
		if i == odd {
			w = other
		}
		k := matrices[(k0+step*i)%4]
		l := 1 + (i+k0)%2
		if step == 1 && l == 1 {
			k = vectors[(k0+i)%4]
			if w == 1 {
				k = scalars[(k0+i)%4]
			}
		}
		var b symbolic.Expression
		switch {
		case vertical && isMatKind(k):
			b = gGrid(k, "b"+dig(i), l, w, uint64(1+20*i), nil).(symbolic.Expression)
		case vertical:
			b = gGrid(k, "b"+dig(i), w, 1, uint64(1+20*i), nil).(symbolic.Expression).Transpose()
		case isMatKind(k):
			b = gGrid(k, "b"+dig(i), w, l, uint64(1+20*i), nil).(symbolic.Expression)
		default:
			b = gGrid(k, "b"+dig(i), w, 1, uint64(1+20*i), nil).(symbolic.Expression)
		}
		es = append(es, b)
	}
	if vertical {
		c15stack("VStack of several blocks", odd == n, func() { symbolic.VStack(es...) })
	} else {
		c15stack("HStack of several blocks", odd == n, func() { symbolic.HStack(es...) })
	}
	ndReach("end")
}

func H_C15_stack_nothing() {
	ndAssert(refused(guarded(func() { symbolic.HStack() })), "stacking nothing is not refused")
	ndAssert(refused(guarded(func() { symbolic.VStack() })), "stacking nothing is not refused")
	ndReach("end")
}

// malformed expressions
func c15malformed(k int) symbolic.Expression {
	v, m := gVar("v"), gDegMono("m", 1, 0, 2)
	p := symbolic.Polynomial{Monomials: []symbolic.Monomial{m}}
	bad := symbolic.Monomial{Coefficient: ndFloat("c"), VariableFactors: []symbolic.Variable{v}}
	badP := symbolic.Polynomial{Monomials: []symbolic.Monomial{m, bad}}
	w := v
	w.Lower, w.Upper = ndFloat("hi"), ndFloat("lo")
	switch k {
	case 0:
		return symbolic.MonomialVector{}
	case 1:
		return symbolic.PolynomialVector{}
	case 2:
		return symbolic.KMatrix{}
	case 3:
		return symbolic.VariableMatrix{}
	case 4:
		return symbolic.MonomialMatrix{}
	case 5:
		return symbolic.PolynomialMatrix{}
	case 6:
		return symbolic.KMatrix{{1, 2}, {gK("k")}}
	case 7:
		return symbolic.VariableMatrix{{v, v}, {v}}
	case 8:
		return symbolic.MonomialMatrix{{m}, {m, m}}
	case 9:
		return symbolic.PolynomialMatrix{{p}, {p, p}}
	case 10:
		return symbolic.Polynomial{}
	case 11:
		return bad
	case 12:
		return symbolic.Monomial{Coefficient: ndFloat("c"), Exponents: []int{1, 2}}
	case 13:
		return badP
	case 14:
		return symbolic.MonomialVector{m, bad}
	case 15:
		return symbolic.PolynomialVector{p, badP}
	case 16:
		return symbolic.MonomialMatrix{{m, bad}}
	case 17:
		return symbolic.PolynomialMatrix{{p}, {badP}}
	}
	ndAssume(w.Lower >= w.Upper)
	switch k {
	case 18:
		return w
	case 19:
		return symbolic.VariableVector{v, w}
	case 20:
		return symbolic.VariableMatrix{{v}, {w}}
	}
	return c15ragged((k-21)/6, (k-21)%6)
}

const c15malformedKinds = 21 + 4*6

// c15ragged: a matrix of the kind whose rows differ in length
func c15ragged(kind, shape int) symbolic.Expression {
	lens := [][]int{{1, 2}, {2, 1}, {2, 2, 1}, {2, 2, 3}, {2, 1, 2}, {1, 2, 2}}[shape]
	var km symbolic.KMatrix
	var vm symbolic.VariableMatrix
	var mm symbolic.MonomialMatrix
	var pm symbolic.PolynomialMatrix
	for _, n := range lens {
		var kr []symbolic.K
		var vr []symbolic.Variable
		var mr []symbolic.Monomial
		var pr []symbolic.Polynomial
		for j := 0; j < n; j++ {
			kr, vr = append(kr, symbolic.K(j+1)), append(vr, X(j))
			mr, pr = append(mr, X(j).ToMonomial()), append(pr, X(j).ToPolynomial())
		}
		km, vm, mm, pm = append(km, kr), append(vm, vr), append(mm, mr), append(pm, pr)
	}
	switch kind {
	case 0:
		return km
	case 1:
		return vm
	case 2:
		return mm
	}
	return pm
}

func H_C15_malformed_receiver() {
	a := c15malformed(ndChoose("a", c15malformedKinds))
	ndAssert(a.Check() != nil, "Check accepts a malformed "+kindName(a))
	op := ndChoose("op", binaryOps)
	kb := ndChoose("kb", uEnd)
	gCoeff = 1
	var b any
	switch {
	case kb >= kCount:
		b = gUnsupported(kb)
	case kb == kInt:
		b = 3
	default:
		b = gGrid(kb, "b", 1+ndChoose("n", 2), 1, 30, nil)
	}
	p := guarded(func() { binary(op, a, b) })
	ndAssert(refused(p), binaryName[op]+" does not refuse a malformed "+kindName(a))
	ndReach("end")
}

func H_C15_malformed_operand() {
	b := c15malformed(ndChoose("b", c15malformedKinds))
	op := ndChoose("op", binaryOps)
	ka := exprKinds[ndChoose("ka", len(exprKinds))]
	sa := shapesOf(ka)[ndChoose("sa", len(shapesOf(ka)))]
	gCoeff = 1
	a := gGrid(ka, "a", sa[0], sa[1], 30, nil).(symbolic.Expression)
	p := guarded(func() { binary(op, a, b) })
	ndAssert(refused(p), binaryName[op]+" of "+kindName(a)+" does not refuse a malformed "+kindName(b))
	ndReach("end")
}

// operations on one malformed expression; those that have nothing to do for the
// kind, and return the expression itself, are left out
func H_C15_malformed_unary() {
	a := c15malformed(ndChoose("a", c15malformedKinds))
	v := gVar("v")
	op := ndChoose("op", 8)
	_, isK := a.(symbolic.KMatrix)
	_, isV := a.(symbolic.Variable)
	_, isVV := a.(symbolic.VariableVector)
	_, isVM := a.(symbolic.VariableMatrix)
	if isK && (op == 1 || op == 2 || op == 6) || isV && (op == 3 || op == 5) || (isV || isVV || isVM) && op == 6 {
		ndReach("end")
		return
	}
	what := ""
	p := guarded(func() {
		switch op {
		case 0:
			what = "DerivativeWrt"
			a.DerivativeWrt(v)
		case 1:
			what = "Substitute"
			a.Substitute(v, symbolic.K(1))
		case 2:
			what = "SubstituteAccordingTo"
			a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: symbolic.K(1)})
		case 3:
			what = "Transpose"
			a.Transpose()
		case 4:
			what = "Power"
			a.Power(2)
		case 5:
			what = "String"
			_ = a.String()
		case 6:
			what = "AsSimplifiedExpression"
			a.AsSimplifiedExpression()
		case 7:
			what = "At"
			a.At(0, 0)
		}
	})
	ndAssert(refused(p), what+" does not refuse a malformed "+kindName(a))
	ndReach("end")
}

// questions asked of a malformed expression
func H_C15_malformed_query() {
	a := c15malformed(ndChoose("a", c15malformedKinds))
	v := gVar("v")
	type Q struct {
		what string
		f    func()
	}
	qs := []Q{}
	q := func(what string, f func()) { qs = append(qs, Q{what, f}) }
	switch x := a.(type) {
	case symbolic.Variable:
		q("LinearCoeff", func() { x.LinearCoeff() })
	case symbolic.Monomial:
		q("Degree", func() { x.Degree() })
		q("LinearCoeff", func() { x.LinearCoeff() })
		q("IsConstant", func() { x.IsConstant() })
		q("IsZero", func() { x.IsZero() })
		q("IsVariable", func() { x.IsVariable(v) })
		q("IsDegreeOneContainingVariable", func() { x.IsDegreeOneContainingVariable(v) })
		q("MatchesFormOf", func() { x.MatchesFormOf(v.ToMonomial()) })
		q("MatchesFormOf the other way round", func() { v.ToMonomial().MatchesFormOf(x) })
		q("ToVariable", func() { x.ToVariable() })
		q("MonomialIndex", func() { v.ToPolynomial().MonomialIndex(x) })
	case symbolic.Polynomial:
		q("Constant", func() { x.Constant() })
		q("Degree", func() { x.Degree() })
		q("LinearCoeff", func() { x.LinearCoeff() })
		q("IsConstant", func() { x.IsConstant() })
		q("IsLinear", func() { symbolic.IsLinear(x) })
		q("ConstantMonomialIndex", func() { x.ConstantMonomialIndex() })
		q("VariableMonomialIndex", func() { x.VariableMonomialIndex(v) })
		q("MonomialIndex", func() { x.MonomialIndex(v.ToMonomial()) })
		q("Simplify", func() { x.Simplify() })
	case symbolic.MonomialVector:
		q("Constant", func() { x.Constant() })
		q("Variables", func() { x.Variables() })
		q("Degree", func() { x.Degree() })
		q("LinearCoeff", func() { x.LinearCoeff() })
		q("IsConstant", func() { x.IsConstant() })
		q("AtVec", func() { x.AtVec(0) })
		q("ToPolynomialVector", func() { x.ToPolynomialVector() })
	case symbolic.PolynomialVector:
		q("Constant", func() { x.Constant() })
		q("Degree", func() { x.Degree() })
		q("LinearCoeff", func() { x.LinearCoeff() })
		q("AtVec", func() { x.AtVec(0) })
		q("Len", func() { x.Len() })
		q("Length", func() { x.Length() })
		q("Simplify", func() { x.Simplify() })
	case symbolic.VariableVector:
		q("LinearCoeff", func() { x.LinearCoeff() })
		q("ToMonomialVector", func() { x.ToMonomialVector() })
		q("ToPolynomialVector", func() { x.ToPolynomialVector() })
	case symbolic.KMatrix:
		q("Dims", func() { x.Dims() })
		q("ToMonomialMatrix", func() { x.ToMonomialMatrix() })
		q("ToPolynomialMatrix", func() { x.ToPolynomialMatrix() })
		q("Constant", func() { x.Constant() })
	case symbolic.VariableMatrix:
		q("Dims", func() { x.Dims() })
		q("Variables", func() { x.Variables() })
		q("ToMonomialMatrix", func() { x.ToMonomialMatrix() })
		q("ToPolynomialMatrix", func() { x.ToPolynomialMatrix() })
		q("Constant", func() { x.Constant() })
	case symbolic.MonomialMatrix:
		q("Dims", func() { x.Dims() })
		q("Variables", func() { x.Variables() })
		q("Constant", func() { x.Constant() })
		q("Degree", func() { x.Degree() })
	case symbolic.PolynomialMatrix:
		q("Dims", func() { x.Dims() })
		q("Variables", func() { x.Variables() })
		q("Constant", func() { x.Constant() })
		q("Degree", func() { x.Degree() })
		q("Simplify", func() { x.Simplify() })
	}
	one := qs[ndChoose("query", len(qs))]
	ndAssert(refused(guarded(one.f)), one.what+" does not refuse a malformed "+kindName(a))
	ndReach("end")
}

// malformed things substituted, differentiated by or put on a side of a constraint
func H_C15_malformed_argument() {
	k := exprKinds[ndChoose("k", len(exprKinds))]
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	gCoeff = 1
	a := gGrid(k, "a", s[0], s[1], 1, nil).(symbolic.Expression)
	v := gVar("v")
	w := v
	w.Lower, w.Upper = ndFloat("hi"), ndFloat("lo")
	ndAssume(w.Lower >= w.Upper)
	bad := symbolic.Monomial{Coefficient: ndFloat("c"), VariableFactors: []symbolic.Variable{v}}
	constant := k == kK || k == kKVec || k == kKMat
	what := ""
	p := guarded(func() {
		switch ndChoose("op", 7) {
		case 0:
			what = "a derivative with respect to a malformed variable"
			a.DerivativeWrt(w)
		case 1:
			what = "substituting for a malformed variable"
			a.Substitute(w, symbolic.K(1))
		case 2:
			what = "substituting a malformed monomial"
			a.Substitute(v, bad)
		case 3:
			what = "substituting a malformed variable"
			a.Substitute(v, w)
		case 4:
			what = "substituting a vector"
			a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: symbolic.KVector{1, 2}})
		case 5:
			what = "substituting a malformed monomial according to a map"
			a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: bad})
		case 6:
			what = "substituting for a malformed variable according to a map"
			a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{w: symbolic.K(1)})
		}
	})
	if !constant {
		ndAssert(refused(p), what+" is not refused")
	} else {
		ndAssert(p == nil || refused(p), what+" fails in "+kindName(a))
	}
	ndReach("end")
}

// constraints with malformed parts
func H_C15_malformed_constraint() {
	v := gVar("v")
	w := v
	w.Lower, w.Upper = ndFloat("hi"), ndFloat("lo")
	ndAssume(w.Lower >= w.Upper)
	s := []symbolic.ConstrSense{symbolic.SenseLessThanEqual, symbolic.SenseGreaterThanEqual, symbolic.SenseEqual, 0, 'x'}[ndChoose("sense", 5)]
	badSense := s != symbolic.SenseLessThanEqual && s != symbolic.SenseGreaterThanEqual && s != symbolic.SenseEqual
	var c symbolic.Constraint
	bad := badSense
	kind := ndChoose("kind", 13)
	switch kind {
	case 9:
		c, bad = symbolic.MatrixConstraint{LeftHandSide: symbolic.VariableMatrix{{v, w}}, RightHandSide: symbolic.KMatrix{{gK("k"), 1}}, Sense: s}, true
	case 10:
		c, bad = symbolic.MatrixConstraint{LeftHandSide: symbolic.KMatrix{{gK("k"), 1}}, RightHandSide: symbolic.VariableMatrix{{v, w}}, Sense: s}, true
	case 11:
		c, bad = symbolic.VectorConstraint{LeftHandSide: symbolic.KVector{gK("k"), 1}, RightHandSide: symbolic.VariableVector{w, v}, Sense: s}, true
	case 12:
		c, bad = symbolic.MatrixConstraint{LeftHandSide: symbolic.KMatrix{{gK("k"), 1}, {2}}, RightHandSide: symbolic.VariableMatrix{{v, v}, {v, v}}, Sense: s}, true
	case 0:
		c = symbolic.ScalarConstraint{LeftHandSide: v, RightHandSide: gK("k"), Sense: s}
	case 1:
		c, bad = symbolic.ScalarConstraint{LeftHandSide: w, RightHandSide: gK("k"), Sense: s}, true
	case 2:
		c, bad = symbolic.ScalarConstraint{LeftHandSide: gK("k"), RightHandSide: w, Sense: s}, true
	case 3:
		c = symbolic.VectorConstraint{LeftHandSide: symbolic.VariableVector{v, v}, RightHandSide: symbolic.KVector{gK("k"), 1}, Sense: s}
	case 4:
		c, bad = symbolic.VectorConstraint{LeftHandSide: symbolic.VariableVector{v, w}, RightHandSide: symbolic.KVector{gK("k"), 1}, Sense: s}, true
	case 5:
		c, bad = symbolic.VectorConstraint{LeftHandSide: symbolic.VariableVector{v, v, v}[:1+2*ndChoose("n", 2)], RightHandSide: symbolic.KVector{gK("k"), 1}, Sense: s}, true
	case 6:
		c = symbolic.MatrixConstraint{LeftHandSide: symbolic.VariableMatrix{{v, v}}, RightHandSide: symbolic.KMatrix{{gK("k"), 1}}, Sense: s}
	case 7:
		c, bad = symbolic.MatrixConstraint{LeftHandSide: symbolic.VariableMatrix{{v}, {v}}, RightHandSide: symbolic.KMatrix{{gK("k"), 1}}, Sense: s}, true
	case 8:
		c, bad = symbolic.MatrixConstraint{LeftHandSide: symbolic.VariableMatrix{{v, v}}, RightHandSide: symbolic.KMatrix{{gK("k")}}, Sense: s}, true
	}
	err := c.Check()
	ndAssert((err != nil) == bad, "Check of a constraint is wrong")
	if !bad {
		ndReach("end")
		return
	}
	what := ""
	u := gVar("u")
	p := guarded(func() {
		switch ndChoose("op", 14) {
		case 0:
			what = "Substitute"
			c.Substitute(u, symbolic.K(1))
		case 1:
			what = "SubstituteAccordingTo"
			c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{u: symbolic.K(1)})
		case 2:
			what = "a linear inequality representation"
			switch x := c.(type) {
			case symbolic.ScalarConstraint:
				x.LinearInequalityConstraintRepresentation()
			case symbolic.VectorConstraint:
				x.LinearInequalityConstraintRepresentation()
			case symbolic.MatrixConstraint:
				x.At(0, 0)
			}
		case 3:
			what = "a linear equality representation"
			switch x := c.(type) {
			case symbolic.ScalarConstraint:
				x.LinearEqualityConstraintRepresentation()
			case symbolic.VectorConstraint:
				x.LinearEqualityConstraintRepresentation()
			case symbolic.MatrixConstraint:
				x.At(0, 0)
			}
		case 4:
			what = "an implication"
			c.ImpliesThisIsAlsoSatisfied(u.LessEq(1.0))
		case 5:
			what = "VariablesInThisConstraint"
			symbolic.VariablesInThisConstraint(c)
		case 6:
			what = "Variables"
			c.Variables()
		case 7:
			what = "At"
			switch x := c.(type) {
			case symbolic.VectorConstraint:
				x.AtVec(1)
			default:
				c.Variables()
			}
		case 8:
			what = "AsSimplifiedConstraint"
			if x, is := c.(symbolic.VectorConstraint); is {
				x.AsSimplifiedConstraint()
			} else {
				c.Variables()
			}
		case 9:
			switch x := c.(type) {
			case symbolic.ScalarConstraint:
				what = "String"
				_ = x.String()
			case symbolic.VectorConstraint:
				what = "Dims"
				x.Dims()
			case symbolic.MatrixConstraint:
				what = "Dims"
				x.Dims()
			}
		case 10:
			switch x := c.(type) {
			case symbolic.ScalarConstraint:
				what = "ScaleBy"
				x.ScaleBy(-2)
			case symbolic.VectorConstraint:
				what = "Len"
				x.Len()
			case symbolic.MatrixConstraint:
				what = "At"
				x.At(0, 0)
			}
		case 11:
			switch x := c.(type) {
			case symbolic.ScalarConstraint:
				what = "IsNonnegativityConstraint"
				x.IsNonnegativityConstraint()
			case symbolic.VectorConstraint:
				what = "AtVec"
				x.AtVec(0)
			case symbolic.MatrixConstraint:
				what = "At"
				x.At(0, 0)
			}
		case 12:
			what = "compiling"
			if _, is := c.(symbolic.ScalarConstraint); is {
				c.Variables()
			} else {
				symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{u.LessEq(1.0), c})
			}
		case 13:
			what = "being implied"
			u.LessEq(1.0).ImpliesThisIsAlsoSatisfied(c)
		}
	})
	ndAssert(refused(p), what+" of a malformed constraint is not refused")
	ndReach("end")
}

// linear coefficients and representations
func c15linear(what string, p any, ok bool, is func(any) bool) {
	if ok {
		ndAssert(p == nil, what+" is refused")
	} else {
		ndAssert(is(p), what+" is not refused with the documented error")
	}
}
func isNonlinearError(p any) bool {
	_, ok := p.(smErrors.LinearExpressionRequiredError)
	return ok
}
func isEmptyCoeffsError(p any) bool {
	switch p.(type) {
	case smErrors.EmptyLinearCoeffsError, smErrors.CanNotGetLinearCoeffOfConstantError:
		return true
	}
	return false
}

func H_C15_linear_coefficients() {
	// the degree and the variables decide
	k := ndChoose("k", 4)
	var a symbolic.ScalarExpression
	constant := false
	switch k {
	case 0:
		a, constant = gK("a"), true
	case 1:
		a = gVar("a")
	case 2:
		a = gMono("a", ndChoose("n", 2))
	case 3:
		a = gPoly("a", ndChoose("n", 2), 1)
	}
	if m, ok := a.(symbolic.Monomial); ok {
		constant = len(m.VariableFactors) == 0
		ndAssume(m.Coefficient != 0)
	}
	assumeSimplified(refM(a))
	v, ok := a.(symbolic.PolynomialLikeScalar)
	ndAssert(ok, "not polynomial-like")
	linear := c10degAtMost(refM(a), 1)
	p := guarded(func() { v.LinearCoeff() })
	if p == nil {
		ndAssert(!constant, "the linear coefficients of a constant without variables are not refused")
	} else {
		ndAssert(constant, "the linear coefficients of an expression with variables are refused")
		ndAssert(isEmptyCoeffsError(p), "linear coefficients are refused with another error than the documented ones")
	}
	p = guarded(func() { v.LinearCoeff([]symbolic.Variable{}) })
	ndAssert(isEmptyCoeffsError(p), "linear coefficients with respect to nothing are not refused")
	p = guarded(func() { v.LinearCoeff([]symbolic.Variable{gVar("w")}) })
	ndAssert(p == nil, "linear coefficients with respect to a variable are refused")
	p = guarded(func() { v.LinearCoeff([]symbolic.Variable{gVar("w")}, []symbolic.Variable{gVar("w")}) })
	if _, isK := a.(symbolic.K); !isK {
		ndAssert(refused(p), "linear coefficients with respect to two lists are not refused")
	}
	for i := 0; i < 3; i++ {
		c := symbolic.ScalarConstraint{LeftHandSide: a, RightHandSide: symbolic.K(1), Sense: senses[i]}
		p := guarded(func() { c.LinearInequalityConstraintRepresentation([]symbolic.Variable{gVar("w")}) })
		q := guarded(func() { c.LinearEqualityConstraintRepresentation([]symbolic.Variable{gVar("w")}) })
		for j, p := range []any{p, q} {
			right := (senses[i] == symbolic.SenseEqual) == (j == 1)
			switch {
			case p == nil:
				ndAssert(right, "a linear representation of the wrong sense is not refused")
				ndAssert(linear, "a linear representation of a nonlinear constraint is not refused")
			case right:
				ndAssert(ndNot(linear), "a linear representation is refused")
				ndAssert(isNonlinearError(p), "a nonlinear constraint is refused with another error than the documented one")
			default:
				_, ineq := p.(smErrors.InequalityConstraintRequiredError)
				_, eq := p.(smErrors.EqualityConstraintRequiredError)
				ndAssert(j == 0 && ineq || j == 1 && eq || isNonlinearError(p), "a linear representation is refused with another error than the documented one")
			}
		}
	}
	ndReach("end")
}

// construction from slices
func H_C15_construct() {
	n := ndChoose("n", 4)
	ragged := ndChoose("ragged", 2) == 1
	var ses []symbolic.ScalarExpression
	var fs []float64
	var is []int
	var rows [][]symbolic.ScalarExpression
	var frows [][]float64
	for i := 0; i < n; i++ {
		ses, fs, is = append(ses, gDegScalar("e"+dig(i), ndChoose("s"+dig(i), 3), 0, 1)), append(fs, ndFloat("f"+dig(i))), append(is, i)
	}
	for i := 0; i < n; i++ {
		m := 2
		if ragged && i == n-1 {
			m = 1 + 2*ndChoose("m", 2)
		}
		var r []symbolic.ScalarExpression
		var f []float64
		for j := 0; j < m; j++ {
			r, f = append(r, ses[(i+j)%n]), append(f, fs[(i+j)%n])
		}
		rows, frows = append(rows, r), append(frows, f)
	}
	rag := ragged && n > 1
	good := n > 0 && !rag
	c15built("ConcretizeVectorExpression", n > 0, guarded(func() { symbolic.ConcretizeVectorExpression(ses) }))
	c15built("ConcretizeExpression of a slice", n > 0, guarded(func() { symbolic.ConcretizeExpression(ses) }))
	c15built("ConcretizeMatrixExpression", good, guarded(func() { symbolic.ConcretizeMatrixExpression(rows) }))
	c15built("ConcretizeExpression of rows", good, guarded(func() { symbolic.ConcretizeExpression(rows) }))
	c15built("getKVector.From", n > 0, guarded(func() { getKVector.From(fs) }))
	c15built("getKVector.From of integers", n > 0, guarded(func() { getKVector.From(is) }))
	p := guarded(func() { getKMatrix.From(frows) })
	c15built("getKMatrix.From", good, p)
	if rag {
		_, ok := p.(smErrors.MatrixColumnMismatchError)
		ndAssert(ok, "getKMatrix.From refuses ragged rows with another error than the documented one")
	}
	if n == 0 {
		ndAssert(isEmptyError(p), "getKMatrix.From refuses nothing with another error than the documented one")
	}
	ndReach("end")
}
func c15built(what string, ok bool, p any) {
	if ok {
		ndAssert(p == nil, what+" refuses well-formed input")
	} else {
		ndAssert(refused(p), what+" accepts empty or ragged input")
	}
}

// the general procedures of matrices, called directly
func H_C15_templates() {
	gCoeff = 1
	matrixOf := func(name string, at uint64) symbolic.MatrixExpression {
		k := ndChoose(name, 5)
		if k == 4 {
			return []symbolic.MatrixExpression{
				symbolic.KMatrix{}, symbolic.VariableMatrix{}, symbolic.MonomialMatrix{}, symbolic.PolynomialMatrix{},
				c15ragged(0, 1).(symbolic.KMatrix), c15ragged(1, 0).(symbolic.VariableMatrix),
			}[ndChoose(name+".bad", 6)]
		}
		s := [][2]int{{1, 2}, {2, 2}, {2, 1}, {1, 1}, {2, 3}}[ndChoose(name+".shape", 5)]
		return gGrid(matrices[k], name, s[0], s[1], at, func(i, j int) bool { return i == 0 && j == 0 }).(symbolic.MatrixExpression)
	}
	a, b := matrixOf("a", 1), matrixOf("b", 30)
	bad := a.Check() != nil || b.Check() != nil
	var ra, rb RM
	if !bad {
		ra, rb = refM(a), refM(b)
	}
	var r any
	if ndChoose("op", 2) == 0 {
		p := guarded(func() { r = symbolic.MatrixPlusTemplate(a, b) })
		if bad || ra.r != rb.r || ra.c != rb.c {
			ndAssert(refused(p), "MatrixPlusTemplate of malformed or incompatible matrices is not refused")
		} else {
			ndAssert(p == nil, "MatrixPlusTemplate of compatible matrices is refused")
			ndAssert(refM(r).eq(ra.add(rb)), "MatrixPlusTemplate: value")
		}
	} else {
		p := guarded(func() { r = symbolic.MatrixMultiplyTemplate(a, b) })
		if bad || ra.c != rb.r {
			ndAssert(refused(p), "MatrixMultiplyTemplate of malformed or incompatible matrices is not refused")
		} else {
			ndAssert(p == nil, "MatrixMultiplyTemplate of compatible matrices is refused")
			ndAssert(refM(r).eq(ra.mul(rb)), "MatrixMultiplyTemplate: value")
		}
	}
	ndReach("end")
}

// FindInSlice: numbers, identities, texts and variables in lists of their own
// type; everything else is refused with an error
func H_C15_find() {
	n := ndChoose("n", 4)
	ints, ids := []int{}, []uint64{}
	vars, texts := []symbolic.Variable{}, []string{}
	for i := 0; i < n; i++ {
		x := ndInt("x"+dig(i), -2, 2)
		ints, ids = append(ints, x), append(ids, uint64(x+2))
		vars, texts = append(vars, X(i)), append(texts, []string{"a", "b"}[ndChoose("t"+dig(i), 2)])
	}
	lists := []any{texts, ints, ids, vars, nil, 3}
	x := ndInt("x", -2, 2)
	which := ndChoose("what", 6)
	what := []any{"b", x, uint64(x + 2), X(1), nil, 2.5}[which]
	l := ndChoose("list", len(lists))
	at, err := -1, error(nil)
	p := guarded(func() { at, err = symbolic.FindInSlice(what, lists[l]) })
	ndAssert(p == nil, "FindInSlice fails instead of returning an error")
	if which != l || which > 3 {
		ndAssert(err != nil, "FindInSlice in a list of another type is not refused")
		ndReach("end")
		return
	}
	ndAssert(err == nil, "FindInSlice in a list of the same type is refused")
	ndAssert(at >= -1 && at < n, "FindInSlice gives a place that does not exist")
	is := func(i int) bool {
		switch which {
		case 0:
			return texts[i] == "b"
		case 1, 2:
			return ints[i] == x
		}
		return i == 1
	}
	if at >= 0 {
		ndAssert(is(at), "FindInSlice gives a wrong place")
	} else {
		for i := 0; i < n; i++ {
			ndAssert(!is(i), "FindInSlice misses a member")
		}
	}
	ndReach("end")
}

// more lists or environments than one
func H_C15_too_many() {
	k := exprKinds[ndChoose("k", len(exprKinds))]
	gCoeff = 1
	n := 1 + ndChoose("n", 2)
	if !isVecKind(k) {
		n = 1
	}
	e := gGrid(k, "a", n, 1, 1, nil)
	vs := Xs(0, 1)
	env, env2 := symbolic.MakeBasicEnvironment("a"), symbolic.MakeBasicEnvironment("b")
	what, p := "", any(nil)
	switch x := e.(type) {
	case symbolic.PolynomialLikeVector:
		what = "LinearCoeff of " + kindName(e)
		p = guarded(func() { x.LinearCoeff(vs, vs) })
	case symbolic.K:
		what = "NewVariableMatrixClassic"
		p = guarded(func() { symbolic.NewVariableMatrixClassic(1, 1, &env, &env2) })
	case symbolic.PolynomialLikeScalar:
		what = "LinearCoeff of " + kindName(e)
		p = guarded(func() { x.LinearCoeff(vs, vs) })
	default:
		ndReach("end")
		return
	}
	ndAssert(refused(p), what+" accepts more than one list")
	ndReach("end")
}

// recognition: which values are expressions, and which conversions are refused
func H_C15_recognise() {
	k := ndChoose("k", uEnd)
	s := shapesOf(k)[ndChoose("s", len(shapesOf(k)))]
	gCoeff = 1
	var a any
	switch {
	case k >= kCount:
		a = gUnsupported(k)
	case k == kInt:
		a = ndInt("a", -3, 3)
	default:
		a = gGrid(k, "a", s[0], s[1], 1, func(i, j int) bool { return i == 0 })
	}
	what := kindName(a)
	scal := k == kFloat || k == kK || k == kVar || k == kMono || k == kPoly
	vec := isVecKind(k)
	m := isMatKind(k) && k < kCount
	ndAssert(symbolic.IsScalarExpression(a) == scal, "IsScalarExpression of "+what)
	ndAssert(symbolic.IsVectorExpression(a) == vec, "IsVectorExpression of "+what)
	ndAssert(symbolic.IsMatrixExpression(a) == m, "IsMatrixExpression of "+what)
	ndAssert(symbolic.IsExpression(a) == (scal || vec || m), "IsExpression of "+what)
	constraint := k == uConstraint
	c, like := a, any(&a)
	if constraint {
		sc := a.(symbolic.ScalarConstraint)
		one, two := symbolic.VectorConstraint{LeftHandSide: symbolic.KVector{1, 2}, RightHandSide: symbolic.KVector{1, 2}}, symbolic.MatrixConstraint{LeftHandSide: symbolic.KMatrix{{1}}, RightHandSide: symbolic.KMatrix{{2}}}
		c = []any{sc, &sc, one, &one, two, &two}[ndChoose("constraint", 6)]
	}
	ndAssert(symbolic.IsConstraint(c) == constraint, "IsConstraint of "+what)
	ndAssert(!symbolic.IsConstraint(like) && !symbolic.IsExpression(like), "a pointer to something is recognised")
	p := guarded(func() { symbolic.ToExpression(a) })
	ndAssert((p == nil) == (scal || vec || m), "ToExpression of "+what)
	if p != nil {
		_, ok := p.(smErrors.UnsupportedInputError)
		ndAssert(ok, "ToExpression refuses "+what+" with another error than the documented one")
	}
	_, err := symbolic.ToScalarExpression(a)
	ndAssert((err == nil) == scal, "ToScalarExpression of "+what)
	_, err = symbolic.ToVectorExpression(a)
	ndAssert((err == nil) == vec, "ToVectorExpression of "+what)
	_, err = symbolic.ToMatrixExpression(a)
	ndAssert((err == nil) == m, "ToMatrixExpression of "+what)
	ndReach("end")
}

var _ = isEmptyError

// well-formed compatible operands are never refused, whatever cancels
func c15accept(what string, f func()) {
	p := guarded(f)
	ndAssert(p == nil, what+" of well-formed operands is refused")
}
func H_C15_accept_scalar() {
	few := bigFew
	if ndTier() == 0 {
		few = []int{0, 1, 5, 10, 30}
	}
	a, b := bigScalar("a", bigFew[ndChoose("a", len(bigFew))]), bigScalar("b", few[ndChoose("b", len(few))])
	op, op2 := ndChoose("op", binaryOps), 0
	if op < 2 || op < 3 && ndTier() > 0 {
		op2 = ndChoose("op2", 3)
	}
	v := X(1)
	c15accept(binaryName[op]+" of "+kindName(a)+" and "+kindName(b), func() {
		switch r := binary(op, a, b).(type) {
		case symbolic.Expression:
			switch op2 {
			case 0:
				r.AsSimplifiedExpression()
				r.DerivativeWrt(v)
			case 1:
				r.Minus(r).AsSimplifiedExpression()
			default:
				r.Multiply(0.0).Plus(v)
			}
		case symbolic.Constraint:
			r.AsSimplifiedConstraint()
		}
	})
	ndReach("end")
}
func H_C15_accept_cancel() {
	a := chooseBig("a")
	op := ndChoose("op", 12)
	way := ndChoose("way", 4)
	v := X(0)
	c15accept("operation "+dig2(op)+" on something that cancels", func() {
		var r symbolic.Expression
		switch way {
		case 0:
			r = a.Minus(a)
		case 1:
			r = a.Multiply(0.0)
		case 2:
			r = a.Plus(a.Multiply(-1.0))
		default:
			r = a.Multiply(symbolic.Monomial{Coefficient: 0, VariableFactors: Xs(1), Exponents: []int{1}})
		}
		unary(op, r, v)
	})
	ndReach("end")
}
func H_C15_accept_shapes() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 3, 1
	if isMatKind(k) {
		r, c = 2, 3
	}
	a := bigAny(k, "a", r, c, ndChoose("arb", 2)*(r*c-1))
	op := []int{0, 1, 2, 3, 4, 5, 6, 10, 11}[ndChoose("op", 9)]
	way := ndChoose("way", 3)
	v := X(0)
	c15accept("operation "+dig2(op)+" on "+kindName(a), func() {
		var z symbolic.Expression = a
		switch way {
		case 0:
			z = a.Minus(a)
		case 1:
			z = a.Multiply(0.0)
		}
		unary(op, z, v)
	})
	ndReach("end")
}
