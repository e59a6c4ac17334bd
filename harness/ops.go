package main

import (
	"fmt"
	"runtime"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// crash: the panic is an internal failure. Every refusal of the library is an
// error value of its own; a runtime error, a panic of gonum or a panic with
// something that is not an error is not one.
func crash(p any) bool {
	if p == nil {
		return false
	}
	switch p.(type) {
	case runtime.Error, mat.Error, mat.ErrorStack:
		return true
	case error:
		return false
	}
	return true
}

// noCrash runs f, which may return or refuse.
func noCrash(what string, f func()) {
	p := guarded(f)
	ndAssert(!crash(p), what+" fails with an internal error")
	if e, ok := p.(error); ok {
		q := guarded(func() { _ = e.Error() })
		ndAssert(q == nil, what+" is refused with an error that has no text")
	}
}

// kinds of operands that are not supported anywhere
const (
	uString = kCount + iota
	uNil
	uSlice
	uBool
	uConstraint
	uEnd
)

func gUnsupported(kind int) any {
	switch kind {
	case uString:
		return "x"
	case uSlice:
		return []float64{1, 2}
	case uBool:
		return true
	case uConstraint:
		return symbolic.ScalarConstraint{LeftHandSide: symbolic.K(1), RightHandSide: symbolic.K(2), Sense: symbolic.SenseEqual}
	}
	return nil
}

var exprKinds = []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kKMat, kVMat, kMMat, kPMat}

// gDegMono: any monomial that passes Check: any coefficient, factors that may
// repeat, exponents from lo to hi.
func gDegMono(name string, n, lo, hi int) symbolic.Monomial {
	m := symbolic.Monomial{Coefficient: ndFloat(name + ".c")}
	for k := 0; k < n; k++ {
		m.VariableFactors = append(m.VariableFactors, gVar(name+".x"+dig(k)))
		m.Exponents = append(m.Exponents, ndInt(name+".e"+dig(k), lo, hi))
	}
	return m
}
func gDegPoly(name string, lo, hi int, ns ...int) symbolic.Polynomial {
	var p symbolic.Polynomial
	for k, n := range ns {
		p.Monomials = append(p.Monomials, gDegMono(name+dig(k), n, lo, hi))
	}
	return p
}

const degScalars = 9

// gDegScalar: scalar expressions of every shape, simplified or not
func gDegScalar(name string, shape, lo, hi int) symbolic.ScalarExpression {
	switch shape {
	case 0:
		return gK(name)
	case 1:
		return gVar(name)
	case 2:
		return gDegMono(name, 0, lo, hi)
	case 3:
		return gDegMono(name, 1, lo, hi)
	case 4:
		return gDegPoly(name, lo, hi, 0)
	case 5:
		return gDegPoly(name, lo, hi, 1)
	case 6:
		return gDegPoly(name, lo, hi, 1, 0)
	case 7:
		return gDegMono(name, 2, lo, hi)
	}
	return gDegPoly(name, lo, hi, 1, 1)
}

// every operation that takes an expression and perhaps a variable
const unaryOps = 20

func unary(op int, a symbolic.Expression, v symbolic.Variable) {
	switch op {
	case 0:
		a.AsSimplifiedExpression()
	case 1:
		a.DerivativeWrt(v)
	case 2:
		a.Transpose()
	case 3:
		a.Substitute(v, symbolic.K(ndFloat("by")))
	case 4:
		a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: gVar("by")})
	case 5:
		a.Variables()
		a.Check()
		a.Dims()
		symbolic.NumVariables(a)
		symbolic.VariableIDs(a)
	case 6:
		_ = a.String()
	case 7:
		a.Power(0)
	case 8:
		a.Power(1)
	case 9:
		a.Power(2)
	case 10:
		symbolic.IsLinear(a)
		symbolic.IsQuadratic(a)
	case 11:
		a.At(0, 0)
		a.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{})
		var none map[symbolic.Variable]symbolic.Expression
		a.SubstituteAccordingTo(none)
	case 12:
		a.Power(-1)
	case 13:
		a.DerivativeWrt(v).DerivativeWrt(v)
	case 14:
		switch x := a.(type) {
		case symbolic.PolynomialLikeScalar:
			x.LinearCoeff()
		case symbolic.VectorExpression:
			x.LinearCoeff()
		}
	case 15:
		switch x := a.(type) {
		case symbolic.PolynomialLikeScalar:
			x.LinearCoeff([]symbolic.Variable{v})
		case symbolic.VectorExpression:
			x.LinearCoeff([]symbolic.Variable{v})
		}
	case 16:
		switch x := a.(type) {
		case symbolic.PolynomialLikeScalar:
			x.LinearCoeff([]symbolic.Variable{})
		case symbolic.VectorExpression:
			x.LinearCoeff([]symbolic.Variable{})
		}
	case 17:
		conversions(a)
	case 18:
		special(a, v)
	case 19:
		a.Substitute(v, v.Plus(1.0).(symbolic.ScalarExpression))
	}
}

// conversions to other representations
func conversions(a symbolic.Expression) {
	switch x := a.(type) {
	case symbolic.K:
		x.ToMonomial()
		x.ToPolynomial()
	case symbolic.Variable:
		x.ToMonomial()
		x.ToPolynomial()
	case symbolic.Monomial:
		x.ToPolynomial()
		x.Copy()
		x.ToVariable()
	case symbolic.Polynomial:
		x.Copy()
	case symbolic.KVector:
		x.ToMonomialVector()
		x.ToPolynomialVector()
		x.ToVecDense()
		x.ToScalarExpressions()
	case symbolic.VariableVector:
		x.ToMonomialVector()
		x.ToPolynomialVector()
		x.Copy()
		x.ToScalarExpressions()
	case symbolic.MonomialVector:
		x.ToPolynomialVector()
		x.ToScalarExpressions()
	case symbolic.PolynomialVector:
		x.ToScalarExpressions()
	case symbolic.KMatrix:
		x.ToMonomialMatrix()
		x.ToPolynomialMatrix()
		x.ToDense()
	case symbolic.VariableMatrix:
		x.ToMonomialMatrix()
		x.ToPolynomialMatrix()
	}
	symbolic.ConcretizeExpression(a)
	symbolic.IsPolynomialLike(a)
	symbolic.ToExpression(a)
}

// special: operations of one kind only
func special(a symbolic.Expression, v symbolic.Variable) {
	switch x := a.(type) {
	case symbolic.K:
		x.Constant()
		x.Degree()
	case symbolic.Variable:
		x.Constant()
		x.Degree()
	case symbolic.Monomial:
		x.Constant()
		x.Degree()
		x.IsConstant()
		x.IsZero()
		x.IsVariable(v)
		x.IsDegreeOneContainingVariable(v)
		x.MatchesFormOf(v.ToMonomial())
	case symbolic.Polynomial:
		x.Constant()
		x.Degree()
		x.IsConstant()
		x.Simplify()
		x.ConstantMonomialIndex()
		x.VariableMonomialIndex(v)
		x.MonomialIndex(v.ToMonomial())
	case symbolic.KVector:
		x.Constant()
		x.Degree()
		x.Len()
		x.AtVec(0)
	case symbolic.VariableVector:
		x.Constant()
		x.Degree()
		x.Length()
		x.AtVec(0)
	case symbolic.MonomialVector:
		x.Constant()
		x.Degree()
		x.Len()
		x.IsConstant()
		x.AtVec(0)
	case symbolic.PolynomialVector:
		x.Constant()
		x.Degree()
		x.Length()
		x.IsConstantVector()
		x.Simplify()
		x.AtVec(0)
	case symbolic.KMatrix:
		x.Constant()
		x.Degree()
		symbolic.IsSquare(x)
	case symbolic.VariableMatrix:
		x.Constant()
		x.Degree()
		symbolic.IsSquare(x)
	case symbolic.MonomialMatrix:
		x.Constant()
		x.Degree()
		symbolic.IsSquare(x)
	case symbolic.PolynomialMatrix:
		x.Constant()
		x.Degree()
		x.Simplify()
		symbolic.IsSquare(x)
	}
}

// binary: every operation between an expression and something
const binaryOps = 6

var binaryName = []string{"Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq"}

func binary(op int, a symbolic.Expression, b any) any {
	switch op {
	case 0:
		return a.Plus(b)
	case 1:
		return a.Minus(b)
	case 2:
		return a.Multiply(b)
	case 3:
		return a.LessEq(b)
	case 4:
		return a.GreaterEq(b)
	}
	return a.Eq(b)
}

// shapesOf: the shapes a kind is tried with
func shapesOf(kind int) [][2]int {
	switch {
	case isVecKind(kind):
		return [][2]int{{1, 1}, {2, 1}, {3, 1}}
	case kind >= kKMat && kind < kCount:
		return [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}}
	}
	return [][2]int{{1, 1}}
}

func kindName(a any) string { return fmt.Sprintf("%T", a) }

func dig2(k int) string { return dig(k/10) + dig(k%10) }
