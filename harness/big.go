package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// Large expressions with a fixed structure: several variables of different types,
// bounds and environments, high exponents, permuted factors, repeated forms; only
// some coefficients are arbitrary. They reach sizes the arbitrary expressions of
// common.go can not, while the coefficients still cancel, vanish or become one.

var bigEnv = symbolic.MakeBasicEnvironment("other")

// X is the variable number i; its type, bounds, name and environment depend on i.
func X(i int) symbolic.Variable {
	v := symbolic.Variable{ID: uint64(i), Lower: negInf, Upper: -negInf, Type: symbolic.Continuous, Name: "x_" + dig(i), Environment: &theEnv}
	switch i % 4 {
	case 1:
		v.Type, v.Lower, v.Upper = symbolic.Binary, 0, 1
	case 2:
		v.Type, v.Lower, v.Upper = symbolic.Integer, -3, 8
	case 3:
		v.Lower, v.Environment = 0, &bigEnv
	}
	return v
}
func Xs(is ...int) []symbolic.Variable {
	var vs []symbolic.Variable
	for _, i := range is {
		vs = append(vs, X(i))
	}
	return vs
}

const bigVars = 6

// bigForm: the factors and exponents of the form k
func bigForm(k int) ([]int, []int) {
	switch k {
	case 1:
		return []int{0}, []int{1}
	case 2:
		return []int{1}, []int{1}
	case 3:
		return []int{0, 1}, []int{1, 1}
	case 4: // the form 3
		return []int{1, 0}, []int{1, 1}
	case 5:
		return []int{2}, []int{2}
	case 6:
		return []int{0, 2}, []int{3, 1}
	case 7: // the form 6
		return []int{2, 0}, []int{1, 3}
	case 8:
		return []int{3, 4, 5}, []int{1, 1, 1}
	case 9: // the form 8
		return []int{5, 3, 4}, []int{1, 1, 1}
	case 10:
		return []int{4}, []int{5}
	case 11:
		return []int{1, 3, 0}, []int{2, 1, 1}
	case 12: // the form 11
		return []int{3, 0, 1}, []int{1, 1, 2}
	case 13:
		return []int{5}, []int{1}
	case 14:
		return []int{2}, []int{1}
	case 15: // like the form 6, with the exponents exchanged
		return []int{0, 2}, []int{1, 3}
	case 16:
		return []int{3}, []int{1}
	case 17: // the form 11, with a factor twice
		return []int{1, 0, 3, 1}, []int{1, 1, 1, 1}
	case 18: // the form 2, with a zero exponent
		return []int{0, 1}, []int{0, 1}
	case 19, 20, 21, 22: // further variables
		return []int{k - 13}, []int{1}
	case 23:
		return []int{6, 7}, []int{1, 1}
	case 24:
		return []int{7}, []int{2}
	case 25:
		return []int{8, 9, 0}, []int{1, 1, 1}
	case 26:
		return []int{9}, []int{3}
	case 27:
		return []int{6, 0}, []int{1, 1}
	case 28:
		return []int{7, 1}, []int{1, 2}
	case 29:
		return []int{8, 2}, []int{2, 1}
	case 30:
		return []int{6}, []int{4}
	case 31: // many factors
		return []int{3, 1, 0, 5, 2, 4}, []int{1, 2, 1, 1, 3, 1}
	case 32: // the form 31
		return []int{0, 1, 2, 3, 4, 5}, []int{1, 2, 3, 1, 1, 1}
	case 33:
		return []int{7, 0, 1, 2, 3, 4, 5, 6, 8}, []int{1, 1, 1, 2, 1, 1, 1, 12, 1}
	case 34: // like the form 31, with two exponents exchanged
		return []int{3, 1, 0, 5, 2, 4}, []int{1, 3, 1, 1, 2, 1}
	}
	return nil, nil
}
func bigMono(c float64, k int) symbolic.Monomial {
	vs, es := bigForm(k)
	m := symbolic.Monomial{Coefficient: c, VariableFactors: Xs(vs...)}
	m.Exponents = append(m.Exponents, es...)
	return m
}

// bigTerms are the polynomials: the forms of their terms
var bigTerms = [][]int{
	{1, 0},
	{3, 6, 8, 0},
	{9, 4, 0, 7},
	{1, 2, 13, 10, 5},
	{0, 13, 5, 2, 1, 16},
	{15, 6, 3},
	{0, 1, 2, 3, 5, 31, 6, 8, 10, 11, 13, 14, 15, 16, 33, 34},
	{3, 4}, // not simplified from here on
	{11, 12, 8, 34, 31, 9, 32},
	{0, 1, 0, 1, 2},
	{17, 18, 2, 0},
	bigLong, // simplified
	append(append([]int{}, bigLong[:24]...), 4, 23, 9, 24, 1, 0, 21, 3),
}

// bigLong: the forms of a long polynomial, all different
var bigLong = []int{3, 0, 1, 19, 2, 23, 5, 20, 6, 24, 8, 21, 10, 25, 11, 22, 13, 26, 14, 27, 15, 28, 16, 29, 30}

const bigSimplified = 7 // the first of bigTerms

// bigPoly: the coefficients arb (and the term after it) are arbitrary
func bigPoly(name string, k, arb int) symbolic.Polynomial {
	var p symbolic.Polynomial
	for i, f := range bigTerms[k] {
		c := float64(2*i + 3)
		if i == arb || i == arb+1 {
			c = ndFloat(name + dig(i))
		} else if i%2 == 1 {
			c = -c
		}
		p.Monomials = append(p.Monomials, bigMono(c, f))
	}
	return p
}

// bigScalar: every scalar kind; the last ones are not simplified
func bigScalar(name string, k int) symbolic.ScalarExpression {
	switch k {
	case 0:
		return gK(name)
	case 1:
		return X(0)
	case 2:
		return X(3)
	case 3:
		return bigMono(ndFloat(name), 0)
	case 4:
		return bigMono(ndFloat(name), 2)
	case 5:
		return bigMono(ndFloat(name), 6)
	case 6:
		return bigMono(ndFloat(name), 32)
	case 7:
		return bigMono(ndFloat(name), 10)
	}
	k -= 8
	if k < 2*len(bigTerms) {
		// arbitrary coefficients at the front or the back
		t := bigTerms[k/2]
		if k%2 == 0 {
			return bigPoly(name, k/2, 0)
		}
		return bigPoly(name, k/2, len(t)-2)
	}
	if k == 2*len(bigTerms) {
		return bigMono(ndFloat(name), 17)
	}
	return bigMono(ndFloat(name), 18)
}

// bigFew: the numbers of some of the expressions of bigScalar, for the quick tier
var bigFew = []int{0, 1, 3, 5, 6, 7, 10, 13, 14, 17, 21, 24, 28, bigAtoms + 2*13}

// chooseBig chooses one of all (thorough) or some (quick) of the big expressions
func chooseBig(name string) symbolic.ScalarExpression {
	if ndTier() == 0 {
		return bigScalar(name, bigFew[ndChoose(name, len(bigFew))])
	}
	return bigScalar(name, ndChoose(name, bigScalars))
}

const bigAtoms = 8
const bigScalars = bigAtoms + 2*13 + 2
const bigScalarsSimplified = bigAtoms + 2*bigSimplified + 2

// bigScalarSimplified: those that are simplified unless a coefficient vanishes
func bigScalarSimplified(name string, k int) symbolic.ScalarExpression {
	if k >= bigAtoms+2*bigSimplified {
		k += 2 * (11 - bigSimplified)
	}
	return bigScalar(name, k)
}

// bigAny is an r-by-c object of the kind; the entry number arb is arbitrary in
// parts, the others are fixed and of different forms.
func bigAny(kind int, name string, r, c, arb int) symbolic.Expression {
	kk := func(i int) symbolic.K {
		if i == arb {
			return gK(name)
		}
		return symbolic.K(float64(i%5) - 1)
	}
	mm := func(i int) symbolic.Monomial {
		if i == arb {
			return bigMono(ndFloat(name), []int{6, 3, 0, 14}[i%4])
		}
		return bigMono(float64(i%5)-1, []int{0, 2, 4, 11, 13, 7, 1, 31}[i%8])
	}
	pp := func(i int) symbolic.Polynomial {
		if i == arb {
			return bigPoly(name, []int{1, 0, 4, 5}[i%4], 0)
		}
		return bigPoly(name, []int{3, 0, 5, 2}[i%4], -2)
	}
	vv := func(i int) symbolic.Variable { return X((5*i + arb + 2 + 10*bigVars) % bigVars) }
	switch kind {
	case kK, kKVec:
		var x symbolic.KVector
		for i := 0; i < r; i++ {
			x = append(x, kk(i))
		}
		if kind == kK {
			return x[0]
		}
		return x
	case kVar, kVVec:
		var x symbolic.VariableVector
		for i := 0; i < r; i++ {
			x = append(x, vv(i))
		}
		if kind == kVar {
			return x[0]
		}
		return x
	case kMono, kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < r; i++ {
			x = append(x, mm(i))
		}
		if kind == kMono {
			return x[0]
		}
		return x
	case kPoly, kPVec:
		var x symbolic.PolynomialVector
		for i := 0; i < r; i++ {
			x = append(x, pp(i))
		}
		if kind == kPoly {
			return x[0]
		}
		return x
	}
	var km symbolic.KMatrix
	var vm symbolic.VariableMatrix
	var mx symbolic.MonomialMatrix
	var pm symbolic.PolynomialMatrix
	for i := 0; i < r; i++ {
		var kr []symbolic.K
		var vr []symbolic.Variable
		var mr []symbolic.Monomial
		var pr []symbolic.Polynomial
		for j := 0; j < c; j++ {
			n := i*c + j
			switch kind {
			case kKMat:
				kr = append(kr, kk(n))
			case kVMat:
				vr = append(vr, vv(n))
			case kMMat:
				mr = append(mr, mm(n))
			default:
				pr = append(pr, pp(n))
			}
		}
		km, vm, mx, pm = append(km, kr), append(vm, vr), append(mx, mr), append(pm, pr)
	}
	switch kind {
	case kKMat:
		return km
	case kVMat:
		return vm
	case kMMat:
		return mx
	}
	return pm
}

// bigOrders: requested variables, in several orders, and some that do not occur
var bigOrders = [][]int{{0, 1, 2, 3, 4, 5}, {5, 3, 1, 4, 2, 0}, {9, 2, 0, 8, 1}, {4, 7, 3}, {1}}

// bigLinear: a vector of linear entries with constants
func bigLinear(n, arb int) symbolic.PolynomialVector {
	var v symbolic.PolynomialVector
	for i := 0; i < n; i++ {
		var p symbolic.Polynomial
		for j, f := range [][]int{{1, 0, 2}, {0, 13}, {14, 16, 0, 1}, {2, 13, 14, 0}, {0}, {16}}[i%6] {
			c := float64(3*i - 2*j + 7)
			if i == arb {
				c = ndFloat("c" + dig(j))
			}
			p.Monomials = append(p.Monomials, bigMono(c, f))
		}
		v = append(v, p)
	}
	return v
}

// termsOf counts the terms of a scalar
func termsOf(e symbolic.Expression) int {
	if p, ok := e.(symbolic.Polynomial); ok {
		return len(p.Monomials)
	}
	return 1
}

const bigRepls = 6

// bigRepl: expressions that replace variables
func bigRepl(k int) symbolic.ScalarExpression {
	switch k {
	case 0:
		return gK("r")
	case 1:
		return X(0)
	case 2:
		return bigMono(ndFloat("r"), 4)
	case 3:
		return symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(1, 2), bigMono(ndFloat("r"), 0)}}
	}
	if k == 4 {
		return symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(ndFloat("r"), 1), bigMono(-2, 13)}}
	}
	return symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(3, 0), bigMono(ndFloat("r"), 14), bigMono(1, 2)}}
}

// sibling is an expression of the same kind and shape, with the same forms and
// other, fixed coefficients. An operation on it before or after the one that is
// looked at must make no difference (remembered results, shared space).
func sibling(e any) any {
	n := 0.0
	kk := func() symbolic.K { n += 4; return symbolic.K(9 - n) }
	mm := func(m symbolic.Monomial) symbolic.Monomial {
		n += 3
		c := symbolic.Monomial{Coefficient: n - 40, VariableFactors: append([]symbolic.Variable{}, m.VariableFactors...)}
		c.Exponents = append(c.Exponents, m.Exponents...)
		return c
	}
	pp := func(p symbolic.Polynomial) symbolic.Polynomial {
		var q symbolic.Polynomial
		for _, m := range p.Monomials {
			q.Monomials = append(q.Monomials, mm(m))
		}
		return q
	}
	i := 2
	vv := func(symbolic.Variable) symbolic.Variable { i++; return X(i % bigVars) }
	switch x := e.(type) {
	case symbolic.K:
		return kk()
	case symbolic.Variable:
		return vv(x)
	case symbolic.Monomial:
		return mm(x)
	case symbolic.Polynomial:
		return pp(x)
	case symbolic.KVector:
		return each(x, func(symbolic.K) symbolic.K { return kk() })
	case symbolic.VariableVector:
		return each(x, vv)
	case symbolic.MonomialVector:
		return each(x, mm)
	case symbolic.PolynomialVector:
		return each(x, pp)
	case symbolic.KMatrix:
		var y symbolic.KMatrix
		for _, r := range x {
			y = append(y, each(r, func(symbolic.K) symbolic.K { return kk() }))
		}
		return y
	case symbolic.VariableMatrix:
		var y symbolic.VariableMatrix
		for _, r := range x {
			y = append(y, each(r, vv))
		}
		return y
	case symbolic.MonomialMatrix:
		var y symbolic.MonomialMatrix
		for _, r := range x {
			y = append(y, each(r, mm))
		}
		return y
	case symbolic.PolynomialMatrix:
		var y symbolic.PolynomialMatrix
		for _, r := range x {
			y = append(y, each(r, pp))
		}
		return y
	}
	return e
}

func each[S ~[]E, E any](s S, f func(E) E) S {
	var r S
	for _, e := range s {
		r = append(r, f(e))
	}
	return r
}

// bigTall: a vector or matrix of the kind with many entries, one of which is
// arbitrary (at the front, in the middle or at the back)
func bigTall(name string, kind int) symbolic.Expression {
	r, c := 11, 1
	if isMatKind(kind) {
		sh := [][2]int{{5, 6}, {9, 2}, {2, 9}, {1, 10}}[ndChoose(name+".shape", 4)]
		r, c = sh[0], sh[1]
	}
	return bigAny(kind, name, r, c, []int{0, r * c / 2, r*c - 1}[ndChoose(name+".arb", 3)])
}

// bigTallOne: one of them, which depends on k only
func bigTallOne(name string, kind, k int) symbolic.Expression {
	r, c := 11, 1
	if isMatKind(kind) {
		sh := [][2]int{{5, 4}, {7, 2}, {2, 7}, {1, 9}}[k%4]
		r, c = sh[0], sh[1]
	}
	return bigAny(kind, name, r, c, []int{r*c - 1, 0, r * c / 2}[k%3])
}

// eightKinds: the kinds of vectors and matrices
func chooseShaped(name string) int {
	return append(append([]int{}, vectors...), matrices...)[ndChoose(name, 8)]
}
