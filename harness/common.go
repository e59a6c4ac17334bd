package main

import (
	"fmt"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// ---------------------------------------------------------------------
// Reference model: a polynomial is a list of terms; no two terms need to be
// of different form. Every comparison is a formula (no branching on symbolic
// values), so the model does not split the paths of the code under test.
// ---------------------------------------------------------------------

type RT struct {
	c   float64
	ids []uint64
	es  []int
}
type RP []RT

// deg is the exponent of the variable id in t.
func (t RT) deg(id uint64) int {
	d := 0
	for k := range t.ids {
		d += ndIteI(t.ids[k] == id, t.es[k], 0)
	}
	return d
}

// total is the degree of t.
func (t RT) total() int {
	d := 0
	for k := range t.es {
		d += t.es[k]
	}
	return d
}

func formEq(a, b RT) bool {
	r := true
	for _, id := range a.ids {
		r = ndAnd(r, a.deg(id) == b.deg(id))
	}
	for _, id := range b.ids {
		r = ndAnd(r, a.deg(id) == b.deg(id))
	}
	return r
}

// at is the coefficient of p at the form of t.
func (p RP) at(t RT) float64 {
	s := 0.0
	for _, x := range p {
		s += ndIteF(formEq(x, t), x.c, 0)
	}
	return s
}

// eq is the statement that p and q denote the same polynomial.
func (p RP) eq(q RP) bool {
	r := true
	for _, t := range p {
		r = ndAnd(r, p.at(t) == q.at(t))
	}
	for _, t := range q {
		r = ndAnd(r, p.at(t) == q.at(t))
	}
	return r
}

func (p RP) add(q RP) RP {
	r := make(RP, 0, len(p)+len(q))
	r = append(r, p...)
	return append(r, q...)
}
func (p RP) scale(k float64) RP {
	r := make(RP, len(p))
	for i, t := range p {
		r[i] = RT{t.c * k, t.ids, t.es}
	}
	return r
}
func (p RP) sub(q RP) RP { return p.add(q.scale(-1)) }
func (p RP) mul(q RP) RP {
	var r RP
	for _, a := range p {
		for _, b := range q {
			ids := append(append([]uint64{}, a.ids...), b.ids...)
			es := append(append([]int{}, a.es...), b.es...)
			r = append(r, RT{a.c * b.c, ids, es})
		}
	}
	return r
}
func rpK(c float64) RP { return RP{{c: c}} }
func rpV(id uint64) RP { return RP{{1, []uint64{id}, []int{1}}} }
func (p RP) pow(n int) RP {
	r := rpK(1)
	for k := 0; k < n; k++ {
		r = r.mul(p)
	}
	return r
}
func (p RP) deriv(id uint64) RP {
	var r RP
	for _, t := range p {
		d := t.deg(id)
		ids := append(append([]uint64{}, t.ids...), id)
		es := append(append([]int{}, t.es...), -1)
		r = append(r, RT{t.c * float64(d), ids, es})
	}
	return r
}

// nonzeroAt(t): the polynomial has a nonzero coefficient at t's form.
func (p RP) nonzeroAt(t RT) bool { return p.at(t) != 0 }

// constant coefficient
func (p RP) konst() float64 { return p.at(RT{}) }

// linear coefficient of id
func (p RP) lin(id uint64) float64 { return p.at(RT{1, []uint64{id}, []int{1}}) }

// degAtMost is the statement that p has degree at most d (all exponents >= 0).
func (p RP) degAtMost(d int) bool {
	r := true
	for _, t := range p {
		r = ndAnd(r, ndOr(p.at(t) == 0, t.total() <= d))
	}
	return r
}

// hasVar is the statement that p depends on id.
func (p RP) hasVar(id uint64) bool {
	r := false
	for _, t := range p {
		r = ndOr(r, ndAnd(p.at(t) != 0, t.deg(id) != 0))
	}
	return r
}

// ---------------------------------------------------------------------
// Reading library objects
// ---------------------------------------------------------------------

func refMono(m symbolic.Monomial) RT {
	ndAssert(len(m.Exponents) == len(m.VariableFactors), "malformed monomial: exponent and factor counts differ")
	t := RT{c: m.Coefficient}
	for k := range m.VariableFactors {
		t.ids = append(t.ids, m.VariableFactors[k].ID)
		t.es = append(t.es, m.Exponents[k])
	}
	return t
}

// ref reads the polynomial a scalar object denotes.
func ref(e any) RP {
	switch x := e.(type) {
	case float64:
		return rpK(x)
	case int:
		return rpK(float64(x))
	case symbolic.K:
		return rpK(float64(x))
	case symbolic.Variable:
		return rpV(x.ID)
	case symbolic.Monomial:
		return RP{refMono(x)}
	case symbolic.Polynomial:
		ndAssert(len(x.Monomials) > 0, "a polynomial without monomials was returned")
		r := make(RP, len(x.Monomials))
		for k, m := range x.Monomials {
			r[k] = refMono(m)
		}
		return r
	}
	ndAssert(false, "not a scalar: "+fmt.Sprintf("%T", e))
	return nil
}

func isScalarKind(e any) bool {
	switch e.(type) {
	case float64, int, symbolic.K, symbolic.Variable, symbolic.Monomial, symbolic.Polynomial:
		return true
	}
	return false
}

// RM is a matrix of reference polynomials (vectors are n-by-1, scalars 1-by-1).
type RM struct {
	r, c int
	e    [][]RP
}

func newRM(r, c int) RM {
	m := RM{r: r, c: c, e: make([][]RP, r)}
	for i := range m.e {
		m.e[i] = make([]RP, c)
	}
	return m
}

// refM reads any object (scalar, vector, matrix) as a matrix.
func refM(e any) RM {
	if isScalarKind(e) {
		m := newRM(1, 1)
		m.e[0][0] = ref(e)
		return m
	}
	switch x := e.(type) {
	case mat.VecDense:
		m := newRM(x.Len(), 1)
		for i := 0; i < x.Len(); i++ {
			m.e[i][0] = rpK(x.AtVec(i))
		}
		return m
	case *mat.VecDense:
		return refM(*x)
	case mat.Dense:
		r, c := x.Dims()
		m := newRM(r, c)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				m.e[i][j] = rpK(x.At(i, j))
			}
		}
		return m
	case *mat.Dense:
		return refM(*x)
	case []float64:
		m := newRM(len(x), 1)
		for i := range x {
			m.e[i][0] = rpK(x[i])
		}
		return m
	case symbolic.KVector:
		m := newRM(len(x), 1)
		for i := range x {
			m.e[i][0] = ref(x[i])
		}
		return m
	case symbolic.VariableVector:
		m := newRM(len(x), 1)
		for i := range x {
			m.e[i][0] = ref(x[i])
		}
		return m
	case symbolic.MonomialVector:
		m := newRM(len(x), 1)
		for i := range x {
			m.e[i][0] = ref(x[i])
		}
		return m
	case symbolic.PolynomialVector:
		m := newRM(len(x), 1)
		for i := range x {
			m.e[i][0] = ref(x[i])
		}
		return m
	case symbolic.KMatrix:
		m := newRM(len(x), len(x[0]))
		for i := range x {
			ndAssert(len(x[i]) == m.c, "ragged matrix returned")
			for j := range x[i] {
				m.e[i][j] = ref(x[i][j])
			}
		}
		return m
	case symbolic.VariableMatrix:
		m := newRM(len(x), len(x[0]))
		for i := range x {
			ndAssert(len(x[i]) == m.c, "ragged matrix returned")
			for j := range x[i] {
				m.e[i][j] = ref(x[i][j])
			}
		}
		return m
	case symbolic.MonomialMatrix:
		m := newRM(len(x), len(x[0]))
		for i := range x {
			ndAssert(len(x[i]) == m.c, "ragged matrix returned")
			for j := range x[i] {
				m.e[i][j] = ref(x[i][j])
			}
		}
		return m
	case symbolic.PolynomialMatrix:
		m := newRM(len(x), len(x[0]))
		for i := range x {
			ndAssert(len(x[i]) == m.c, "ragged matrix returned")
			for j := range x[i] {
				m.e[i][j] = ref(x[i][j])
			}
		}
		return m
	}
	ndAssert(false, "unexpected kind of result: "+fmt.Sprintf("%T", e))
	return RM{}
}

func (a RM) eq(b RM) bool {
	if a.r != b.r || a.c != b.c {
		return false
	}
	r := true
	for i := range a.e {
		for j := range a.e[i] {
			r = ndAnd(r, a.e[i][j].eq(b.e[i][j]))
		}
	}
	return r
}
func (a RM) mapE(f func(RP) RP) RM {
	m := newRM(a.r, a.c)
	for i := range a.e {
		for j := range a.e[i] {
			m.e[i][j] = f(a.e[i][j])
		}
	}
	return m
}
func (a RM) isScalar() bool { return a.r == 1 && a.c == 1 }

// zip applies f entrywise; a 1-by-1 side is applied to every entry.
func (a RM) zip(b RM, f func(x, y RP) RP) RM {
	if a.isScalar() && !b.isScalar() {
		return b.mapE(func(y RP) RP { return f(a.e[0][0], y) })
	}
	if b.isScalar() && !a.isScalar() {
		return a.mapE(func(x RP) RP { return f(x, b.e[0][0]) })
	}
	m := newRM(a.r, a.c)
	for i := range a.e {
		for j := range a.e[i] {
			m.e[i][j] = f(a.e[i][j], b.e[i][j])
		}
	}
	return m
}
func (a RM) add(b RM) RM { return a.zip(b, RP.add) }
func (a RM) sub(b RM) RM { return a.zip(b, RP.sub) }
func (a RM) mul(b RM) RM {
	if a.isScalar() || b.isScalar() {
		return a.zip(b, RP.mul)
	}
	m := newRM(a.r, b.c)
	for i := 0; i < a.r; i++ {
		for j := 0; j < b.c; j++ {
			s := RP{}
			for k := 0; k < a.c; k++ {
				s = s.add(a.e[i][k].mul(b.e[k][j]))
			}
			m.e[i][j] = s
		}
	}
	return m
}
func (a RM) transpose() RM {
	m := newRM(a.c, a.r)
	for i := range a.e {
		for j := range a.e[i] {
			m.e[j][i] = a.e[i][j]
		}
	}
	return m
}

// same asserts that the library object e denotes the matrix want, with want's shape.
func same(e any, want RM, what string) {
	got := refM(e)
	ndAssert(got.r == want.r && got.c == want.c, what+": wrong shape")
	for i := range got.e {
		for j := range got.e[i] {
			ndAssert(got.e[i][j].eq(want.e[i][j]), what)
		}
	}
	// what the library itself reports
	if x, ok := e.(symbolic.Expression); ok {
		d := x.Dims()
		ndAssert(len(d) == 2 && d[0] == want.r && d[1] == want.c, what+": Dims() disagrees with the shape")
	}
}

// sameS asserts that the scalar object e denotes want.
func sameS(e any, want RP, what string) {
	ndAssert(ref(e).eq(want), what)
}

// ---------------------------------------------------------------------
// Symbolic library objects
// ---------------------------------------------------------------------

var negInf = -float64(symbolic.Infinity)

// theEnv is the environment all symbolic variables live in.
var theEnv = symbolic.MakeBasicEnvironment("verif")

// theType is the type of the variables of gVarID: any, the same for all.
var theType symbolic.VarType

func varType() symbolic.VarType {
	if theType == 0 {
		theType = symbolic.VarType(ndInt("type", int(symbolic.Binary), int(symbolic.Integer)))
	}
	return theType
}

// gVarID is the variable with identity id; every other field is fixed, so
// that variables are equal exactly when their identities are.
func gVarID(id uint64) symbolic.Variable {
	return symbolic.Variable{ID: id, Lower: 0, Upper: 1, Type: varType(), Name: "x", Environment: &theEnv}
}

// gVar is an arbitrary variable.
func gVar(name string) symbolic.Variable { return gVarID(ndID(name)) }

const expMax = 1000

// gMono: an arbitrary monomial with n factors: any coefficient, distinct
// variables, exponents in 1..expMax.
func gMono(name string, n int) symbolic.Monomial { return gMonoE(name, n, 1, expMax) }

func gMonoE(name string, n, lo, hi int) symbolic.Monomial {
	m := symbolic.Monomial{Coefficient: ndFloat(name + ".c")}
	for k := 0; k < n; k++ {
		v := gVar(name + ".x" + dig(k))
		for _, o := range m.VariableFactors {
			ndAssume(o.ID != v.ID)
		}
		m.VariableFactors = append(m.VariableFactors, v)
		m.Exponents = append(m.Exponents, ndInt(name+".e"+dig(k), lo, hi))
	}
	return m
}

// gMonoLin is an arbitrary coefficient times a product of n distinct variables.
func gMonoLin(name string, n int) symbolic.Monomial { return gMonoE(name, n, 1, 1) }

// gPoly: an arbitrary polynomial whose k-th monomial has ns[k] factors.
func gPoly(name string, ns ...int) symbolic.Polynomial {
	var p symbolic.Polynomial
	for k, n := range ns {
		p.Monomials = append(p.Monomials, gMono(name+dig(k), n))
	}
	return p
}
func gPolyE(name string, lo, hi int, ns ...int) symbolic.Polynomial {
	var p symbolic.Polynomial
	for k, n := range ns {
		p.Monomials = append(p.Monomials, gMonoE(name+dig(k), n, lo, hi))
	}
	return p
}

func dig(k int) string { return string(rune('0' + k)) }

func gK(name string) symbolic.K { return symbolic.K(ndFloat(name)) }

// guarded runs f and returns what it panicked with (nil if it returned).
func guarded(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// shapes of scalar operands: how many monomials, how many factors each
func gScalar(name string, shape int) symbolic.ScalarExpression {
	switch shape {
	case 0:
		return gK(name)
	case 1:
		return gVar(name)
	case 2:
		return gMono(name, 0)
	case 3:
		return gMono(name, 1)
	case 4:
		return gMono(name, 2)
	case 5:
		return gPoly(name, 0)
	case 6:
		return gPoly(name, 1)
	case 7:
		return gPoly(name, 1, 0)
	case 8:
		return gPoly(name, 1, 1)
	case 9:
		return gPoly(name, 2, 1)
	case 10:
		return gPoly(name, 2, 2)
	case 11:
		return gPoly(name, 1, 1, 0)
	case 12:
		return gPoly(name, 1, 1, 1)
	}
	return gMono(name, 3)
}

const scalarShapes = 14

// what the expression denotes, entry by entry
func entriesOf(m RM) []RP {
	var out []RP
	for i := range m.e {
		out = append(out, m.e[i]...)
	}
	return out
}

// simplified assumes that the terms of an entry have different forms and
// coefficients other than zero.
func assumeSimplified(m RM) {
	for _, p := range entriesOf(m) {
		for i, t := range p {
			if len(p) > 1 || len(t.ids) > 0 {
				ndAssume(t.c != 0)
			}
			for j := 0; j < i; j++ {
				ndAssume(ndNot(formEq(p[j], t)))
			}
		}
	}
}

func c10degAtMost(m RM, d int) bool {
	r := true
	for _, p := range entriesOf(m) {
		r = ndAnd(r, p.degAtMost(d))
	}
	return r
}

var senses = []symbolic.ConstrSense{symbolic.SenseLessThanEqual, symbolic.SenseGreaterThanEqual, symbolic.SenseEqual}

// flip is the sense after multiplication by a negative number
func flip(s symbolic.ConstrSense) symbolic.ConstrSense {
	switch s {
	case symbolic.SenseLessThanEqual:
		return symbolic.SenseGreaterThanEqual
	case symbolic.SenseGreaterThanEqual:
		return symbolic.SenseLessThanEqual
	}
	return s
}

// ---- scalar constraints
func scalarConstraint(l, r symbolic.ScalarExpression, s symbolic.ConstrSense) symbolic.ScalarConstraint {
	return symbolic.ScalarConstraint{LeftHandSide: l, RightHandSide: r, Sense: s}
}
