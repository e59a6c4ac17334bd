package main

import (
	"fmt"
	"runtime"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// kinds of operands
const (
	kFloat = iota
	kInt
	kK
	kVar
	kMono
	kPoly
	kKVec
	kVVec
	kMVec
	kPVec
	kVecD
	kVecDp
	kKMat
	kVMat
	kMMat
	kPMat
	kDen
	kDenp
	kCount
)

var scalars = []int{kK, kVar, kMono, kPoly}
var vectors = []int{kKVec, kVVec, kMVec, kPVec}
var matrices = []int{kKMat, kVMat, kMMat, kPMat}

func isVecKind(k int) bool { return k >= kKVec && k <= kVecDp }
func isMatKind(k int) bool { return k >= kKMat }

// entry generators: variant v selects how many monomials and factors
func gMonoV(name string, v int) symbolic.Monomial { return gMono(name, []int{1, 0, 2}[v%3]) }
func gPolyV(name string, v int) symbolic.Polynomial {
	switch v % 4 {
	case 0:
		return gPoly(name, 1, 0)
	case 1:
		return gPoly(name, 0)
	case 2:
		return gPoly(name, 1)
	}
	return gPoly(name, 1, 1)
}

const variants = 4

// gRich: when >= 0, only the entry with this row-major index of a monomial or
// polynomial vector or matrix is arbitrary; the others are a fixed coefficient,
// different for every one, times a variable that depends on the index.
// Set by each harness before it generates objects.
var gRich int
var gCoeff float64

func gNextCoeff() float64 {
	gCoeff = 2*gCoeff + 1
	return gCoeff
}

// chooseRich picks the arbitrary entry among n, in the quick tier; in the
// thorough one every entry is arbitrary.
func chooseRich(n int) {
	gRich, gCoeff = -1, 1
	if ndTier() == 0 && n > 1 {
		gRich = ndChoose("rich", n)
	}
}
func gMonoAt(name string, v, idx int) symbolic.Monomial {
	if gRich >= 0 && gRich != idx {
		return symbolic.Monomial{
			Coefficient:     gNextCoeff(),
			VariableFactors: []symbolic.Variable{gVarID(uint64(900 + idx))},
			Exponents:       []int{1},
		}
	}
	return gMonoV(name, v)
}
func gPolyAt(name string, v, idx int) symbolic.Polynomial {
	if gRich >= 0 && gRich != idx {
		return symbolic.Polynomial{Monomials: []symbolic.Monomial{gMonoAt(name, v, idx)}}
	}
	return gPolyV(name, v)
}

// gAny is an arbitrary object of the kind, r-by-c; entry (i,j) has variant v+i+j.
func gAny(kind int, name string, r, c, v int) any {
	switch kind {
	case kFloat:
		return ndFloat(name)
	case kInt:
		return ndInt(name, -1000, 1000)
	case kK:
		return gK(name)
	case kVar:
		return gVar(name)
	case kMono:
		return gMonoV(name, v)
	case kPoly:
		return gPolyV(name, v)
	case kKVec:
		var x symbolic.KVector
		for i := 0; i < r; i++ {
			x = append(x, gK(name+dig(i)))
		}
		return x
	case kVVec:
		var x symbolic.VariableVector
		for i := 0; i < r; i++ {
			x = append(x, gVar(name+dig(i)))
		}
		return x
	case kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < r; i++ {
			x = append(x, gMonoAt(name+dig(i), v+i, i))
		}
		return x
	case kPVec:
		var x symbolic.PolynomialVector
		for i := 0; i < r; i++ {
			x = append(x, gPolyAt(name+dig(i), v+i, i))
		}
		return x
	case kVecD, kVecDp:
		x := mat.NewVecDense(r, nil)
		for i := 0; i < r; i++ {
			x.SetVec(i, ndFloat(name+dig(i)))
		}
		if kind == kVecD {
			return *x
		}
		return x
	case kKMat:
		var x symbolic.KMatrix
		for i := 0; i < r; i++ {
			var y []symbolic.K
			for j := 0; j < c; j++ {
				y = append(y, gK(name+dig(i)+dig(j)))
			}
			x = append(x, y)
		}
		return x
	case kVMat:
		var x symbolic.VariableMatrix
		for i := 0; i < r; i++ {
			var y []symbolic.Variable
			for j := 0; j < c; j++ {
				y = append(y, gVar(name+dig(i)+dig(j)))
			}
			x = append(x, y)
		}
		return x
	case kMMat:
		var x symbolic.MonomialMatrix
		for i := 0; i < r; i++ {
			var y []symbolic.Monomial
			for j := 0; j < c; j++ {
				y = append(y, gMonoAt(name+dig(i)+dig(j), v+i+j, i*c+j))
			}
			x = append(x, y)
		}
		return x
	case kPMat:
		var x symbolic.PolynomialMatrix
		for i := 0; i < r; i++ {
			var y []symbolic.Polynomial
			for j := 0; j < c; j++ {
				y = append(y, gPolyAt(name+dig(i)+dig(j), v+i+j, i*c+j))
			}
			x = append(x, y)
		}
		return x
	case kDen, kDenp:
		x := mat.NewDense(r, c, nil)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				x.Set(i, j, ndFloat(name+dig(i)+dig(j)))
			}
		}
		if kind == kDen {
			return *x
		}
		return x
	}
	panic("kind")
}

// hasVariants: objects of the kind come in several variants.
func hasVariants(kind int) bool {
	switch kind {
	case kMono, kPoly, kMVec, kPVec, kMMat, kPMat:
		return true
	}
	return false
}

// gVariant chooses a variant where that makes a difference.
func gVariant(kind int, name string) int {
	switch kind {
	case kMono, kMVec, kMMat:
		return ndChoose("v"+name, 3)
	case kPoly, kPVec, kPMat:
		return ndChoose("v"+name, 4)
	}
	return 0
}

// gVariantN chooses among the first n variants only.
func gVariantN(kind int, name string, n int) int {
	if !hasVariants(kind) {
		return 0
	}
	return ndChoose("v"+name, n)
}

// heavy: the combination of variants is left to the thorough tier.
func heavy(ka, va, kb, vb int) bool {
	return ndTier() == 0 && cost(ka, va)+cost(kb, vb) > 4
}
func cost(k, v int) int {
	switch k {
	case kMono, kMVec, kMMat:
		return []int{2, 1, 3}[v%3]
	case kPoly, kPVec, kPMat:
		return []int{2, 1, 2, 3}[v%4]
	}
	return 1
}

// binary operations
const (
	opPlus = iota
	opMinus
	opMul
)

var opName = []string{"Plus", "Minus", "Multiply"}

func apply(op int, a symbolic.Expression, b any) any {
	switch op {
	case opPlus:
		return a.Plus(b)
	case opMinus:
		return a.Minus(b)
	}
	return a.Multiply(b)
}
func applyRef(op int, a, b RM) RM {
	switch op {
	case opPlus:
		return a.add(b)
	case opMinus:
		return a.sub(b)
	}
	return a.mul(b)
}

// binop asserts that the operation on a and b returns exactly its value.
func binop(op int, a, b any) {
	ra, rb := refM(a), refM(b)
	want := applyRef(op, ra, rb)
	r := apply(op, a.(symbolic.Expression), b)
	same(r, want, opName[op]+" of "+fmt.Sprintf("%T and %T", a, b))
}

// binopAgain is binop after an operation on similar operands, whose result stays
func binopAgain(op int, a, b any) {
	s, t := sibling(a), sibling(b)
	x := apply(op, s.(symbolic.Expression), t)
	binop(op, a, b)
	same(x, applyRef(op, refM(s), refM(t)), opName[op]+", before another one, of "+fmt.Sprintf("%T and %T", a, b))
}

// isCrash: the panic is an internal runtime error, not a refusal.
func isCrash(p any) bool {
	_, ok := p.(runtime.Error)
	return ok
}

func powerOf(a any, n int) any { return a.(symbolic.Expression).Power(n) }

// scalarOf reads a 1-by-1 result, whatever its kind.
func scalarOf(e any) any {
	switch x := e.(type) {
	case symbolic.KVector:
		return x[0]
	case symbolic.VariableVector:
		return x[0]
	case symbolic.MonomialVector:
		return x[0]
	case symbolic.PolynomialVector:
		return x[0]
	}
	return e
}

var opsPM = []int{opPlus, opMinus}
var vecKinds = []int{kKVec, kVVec, kMVec, kPVec}
var scalKinds = []int{kFloat, kK, kVar, kMono, kPoly}

func mustVecD(x any) *mat.VecDense { return x.(*mat.VecDense) }

// gGrid is an r-by-c object of the kind whose variables are all different and
// fixed, the identities starting at base. The coefficient (or constant) of an
// entry is arbitrary where arb says so and a fixed number otherwise. It serves
// wide shapes, where an arbitrary choice of every part would be too much.
func gGrid(kind int, name string, r, c int, base uint64, arb func(i, j int) bool) any {
	coef := func(i, j int) float64 {
		if arb != nil && arb(i, j) {
			return ndFloat(name + dig(i) + dig(j))
		}
		return gNextCoeff()
	}
	vr := func(i, j int) symbolic.Variable { return gVarID(base + uint64(i*c+j)) }
	mon := func(i, j int) symbolic.Monomial {
		return symbolic.Monomial{Coefficient: coef(i, j), VariableFactors: []symbolic.Variable{vr(i, j)}, Exponents: []int{1}}
	}
	pol := func(i, j int) symbolic.Polynomial {
		return symbolic.Polynomial{Monomials: []symbolic.Monomial{mon(i, j), {Coefficient: gNextCoeff()}}}
	}
	switch kind {
	case kFloat:
		return coef(0, 0)
	case kK:
		return symbolic.K(coef(0, 0))
	case kVar:
		return vr(0, 0)
	case kMono:
		return mon(0, 0)
	case kPoly:
		return pol(0, 0)
	case kKVec:
		var x symbolic.KVector
		for i := 0; i < r; i++ {
			x = append(x, symbolic.K(coef(i, 0)))
		}
		return x
	case kVVec:
		var x symbolic.VariableVector
		for i := 0; i < r; i++ {
			x = append(x, vr(i, 0))
		}
		return x
	case kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < r; i++ {
			x = append(x, mon(i, 0))
		}
		return x
	case kPVec:
		var x symbolic.PolynomialVector
		for i := 0; i < r; i++ {
			x = append(x, pol(i, 0))
		}
		return x
	case kVecD, kVecDp:
		x := mat.NewVecDense(r, nil)
		for i := 0; i < r; i++ {
			x.SetVec(i, coef(i, 0))
		}
		if kind == kVecD {
			return *x
		}
		return x
	case kDen, kDenp:
		x := mat.NewDense(r, c, nil)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				x.Set(i, j, coef(i, j))
			}
		}
		if kind == kDen {
			return *x
		}
		return x
	}
	var km symbolic.KMatrix
	var vm symbolic.VariableMatrix
	var mm symbolic.MonomialMatrix
	var pm symbolic.PolynomialMatrix
	for i := 0; i < r; i++ {
		var kr []symbolic.K
		var vrow []symbolic.Variable
		var mr []symbolic.Monomial
		var pr []symbolic.Polynomial
		for j := 0; j < c; j++ {
			switch kind {
			case kKMat:
				kr = append(kr, symbolic.K(coef(i, j)))
			case kVMat:
				vrow = append(vrow, vr(i, j))
			case kMMat:
				mr = append(mr, mon(i, j))
			case kPMat:
				pr = append(pr, pol(i, j))
			}
		}
		km, vm, mm, pm = append(km, kr), append(vm, vrow), append(mm, mr), append(pm, pr)
	}
	switch kind {
	case kKMat:
		return km
	case kVMat:
		return vm
	case kMMat:
		return mm
	case kPMat:
		return pm
	}
	panic("kind")
}

// hasCoeffs: the kind has coefficients or constants.
func hasCoeffs(kind int) bool { return kind != kVar && kind != kVVec && kind != kVMat }

// has: x is one of xs
func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
