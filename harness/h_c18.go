package main

import (
	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// checked: a conversion gives a well-formed object
func checked(e any, what string) {
	if c, ok := e.(interface{ Check() error }); ok {
		ndAssert(c.Check() == nil, what+": the converted object is malformed")
	}
}

// Scalars into more general kinds

func H_C18_scalar() {
	switch a := gScalar("a", ndChoose("sa", scalarShapes)).(type) {
	case symbolic.K:
		w := ref(a)
		sameS(a.ToMonomial(), w, "K.ToMonomial")
		sameS(a.ToPolynomial(), w, "K.ToPolynomial")
		checked(a.ToMonomial(), "K.ToMonomial")
		checked(a.ToPolynomial(), "K.ToPolynomial")
	case symbolic.Variable:
		w := ref(a)
		sameS(a.ToMonomial(), w, "Variable.ToMonomial")
		sameS(a.ToPolynomial(), w, "Variable.ToPolynomial")
		checked(a.ToMonomial(), "Variable.ToMonomial")
		checked(a.ToPolynomial(), "Variable.ToPolynomial")
	case symbolic.Monomial:
		w := ref(a)
		p := a.ToPolynomial()
		sameS(p, w, "Monomial.ToPolynomial")
		sameS(a.Copy(), w, "Monomial.Copy")
		checked(p, "Monomial.ToPolynomial")
	case symbolic.Polynomial:
		sameS(a.Copy(), ref(a), "Polynomial.Copy")
	}
	ndReach("end")
}

// a monomial becomes a variable only when it is that variable
func H_C18_variable() {
	n := ndChoose("n", 3)
	m := gMono("a", n)
	if ndChoose("coefficient", 2) == 1 {
		m.Coefficient = 1
	}
	w := ref(m)
	isVar := false
	if n == 1 {
		isVar = m.Coefficient == 1 && m.Exponents[0] == 1
	}
	var got symbolic.Variable
	p := guarded(func() { got = m.ToVariable() })
	if isVar {
		ndAssert(p == nil, "ToVariable refuses a monomial that is a variable")
		sameS(got, w, "Monomial.ToVariable")
	} else {
		ndAssert(p != nil, "ToVariable turns a monomial that is not a variable into one")
		ndAssert(!isCrash(p), "ToVariable crashes")
	}
	ndReach("end")
}

// Vectors and matrices into more general kinds

func H_C18_vector() {
	k := vectors[ndChoose("kind", len(vectors))]
	n := 1 + ndChoose("n", 4)
	v := gVariant(k, "a")
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", n, 1, v)
	w := refM(a)
	switch x := a.(type) {
	case symbolic.KVector:
		same(x.ToMonomialVector(), w, "KVector.ToMonomialVector")
		same(x.ToPolynomialVector(), w, "KVector.ToPolynomialVector")
		same(x.ToVecDense(), w, "KVector.ToVecDense")
		same(symbolic.VecDenseToKVector(x.ToVecDense()), w, "KVector to mat.VecDense and back")
		checked(x.ToMonomialVector(), "KVector.ToMonomialVector")
		checked(x.ToPolynomialVector(), "KVector.ToPolynomialVector")
	case symbolic.VariableVector:
		same(x.ToMonomialVector(), w, "VariableVector.ToMonomialVector")
		same(x.ToPolynomialVector(), w, "VariableVector.ToPolynomialVector")
		same(x.Copy(), w, "VariableVector.Copy")
		checked(x.ToMonomialVector(), "VariableVector.ToMonomialVector")
		checked(x.ToPolynomialVector(), "VariableVector.ToPolynomialVector")
	case symbolic.MonomialVector:
		same(x.ToPolynomialVector(), w, "MonomialVector.ToPolynomialVector")
		checked(x.ToPolynomialVector(), "MonomialVector.ToPolynomialVector")
	}
	s := a.(symbolic.VectorExpression).ToScalarExpressions()
	same(symbolic.ConcretizeVectorExpression(s), w, "the vector made of the entries of a vector")
	ndReach("end")
}

var c18shapes = [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 4}, {4, 1}}

func H_C18_matrix() {
	k := matrices[ndChoose("kind", len(matrices))]
	sh := c18shapes[ndChoose("shape", len(c18shapes))]
	v := gVariantN(k, "a", 1+2*ndTier())
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", sh[0], sh[1], v)
	w := refM(a)
	switch x := a.(type) {
	case symbolic.KMatrix:
		same(x.ToMonomialMatrix(), w, "KMatrix.ToMonomialMatrix")
		same(x.ToPolynomialMatrix(), w, "KMatrix.ToPolynomialMatrix")
		same(x.ToDense(), w, "KMatrix.ToDense")
		same(symbolic.DenseToKMatrix(x.ToDense()), w, "KMatrix to mat.Dense and back")
		checked(x.ToMonomialMatrix(), "KMatrix.ToMonomialMatrix")
		checked(x.ToPolynomialMatrix(), "KMatrix.ToPolynomialMatrix")
	case symbolic.VariableMatrix:
		same(x.ToMonomialMatrix(), w, "VariableMatrix.ToMonomialMatrix")
		same(x.ToPolynomialMatrix(), w, "VariableMatrix.ToPolynomialMatrix")
		checked(x.ToMonomialMatrix(), "VariableMatrix.ToMonomialMatrix")
		checked(x.ToPolynomialMatrix(), "VariableMatrix.ToPolynomialMatrix")
	}
	ndReach("end")
}

// Plain numbers, numeric vectors and matrices

func H_C18_numbers_vector() {
	n := 1 + ndChoose("n", 4)
	var x []float64
	w := newRM(n, 1)
	for i := 0; i < n; i++ {
		x = append(x, ndFloat("a"+dig(i)))
		w.e[i][0] = rpK(x[i])
	}
	switch ndChoose("from", 6) {
	case 0:
		same(getKVector.From(x), w, "getKVector.From a slice")
	case 1:
		same(getKVector.From(*mat.NewVecDense(n, x)), w, "getKVector.From a mat.VecDense")
	case 2:
		same(getKVector.From(mat.NewVecDense(n, x)), w, "getKVector.From a *mat.VecDense")
	case 3:
		same(symbolic.VecDenseToKVector(*mat.NewVecDense(n, x)), w, "VecDenseToKVector")
	case 4: // a view into a longer vector
		y := append([]float64{ndFloat("before")}, x...)
		y = append(y, ndFloat("after"))
		view := mat.NewVecDense(n+2, y).SliceVec(1, n+1).(*mat.VecDense)
		same(getKVector.From(view), w, "getKVector.From a slice of a vector")
		same(symbolic.VecDenseToKVector(*view), w, "VecDenseToKVector of a slice of a vector")
	case 5: // a column of a matrix
		var y []float64
		for i := 0; i < n; i++ {
			y = append(y, ndFloat("l"+dig(i)), x[i], 5)
		}
		col := mat.NewDense(n, 3, y).ColView(1).(*mat.VecDense)
		same(getKVector.From(col), w, "getKVector.From a column of a matrix")
		same(symbolic.VecDenseToKVector(*col), w, "VecDenseToKVector of a column of a matrix")
	}
	ndReach("end")
}

func H_C18_numbers_ints() {
	n := 1 + ndChoose("n", 4)
	var x []int
	w := newRM(n, 1)
	for i := 0; i < n; i++ {
		x = append(x, ndInt("a"+dig(i), -1000, 1000))
		w.e[i][0] = rpK(float64(x[i]))
	}
	same(getKVector.From(x), w, "getKVector.From integers")
	ndReach("end")
}

func H_C18_numbers_matrix() {
	sh := c18shapes[ndChoose("shape", len(c18shapes))]
	r, c := sh[0], sh[1]
	var x [][]float64
	var flat []float64
	w := newRM(r, c)
	for i := 0; i < r; i++ {
		var row []float64
		for j := 0; j < c; j++ {
			row = append(row, ndFloat("a"+dig(i)+dig(j)))
			w.e[i][j] = rpK(row[j])
		}
		x = append(x, row)
		flat = append(flat, row...)
	}
	switch ndChoose("from", 6) {
	case 0:
		same(getKMatrix.From(x), w, "getKMatrix.From slices")
	case 1:
		same(getKMatrix.From(*mat.NewDense(r, c, flat)), w, "getKMatrix.From a mat.Dense")
	case 2:
		same(getKMatrix.From(mat.NewDense(r, c, flat)), w, "getKMatrix.From a *mat.Dense")
	case 3:
		same(symbolic.DenseToKMatrix(*mat.NewDense(r, c, flat)), w, "DenseToKMatrix")
	case 4: // a block of a larger matrix
		big := mat.NewDense(r+2, c+2, nil)
		for i := 0; i < r+2; i++ {
			for j := 0; j < c+2; j++ {
				big.Set(i, j, float64(10*i+j))
			}
		}
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				big.Set(i+1, j+1, x[i][j])
			}
		}
		block := big.Slice(1, r+1, 1, c+1).(*mat.Dense)
		same(getKMatrix.From(block), w, "getKMatrix.From a block of a matrix")
		same(symbolic.DenseToKMatrix(*block), w, "DenseToKMatrix of a block of a matrix")
	case 5:
		k := getKMatrix.From(x)
		same(getKMatrix.From(k), w, "getKMatrix.From a KMatrix")
	}
	ndReach("end")
}

// Generic conversions keep the value and tell the kinds apart

func H_C18_generic() {
	k := ndChoose("kind", kCount)
	if k == kInt {
		return
	}
	v := gVariant(k, "a")
	gRich, gCoeff = -1, 1
	r, c := 1, 1
	if isVecKind(k) {
		r = 1 + ndChoose("n", 3)
	}
	if isMatKind(k) {
		sh := c18shapes[ndChoose("shape", 5)]
		r, c = sh[0], sh[1]
		v = 0
	}
	chooseRich(r * c)
	a := gAny(k, "a", r, c, v)
	w := refM(a)
	vec, mtx := isVecKind(k), isMatKind(k)
	ndAssert(symbolic.IsExpression(a), "IsExpression")
	ndAssert(symbolic.IsScalarExpression(a) == (!vec && !mtx), "IsScalarExpression")
	ndAssert(symbolic.IsVectorExpression(a) == vec, "IsVectorExpression")
	ndAssert(symbolic.IsMatrixExpression(a) == mtx, "IsMatrixExpression")
	e, err := symbolic.ToExpression(a)
	ndAssert(err == nil, "ToExpression refuses an expression")
	same(e, w, "ToExpression")
	s, err := symbolic.ToScalarExpression(a)
	ndAssert((err == nil) == (!vec && !mtx), "ToScalarExpression: refusal")
	if err == nil {
		same(s, w, "ToScalarExpression")
	}
	x, err := symbolic.ToVectorExpression(a)
	ndAssert((err == nil) == vec, "ToVectorExpression: refusal")
	if err == nil {
		same(x, w, "ToVectorExpression")
	}
	m, err := symbolic.ToMatrixExpression(a)
	ndAssert((err == nil) == mtx, "ToMatrixExpression: refusal")
	if err == nil {
		same(m, w, "ToMatrixExpression")
	}
	if symbolic.IsPolynomialLike(a) {
		p, err := symbolic.ToPolynomialLike(a)
		ndAssert(err == nil, "ToPolynomialLike refuses what is polynomial like")
		same(p, w, "ToPolynomialLike")
	} else {
		ndAssert(k == kVecDp || k == kDenp, "IsPolynomialLike")
	}
	if p, err := symbolic.ToPolynomialLikeScalar(a); err == nil {
		same(p, w, "ToPolynomialLikeScalar")
	} else {
		ndAssert(vec || mtx, "ToPolynomialLikeScalar: refusal")
	}
	if p, err := symbolic.ToPolynomialLikeVector(a); err == nil {
		same(p, w, "ToPolynomialLikeVector")
	} else {
		ndAssert(!vec || k == kVecDp, "ToPolynomialLikeVector: refusal")
	}
	if p, err := symbolic.ToPolynomialLikeMatrix(a); err == nil {
		same(p, w, "ToPolynomialLikeMatrix")
	} else {
		ndAssert(!mtx || k == kDenp, "ToPolynomialLikeMatrix: refusal")
	}
	ndReach("end")
}

// Objects made of entries of mixed kinds

// c18entry: entries of every kind, with and without exponents, constants
// disguised as monomials and polynomials among them
func c18entry(name string, rich bool, idx int) symbolic.ScalarExpression {
	switch ndChoose("e"+name, 6) {
	case 0:
		return gK(name)
	case 1:
		return gVar(name)
	case 2:
		if !rich {
			return gMonoV(name, 0).ToPolynomial().Monomials[0]
		}
		return gMono(name, 1)
	case 3:
		return gMono(name, 0)
	case 4:
		if !rich {
			return symbolic.Polynomial{Monomials: []symbolic.Monomial{{Coefficient: gNextCoeff()}, gVarID(uint64(900 + idx)).ToMonomial()}}
		}
		return gPoly(name, 1, 0)
	}
	return gPoly(name, 0)
}

func H_C18_concretize_vector() {
	n := 1 + ndChoose("n", 3)
	gRich, gCoeff = -1, 1
	rich := ndChoose("rich", n)
	var s []symbolic.ScalarExpression
	w := newRM(n, 1)
	for i := 0; i < n; i++ {
		s = append(s, c18entry("a"+dig(i), i == rich, i))
		w.e[i][0] = ref(s[i])
	}
	v := symbolic.ConcretizeVectorExpression(s)
	same(v, w, "ConcretizeVectorExpression")
	checked(v, "ConcretizeVectorExpression")
	same(symbolic.ConcretizeExpression(s), w, "ConcretizeExpression of a list")
	ndReach("end")
}

func H_C18_concretize_matrix() {
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}}
	sh := shapes[ndChoose("shape", len(shapes))]
	r, c := sh[0], sh[1]
	gRich, gCoeff = -1, 1
	rich := ndChoose("rich", r*c)
	var s [][]symbolic.ScalarExpression
	w := newRM(r, c)
	for i := 0; i < r; i++ {
		var row []symbolic.ScalarExpression
		for j := 0; j < c; j++ {
			row = append(row, c18entry("a"+dig(i)+dig(j), i*c+j == rich, i*c+j))
			w.e[i][j] = ref(row[j])
		}
		s = append(s, row)
	}
	m := symbolic.ConcretizeMatrixExpression(s)
	same(m, w, "ConcretizeMatrixExpression")
	checked(m, "ConcretizeMatrixExpression")
	same(symbolic.ConcretizeExpression(s), w, "ConcretizeExpression of lists")
	ndReach("end")
}

// larger shapes, with one kind of entry in all places but one
func H_C18_concretize_wide() {
	shapes := [][2]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 2}, {5, 1}}
	sh := shapes[ndChoose("shape", len(shapes))]
	r, c := sh[0], sh[1]
	gRich, gCoeff = -1, 1
	odd, base, other := ndChoose("odd", r*c), ndChoose("base", 4), ndChoose("other", 4)
	var s [][]symbolic.ScalarExpression
	var flat []symbolic.ScalarExpression
	w := newRM(r, c)
	f := newRM(r*c, 1)
	for i := 0; i < r; i++ {
		var row []symbolic.ScalarExpression
		for j := 0; j < c; j++ {
			k := base
			if i*c+j == odd {
				k = other
			}
			e := gGrid([]int{kK, kVar, kMono, kPoly}[k], "a"+dig(i)+dig(j), 1, 1, 500+uint64(i*c+j), func(_, _ int) bool { return i*c+j == odd })
			row = append(row, e.(symbolic.ScalarExpression))
			flat = append(flat, e.(symbolic.ScalarExpression))
			w.e[i][j] = ref(e)
			f.e[i*c+j][0] = w.e[i][j]
		}
		s = append(s, row)
	}
	same(symbolic.ConcretizeMatrixExpression(s), w, "ConcretizeMatrixExpression")
	same(symbolic.ConcretizeExpression(s), w, "ConcretizeExpression of lists")
	same(symbolic.ConcretizeVectorExpression(flat), f, "ConcretizeVectorExpression")
	same(symbolic.ConcretizeExpression(flat), f, "ConcretizeExpression of a list")
	ndReach("end")
}

// Named constants

func H_C18_named() {
	n := 1 + ndChoose("n", 4)
	r, c := 1+ndChoose("r", 3), 1+ndChoose("c", 3)
	z, o := newRM(n, 1), newRM(n, 1)
	id := newRM(n, n)
	zm, om := newRM(r, c), newRM(r, c)
	for i := 0; i < n; i++ {
		z.e[i][0], o.e[i][0] = rpK(0), rpK(1)
		for j := 0; j < n; j++ {
			id.e[i][j] = rpK(0)
		}
		id.e[i][i] = rpK(1)
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			zm.e[i][j], om.e[i][j] = rpK(0), rpK(1)
		}
	}
	same(symbolic.ZerosVector(n), z, "ZerosVector")
	same(symbolic.OnesVector(n), o, "OnesVector")
	same(symbolic.ZerosMatrix(r, c), zm, "ZerosMatrix")
	same(symbolic.OnesMatrix(r, c), om, "OnesMatrix")
	same(symbolic.Identity(n), id, "Identity")
	ndReach("end")
}

// Constants may be stored as unsimplified monomials or polynomials in a list;
// single entries, rows and columns keep their place

func H_C18_concretize_scalar() {
	a := gScalar("a", ndChoose("sa", scalarShapes))
	w := refM(a)
	s := []symbolic.ScalarExpression{a.(symbolic.ScalarExpression)}
	same(symbolic.ConcretizeExpression(a), w, "ConcretizeExpression of a scalar")
	same(symbolic.ConcretizeExpression(s), w, "ConcretizeExpression of one entry")
	same(symbolic.ConcretizeExpression([][]symbolic.ScalarExpression{s}), w, "ConcretizeExpression of one entry in one row")
	same(symbolic.ConcretizeVectorExpression(s), w, "ConcretizeVectorExpression of one entry")
	same(symbolic.ConcretizeMatrixExpression([][]symbolic.ScalarExpression{s}), w, "ConcretizeMatrixExpression of one entry")
	ndReach("end")
}

// c18all: every conversion of the object
func c18all(e any) []any {
	var r []any
	switch x := e.(type) {
	case symbolic.K:
		r = append(r, x.ToMonomial(), x.ToPolynomial())
	case symbolic.Variable:
		r = append(r, x.ToMonomial(), x.ToPolynomial())
	case symbolic.Monomial:
		r = append(r, x.ToPolynomial(), x.Copy())
	case symbolic.Polynomial:
		r = append(r, x.Copy())
	case symbolic.KVector:
		v := x.ToVecDense()
		r = append(r, x.ToMonomialVector(), x.ToPolynomialVector(), v, symbolic.VecDenseToKVector(v), getKVector.From(v), getKVector.From(x))
	case symbolic.VariableVector:
		r = append(r, x.ToMonomialVector(), x.ToPolynomialVector(), x.Copy())
	case symbolic.MonomialVector:
		r = append(r, x.ToPolynomialVector())
	case symbolic.KMatrix:
		d := x.ToDense()
		r = append(r, x.ToMonomialMatrix(), x.ToPolynomialMatrix(), d, symbolic.DenseToKMatrix(d), getKMatrix.From(d), getKMatrix.From(&d), getKMatrix.From(x))
	case symbolic.VariableMatrix:
		r = append(r, x.ToMonomialMatrix(), x.ToPolynomialMatrix())
	}
	if v, ok := e.(symbolic.VectorExpression); ok {
		r = append(r, symbolic.ConcretizeVectorExpression(v.ToScalarExpressions()))
	}
	return r
}

// large objects, and two of them one after the other
func H_C18_big() {
	var a any
	switch k := ndChoose("k", 3); k {
	case 0:
		a = bigScalar("a", ndChoose("a", bigScalars))
	case 1:
		n := 5 + 4*ndChoose("n", 2)
		a = bigAny(vectors[ndChoose("kind", 4)], "a", n, 1, ndChoose("arb", n))
	default:
		sh := [][2]int{{2, 5}, {5, 3}, {4, 4}, {1, 7}, {7, 1}}[ndChoose("shape", 5)]
		a = bigAny(matrices[ndChoose("kind", 2)], "a", sh[0], sh[1], ndChoose("arb", sh[0]*sh[1]))
	}
	b := sibling(a)
	wa, wb := refM(a), refM(b)
	rb := c18all(b)
	for _, r := range c18all(a) {
		same(r, wa, "a conversion")
		checked(r, "a conversion")
	}
	for _, r := range rb {
		same(r, wb, "a conversion, before another one")
	}
	ndReach("end")
}
func H_C18_tall() {
	a := bigTall("a", chooseShaped("kind"))
	w := refM(a)
	for _, r := range c18all(a) {
		same(r, w, "a conversion of many entries")
		checked(r, "a conversion of many entries")
	}
	ndReach("end")
}

// many entries, two neighbours of which are related
func H_C18_tall_related() {
	shapes := [][2]int{{12, 1}, {4, 3}, {3, 4}, {1, 12}}
	sh := shapes[ndChoose("shape", len(shapes))]
	at, base := []int{1, 6, 9, 11}[ndChoose("at", 4)], ndChoose("base", 4)
	rel := func(name string, k int) symbolic.ScalarExpression {
		switch k {
		case 0:
			return X(0)
		case 1:
			return bigMono(ndFloat(name), 1)
		case 2:
			return symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(ndFloat(name), 1)}}
		case 3:
			return symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(ndFloat(name), 0), bigMono(1, 1)}}
		case 4:
			return symbolic.Polynomial{Monomials: []symbolic.Monomial{bigMono(2, 5), bigMono(ndFloat(name), 1)}}
		}
		return gK(name)
	}
	ka, kb := ndChoose("ka", 6), ndChoose("kb", 6)
	var s [][]symbolic.ScalarExpression
	var flat []symbolic.ScalarExpression
	fixed := bigAny(vectors[base], "", 12, 1, -2)
	for i := 0; i < sh[0]; i++ {
		var row []symbolic.ScalarExpression
		for j := 0; j < sh[1]; j++ {
			n := i*sh[1] + j
			var e symbolic.ScalarExpression
			switch x := fixed.(type) {
			case symbolic.KVector:
				e = x[n]
			case symbolic.VariableVector:
				e = x[n]
			case symbolic.MonomialVector:
				e = x[n]
			case symbolic.PolynomialVector:
				e = x[n]
			}
			if n == at-1 {
				e = rel("a", ka)
			} else if n == at {
				e = rel("b", kb)
			}
			row, flat = append(row, e), append(flat, e)
		}
		s = append(s, row)
	}
	w, f := newRM(sh[0], sh[1]), newRM(len(flat), 1)
	for n, e := range flat {
		f.e[n][0] = ref(e)
		w.e[n/sh[1]][n%sh[1]] = f.e[n][0]
	}
	same(symbolic.ConcretizeMatrixExpression(s), w, "ConcretizeMatrixExpression")
	same(symbolic.ConcretizeVectorExpression(flat), f, "ConcretizeVectorExpression")
	ndReach("end")
}
