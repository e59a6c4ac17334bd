package main

import "github.com/MatProGo-dev/SymbolicMath.go/symbolic"

// sums and differences: shapes
var c04shapes = [][2]int{{1, 2}, {2, 1}, {1, 1}, {2, 2}}

func c04add(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	ns := len(c04shapes)
	if ndTier() == 0 && (k < kKVec || recv == kPMat) {
		ns--
	}
	sh := c04shapes[ndChoose("shape", ns)]
	va, vb := gVariantN(recv, "a", 4), gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) || ndTier() == 0 && cost(recv, va)+cost(k, vb) == 4 && (op == opMinus && recv != kKMat || sh[0] != 1 || sh[1] != 2) {
		return
	}
	chooseRich(sh[0] * sh[1])
	binop(op, gAny(recv, "a", sh[0], sh[1], va), gAny(k, "b", sh[0], sh[1], vb))
	ndReach("end")
}

func H_C04_KMatrix_plus() {
	c04add(kKMat, []int{kFloat, kK, kVar, kDen, kDenp, kKMat, kVMat, kMMat, kPMat}, []int{opPlus})
}
func H_C04_KMatrix_minus() {
	c04add(kKMat, []int{kFloat, kK, kDen, kDenp, kKMat, kVMat, kMMat, kPMat}, []int{opMinus})
}
func H_C04_VariableMatrix_addsub() { c04add(kVMat, []int{kFloat, kK, kKMat}, opsPM) }
func H_C04_VariableMatrix_minus_dense() {
	c04add(kVMat, []int{kDen, kDenp}, []int{opMinus})
}
func H_C04_MonomialMatrix_addsub() {
	c04add(kMMat, []int{kFloat, kK, kVar, kMono, kPoly, kPMat}, opsPM)
}
func H_C04_PolynomialMatrix_plus() {
	c04add(kPMat, []int{kFloat, kK, kMono, kPoly, kKMat, kPMat}, []int{opPlus})
}
func H_C04_PolynomialMatrix_minus() {
	c04add(kPMat, []int{kFloat, kK, kVar, kMono, kPoly, kKMat, kPMat, kDen, kDenp}, []int{opMinus})
}

// scalar on the left, matrix on the right
func c04left(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	ns := len(c04shapes)
	if ndTier() == 0 {
		ns--
	}
	sh := c04shapes[ndChoose("shape", ns)]
	va, vb := gVariantN(recv, "a", 4), gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) || ndTier() == 0 && cost(recv, va)+cost(k, vb) == 4 && (op == opMinus && recv != kKMat || sh[0] != 1 || sh[1] != 2) {
		return
	}
	chooseRich(sh[0] * sh[1])
	binop(op, gAny(recv, "a", 1, 1, va), gAny(k, "b", sh[0], sh[1], vb))
	ndReach("end")
}
func H_C04_left_K() { c04left(kK, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp}, opsPM) }
func H_C04_left_Polynomial_plus() {
	c04left(kPoly, []int{kKMat, kVMat, kMMat, kPMat}, []int{opPlus})
}
func H_C04_left_Polynomial_minus() {
	c04left(kPoly, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp}, []int{opMinus})
}
func H_C04_left_Polynomial_mul() { c04left(kPoly, []int{kKMat}, []int{opMul}) }

// scalar multiples
func c04scale(recv int, args []int) {
	k := args[ndChoose("kind", len(args))]
	ns := len(c04shapes)
	if ndTier() == 0 && (k < kKVec || recv == kPMat) {
		ns--
	}
	sh := c04shapes[ndChoose("shape", ns)]
	va, vb := gVariantN(recv, "a", 4), gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) {
		return
	}
	chooseRich(sh[0] * sh[1])
	binop(opMul, gAny(recv, "a", sh[0], sh[1], va), gAny(k, "b", 1, 1, vb))
	ndReach("end")
}
func H_C04_KMatrix_scale()          { c04scale(kKMat, []int{kFloat, kK, kPoly}) }
func H_C04_VariableMatrix_scale()   { c04scale(kVMat, []int{kFloat, kK}) }
func H_C04_MonomialMatrix_scale()   { c04scale(kMMat, []int{kFloat, kK}) }
func H_C04_PolynomialMatrix_scale() { c04scale(kPMat, []int{kFloat, kK}) }

// matrix products: rows, inner, columns
var c04prods = [][3]int{{1, 2, 1}, {2, 1, 2}, {2, 2, 1}, {1, 2, 2}, {2, 2, 2}, {1, 3, 2}, {2, 3, 1}}

func c04prod(recv int, args []int, vec bool) {
	k := args[ndChoose("kind", len(args))]
	np := 2
	if vec {
		np = 3
	}
	if ndTier() == 1 {
		np = len(c04prods)
	}
	sh := c04prods[ndChoose("shape", np)]
	if vec && sh[2] != 1 {
		return
	}
	va, vb := gVariantN(recv, "a", 3), gVariantN(k, "b", 3)
	if cost(recv, va)+cost(k, vb) > 4 || ndTier() == 0 && ((va == 2) != (vb == 2) || cost(recv, va)+cost(k, vb) > 3 && sh[0]*sh[2] > 1) {
		return
	}
	// one arbitrary entry on each side; in the quick tier, two that meet
	gCoeff = 1
	i, l, j := ndChoose("row", sh[0]), ndChoose("inner", sh[1]), ndChoose("col", sh[2])
	gRich = i*sh[1] + l
	a := gAny(recv, "a", sh[0], sh[1], va)
	if ndTier() == 1 {
		l = ndChoose("innerB", sh[1])
	}
	gRich = l*sh[2] + j
	b := gAny(k, "b", sh[1], sh[2], vb)
	binop(opMul, a, b)
	ndReach("end")
}
func H_C04_KMatrix_prod() {
	c04prod(kKMat, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp}, false)
}
func H_C04_KMatrix_prodvec() { c04prod(kKMat, []int{kVVec, kVecDp}, true) }
func H_C04_VariableMatrix_prod() {
	c04prod(kVMat, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp}, false)
}
func H_C04_VariableMatrix_prodvec() {
	c04prod(kVMat, []int{kKVec, kVVec, kVecD, kVecDp}, true)
}
func H_C04_MonomialMatrix_prod()      { c04prod(kMMat, []int{kKMat, kVMat, kMMat, kPMat}, false) }
func H_C04_MonomialMatrix_prodvec()   { c04prod(kMMat, []int{kVVec}, true) }
func H_C04_PolynomialMatrix_prod()    { c04prod(kPMat, []int{kKMat, kVMat, kMMat, kPMat}, false) }
func H_C04_PolynomialMatrix_prodvec() { c04prod(kPMat, []int{kVVec}, true) }

// powers of square matrices
func c04power(k int) {
	s := 1 + ndChoose("size", 2)
	n := ndChoose("n", 4)
	if s == 2 && n == 3 || s == 2 && n > 1 && k == kPMat && ndTier() == 0 {
		return
	}
	gCoeff = 1
	gRich = ndChoose("rich", s*s)
	a := gAny(k, "a", s, s, gVariantN(k, "a", 3))
	ra := refM(a)
	r := powerOf(a, n)
	want := newRM(s, s)
	for i := 0; i < s; i++ {
		for j := 0; j < s; j++ {
			want.e[i][j] = rpK(0)
		}
		want.e[i][i] = rpK(1)
	}
	for i := 0; i < n; i++ {
		want = want.mul(ra)
	}
	same(r, want, "power of a square matrix")
	ndReach("end")
}
func H_C04_power_KMatrix()          { c04power(kKMat) }
func H_C04_power_VariableMatrix()   { c04power(kVMat) }
func H_C04_power_MonomialMatrix()   { c04power(kMMat) }
func H_C04_power_PolynomialMatrix() { c04power(kPMat) }

// wide shapes: all variables different and fixed; one row of the left or one
// column of the right operand has arbitrary coefficients
var c04wideShapes = [][3]int{{1, 3, 1}, {2, 3, 2}, {3, 2, 3}, {1, 3, 3}, {3, 3, 1}, {3, 3, 3}, {2, 4, 2}}

func c04wideProd(recv int, args []int) {
	k := args[ndChoose("kind", len(args))]
	ns := 5
	if ndTier() == 1 {
		ns = len(c04wideShapes)
	}
	sh := c04wideShapes[ndChoose("shape", ns)]
	if isVecKind(k) && sh[2] != 1 {
		return
	}
	left := ndChoose("side", 2) == 0
	if left && !hasCoeffs(recv) || !left && !hasCoeffs(k) {
		return
	}
	row, col := sh[0]-1, sh[2]-1
	if ndTier() == 1 {
		row, col = ndChoose("row", sh[0]), ndChoose("col", sh[2])
	}
	gCoeff = 1
	a := gGrid(recv, "a", sh[0], sh[1], 100, func(i, j int) bool { return left && i == row })
	b := gGrid(k, "b", sh[1], sh[2], 200, func(i, j int) bool { return !left && j == col })
	binop(opMul, a, b)
	ndReach("end")
}
func H_C04_wide_KMatrix() {
	c04wideProd(kKMat, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp, kVVec, kVecDp})
}
func H_C04_wide_VariableMatrix() {
	c04wideProd(kVMat, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp, kKVec, kVVec, kVecD, kVecDp})
}
func H_C04_wide_MonomialMatrix()   { c04wideProd(kMMat, []int{kKMat, kVMat, kMMat, kPMat, kVVec}) }
func H_C04_wide_PolynomialMatrix() { c04wideProd(kPMat, []int{kKMat, kVMat, kMMat, kPMat, kVVec}) }

// wide sums and scalar multiples: one arbitrary row
var c04wideSums = [][2]int{{2, 3}, {3, 2}, {1, 4}, {3, 3}}

func c04wideSum(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	sh := c04wideSums[ndChoose("shape", 3+ndTier())]
	left := ndChoose("side", 2) == 0
	if left && !hasCoeffs(recv) || !left && !hasCoeffs(k) {
		return
	}
	row := ndChoose("row", sh[0])
	gCoeff = 1
	a := gGrid(recv, "a", sh[0], sh[1], 100, func(i, j int) bool { return left && i == row })
	base := uint64(200)
	if ndChoose("shared", 2) == 1 {
		base = 100 // the same variables at the same places
	}
	b := gGrid(k, "b", sh[0], sh[1], base, func(i, j int) bool { return !left && (k < kKVec || i == row) })
	binop(op, a, b)
	ndReach("end")
}
func H_C04_widesum_KMatrix() {
	c04wideSum(kKMat, []int{kFloat, kK, kDen, kDenp, kKMat, kVMat, kMMat, kPMat}, opsPM)
}
func H_C04_widesum_VariableMatrix() { c04wideSum(kVMat, []int{kFloat, kK, kKMat}, opsPM) }
func H_C04_widesum_MonomialMatrix() {
	c04wideSum(kMMat, []int{kFloat, kK, kVar, kMono, kPoly, kPMat}, opsPM)
}
func H_C04_widesum_PolynomialMatrix() {
	c04wideSum(kPMat, []int{kFloat, kK, kVar, kMono, kPoly, kKMat, kPMat}, opsPM)
}

// large matrices: different variables and forms at every place; one arbitrary
// entry of each operand, at places that meet
func c04bigSum(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	i := ndChoose("arb", 6)
	sh := [][2]int{{2, 3}, {3, 2}}[i%2]
	if ndTier() > 0 {
		sh = [][2]int{{2, 3}, {3, 2}}[ndChoose("shape", 2)]
	}
	a := bigAny(recv, "a", sh[0], sh[1], i)
	var b any
	switch {
	case k == kFloat || k == kDen || k == kDenp:
		gCoeff = 1
		b = gGrid(k, "b", sh[0], sh[1], 0, func(r, c int) bool { return r*sh[1]+c == i || k == kFloat })
	case isMatKind(k):
		b = bigAny(k, "b", sh[0], sh[1], i)
	default:
		b = bigAny(k, "b", 1, 1, 0)
	}
	binopAgain(op, a, b)
	ndReach("end")
}
func H_C04_bigsum_KMatrix() {
	c04bigSum(kKMat, []int{kFloat, kK, kDen, kDenp, kKMat, kVMat, kMMat, kPMat}, opsPM)
}
func H_C04_bigsum_VariableMatrix() { c04bigSum(kVMat, []int{kFloat, kK, kKMat}, opsPM) }
func H_C04_bigsum_MonomialMatrix() {
	c04bigSum(kMMat, []int{kFloat, kK, kVar, kMono, kPoly, kPMat}, opsPM)
}
func H_C04_bigsum_PolynomialMatrix() {
	c04bigSum(kPMat, []int{kFloat, kK, kVar, kMono, kPoly, kKMat, kPMat}, opsPM)
}

func c04bigProd(recv int, args []int) {
	k := args[ndChoose("kind", len(args))]
	sh := [][3]int{{2, 3, 2}, {3, 2, 1}, {1, 4, 2}}[ndChoose("shape", 3)]
	if isVecKind(k) {
		sh[2] = 1
	}
	r, l, c := ndChoose("row", sh[0]), ndChoose("inner", sh[1]), sh[2]-1
	a := bigAny(recv, "a", sh[0], sh[1], r*sh[1]+l)
	var b any
	switch k {
	case kDen, kDenp, kVecD, kVecDp:
		gCoeff = 1
		b = gGrid(k, "b", sh[1], sh[2], 0, func(i, j int) bool { return i == l && j == c })
	default:
		b = bigAny(k, "b", sh[1], sh[2], l*sh[2]+c)
	}
	binopAgain(opMul, a, b)
	ndReach("end")
}
func H_C04_bigprod_KMatrix() {
	c04bigProd(kKMat, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp, kVVec, kVecDp})
}
func H_C04_bigprod_VariableMatrix() {
	c04bigProd(kVMat, []int{kKMat, kVMat, kMMat, kPMat, kDen, kDenp, kKVec, kVVec, kVecD, kVecDp})
}
func H_C04_bigprod_MonomialMatrix()   { c04bigProd(kMMat, []int{kKMat, kVMat, kMMat, kPMat, kVVec}) }
func H_C04_bigprod_PolynomialMatrix() { c04bigProd(kPMat, []int{kKMat, kVMat, kMMat, kVVec}) }

// high powers: constants with one arbitrary entry, other kinds with fixed entries
func H_C04_power_high() {
	k := []int{kKMat, kVMat, kMMat}[ndChoose("kind", 3)]
	s, max := 1+ndChoose("size", 2), []int{9, 4, 2}
	if s == 1 {
		max = []int{13, 9, 8}
	}
	n := 2 + ndChoose("n", max[k-kKMat]-1)
	arb := -1 // the powers of the other kinds of matrix grow too much
	if k == kKMat && n < 8 || s == 1 || n == 2 && k < kMMat {
		arb = ndChoose("arb", s*s)
	}
	a := bigAny(k, "a", s, s, arb)
	ra := refM(a)
	want := ra
	for i := 1; i < n; i++ {
		want = want.mul(ra)
	}
	same(powerOf(a, n), want, "high power of a square matrix")
	ndReach("end")
}

// matrices with a structure: zeros, ones and the like, and one arbitrary entry
func c04struct(name string, k, r, c, arb int) symbolic.KMatrix {
	var m symbolic.KMatrix
	for i := 0; i < r; i++ {
		var row []symbolic.K
		for j := 0; j < c; j++ {
			on := false
			switch k {
			case 0: // diagonal
				on = i == j
			case 1: // lower triangular
				on = i >= j
			case 2: // upper triangular
				on = i <= j
			case 3: // permutation
				on = (i+1)%r == j
			case 4: // zeros
			case 5:
				on = true
			}
			x := symbolic.K(0)
			if i*c+j == arb {
				x = gK(name)
			} else if on {
				x = 1
				if arb%2 == 0 && k < 3 {
					x = symbolic.K(float64(i-2*j) + 0.5)
				}
			}
			row = append(row, x)
		}
		m = append(m, row)
	}
	return m
}
func H_C04_structured() {
	n := 3 - ndChoose("n", 2)
	var m any = c04struct("m", ndChoose("structure", 6), n, n, ndChoose("arb", n*n))
	k := []int{kKMat, kVMat, kMMat, kPMat, kVVec}[ndChoose("kind", 5)]
	if ndChoose("dense", 2) == 1 {
		if k != kVMat {
			return
		}
		m = m.(symbolic.KMatrix).ToDense()
	}
	c := 3 - n
	if k == kKMat {
		c++
	}
	if isVecKind(k) || c == 0 {
		c = 1
	}
	xa := -1
	if k == kKMat || ndTier() > 0 {
		xa = n*c - 1
	}
	x := bigAny(k, "x", n, c, xa)
	if _, ok := m.(symbolic.KMatrix); ok {
		binop(opMul, m, x)
	}
	if !isVecKind(k) && k != kKMat {
		binop(opMul, bigAny(k, "x", c, n, xa), m)
	}
	ndReach("end")
}

// many entries
func H_C04_tall_sum() {
	ka := matrices[ndChoose("ka", 4)]
	args := map[int][]int{
		kKMat: {kK, kKMat, kVMat, kMMat, kPMat},
		kVMat: {kK, kKMat},
		kMMat: {kK, kVar, kMono, kPoly, kPMat},
		kPMat: {kK, kVar, kMono, kPoly, kKMat, kPMat},
	}[ka]
	kb := args[ndChoose("kb", len(args))]
	op := []int{opPlus, opMinus}[ndChoose("op", 2)]
	var a symbolic.Expression
	if ndTier() > 0 {
		a = bigTall("a", ka)
	} else {
		a = bigTallOne("a", ka, ka+kb+op)
	}
	d := a.Dims()
	b := bigAny(kb, "b", 1, 1, 0)
	if isMatKind(kb) {
		b = bigAny(kb, "b", d[0], d[1], -2)
	}
	binop(op, a, b)
	ndReach("end")
}
func H_C04_tall_product() {
	ka, kb := matrices[ndChoose("ka", 4)], []int{kKMat, kVMat, kMMat, kVVec}[ndChoose("kb", 4)]
	if ka == kPMat && kb != kKMat {
		return
	}
	n := ka + kb
	if ndTier() > 0 {
		n = ndChoose("shape", 12)
	}
	sh := [][3]int{{2, 7, 2}, {5, 2, 3}, {7, 1, 4}, {1, 9, 1}}[n%4]
	if kb == kVVec {
		sh[2] = 1
	}
	i := []int{sh[1] - 1, 0, sh[1] / 2}[n%3]
	a := bigAny(ka, "a", sh[0], sh[1], (sh[0]-1)*sh[1]+i)
	binop(opMul, a, bigAny(kb, "b", sh[1], sh[2], i*sh[2]))
	ndReach("end")
}
