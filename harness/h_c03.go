package main

func c03add(recv, maxLen int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	n := 1 + ndChoose("len", maxLen)
	va := gVariantN(recv, "a", 4)
	vb := gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) {
		return
	}
	chooseRich(n)
	binop(op, gAny(recv, "a", n, 1, va), gAny(k, "b", n, 1, vb))
	ndReach("end")
}

func H_C03_KVector_addsub_vec() {
	c03add(kKVec, 2, []int{kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, opsPM)
}
func H_C03_KVector_addsub_scalar()        { c03add(kKVec, 2, scalKinds, opsPM) }
func H_C03_VariableVector_addsub_vec()    { c03add(kVVec, 2, vecKinds, opsPM) }
func H_C03_VariableVector_addsub_vecd()   { c03add(kVVec, 3, []int{kVecD, kVecDp}, opsPM) }
func H_C03_VariableVector_addsub_scalar() { c03add(kVVec, 2, scalKinds, opsPM) }
func H_C03_MonomialVector_addsub_vec()    { c03add(kMVec, 2, vecKinds, opsPM) }
func H_C03_MonomialVector_addsub_scalar() { c03add(kMVec, 2, scalKinds, opsPM) }
func H_C03_PolynomialVector_addsub_vec()  { c03add(kPVec, 2, vecKinds, opsPM) }
func H_C03_PolynomialVector_addsub_scalar() {
	c03add(kPVec, 2, scalKinds, opsPM)
}
func H_C03_vec_int() {
	c03add([]int{kVVec, kMVec}[ndChoose("recv", 2)], 2, []int{kInt}, []int{opPlus})
}
func H_C03_vec_minus_numvec() {
	c03add([]int{kMVec, kPVec}[ndChoose("recv", 2)], 2, []int{kVecD, kVecDp}, []int{opMinus})
}

// scalar on the left, vector on the right
func H_C03_scalar_left_K() {
	c03left(kK, []int{kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, opsPM)
}
func H_C03_scalar_left_Variable() {
	c03left(kVar, []int{kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, []int{opPlus, opMinus, opMul})
}
func H_C03_scalar_left_Polynomial() {
	c03left(kPoly, []int{kKVec, kVVec, kMVec, kPVec}, opsPM)
}
func c03left(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	n := 1 + ndChoose("len", 2)
	va, vb := gVariantN(recv, "a", 4), gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) {
		return
	}
	chooseRich(n)
	binop(op, gAny(recv, "a", 1, 1, va), gAny(k, "b", n, 1, vb))
	ndReach("end")
}

// products
func c03mul(recv int, args []int) {
	k := args[ndChoose("kind", len(args))]
	n := 1 + ndChoose("len", 2)
	va, vb := gVariantN(recv, "a", 4), gVariantN(k, "b", 4)
	if heavy(recv, va, k, vb) {
		return
	}
	chooseRich(n)
	binop(opMul, gAny(recv, "a", n, 1, va), gAny(k, "b", 1, 1, vb))
	ndReach("end")
}
func H_C03_KVector_mul() {
	c03mul(kKVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kVecD, kVecDp})
}
func H_C03_VariableVector_mul() {
	c03mul(kVVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec})
}
func H_C03_MonomialVector_mul()   { c03mul(kMVec, []int{kFloat, kK, kVar, kMono, kPoly}) }
func H_C03_PolynomialVector_mul() { c03mul(kPVec, []int{kFloat, kK, kPoly, kPVec}) }

func H_C03_power() {
	k := vectors[ndChoose("kind", 4)]
	n := ndInt("n", 0, 3)
	chooseRich(1)
	a := gAny(k, "a", 1, 1, gVariantN(k, "a", 3))
	ra := refM(a)
	r := powerOf(a, n)
	n = ndConcretizeI(n)
	sameS(scalarOf(r), ra.e[0][0].pow(n), "power of a one-entry vector")
	ndReach("end")
}

// longer vectors: all variables different and fixed; the coefficients of one
// operand arbitrary
func c03wide(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	if op == opMul && isVecKind(k) {
		return
	}
	n := 3 + ndChoose("len", 1+ndTier())
	left := ndChoose("side", 2) == 0
	if left && !hasCoeffs(recv) || !left && !hasCoeffs(k) {
		return
	}
	base := uint64(200)
	if ndChoose("shared", 2) == 1 {
		base = 100
	}
	gCoeff = 1
	a := gGrid(recv, "a", n, 1, 100, func(i, j int) bool { return left })
	b := gGrid(k, "b", n, 1, base, func(i, j int) bool { return !left })
	binop(op, a, b)
	ndReach("end")
}
func H_C03_wide_KVector() {
	c03wide(kKVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, []int{opPlus, opMinus, opMul})
}
func H_C03_wide_VariableVector() {
	c03wide(kVVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, []int{opPlus, opMinus, opMul})
}
func H_C03_wide_MonomialVector() {
	c03wide(kMVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec}, []int{opPlus, opMinus, opMul})
}
func H_C03_wide_PolynomialVector() {
	c03wide(kPVec, []int{kFloat, kK, kPoly, kKVec, kVVec, kMVec, kPVec}, opsPM)
}

// large vectors: different variables and forms at every place; one arbitrary
// entry of each operand, at the same place
func c03big(recv int, args []int, ops []int) {
	op := ops[ndChoose("op", len(ops))]
	k := args[ndChoose("kind", len(args))]
	if op == opMul && isVecKind(k) {
		return
	}
	n := 4
	i := ndChoose("arb", n)
	a := bigAny(recv, "a", n, 1, i)
	var b any
	switch k {
	case kFloat, kVecD, kVecDp:
		gCoeff = 1
		b = gGrid(k, "b", n, 1, 0, func(r, c int) bool { return r == i || k == kFloat })
	default:
		m := 1
		if isVecKind(k) {
			m = n
		}
		j := i
		if m == 1 {
			j = 0
		}
		b = bigAny(k, "b", m, 1, j)
	}
	binopAgain(op, a, b)
	ndReach("end")
}
func H_C03_big_KVector() {
	c03big(kKVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, []int{opPlus, opMinus, opMul})
}
func H_C03_big_VariableVector() {
	c03big(kVVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kVecD, kVecDp}, []int{opPlus, opMinus, opMul})
}
func H_C03_big_MonomialVector() {
	c03big(kMVec, []int{kFloat, kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec}, []int{opPlus, opMinus, opMul})
}
func H_C03_big_PolynomialVector() {
	c03big(kPVec, []int{kFloat, kK, kPoly, kKVec, kVVec, kMVec, kPVec}, opsPM)
}

// many entries
func H_C03_tall() {
	ka, kb := vectors[ndChoose("ka", 4)], []int{kFloat, kK, kVar, kMono, kKVec, kVVec, kMVec, kPVec}[ndChoose("kb", 8)]
	op := []int{opPlus, opMinus, opMul}[ndChoose("op", 3)]
	if op == opMul && kb > kK {
		return
	}
	a := bigTall("a", ka)
	var b any
	switch {
	case kb == kFloat:
		b = ndFloat("b")
	case isVecKind(kb):
		b = sibling(bigAny(kb, "b", 11, 1, -2))
	default:
		b = bigAny(kb, "b", 1, 1, 0)
	}
	binop(op, a, b)
	ndReach("end")
}
