package main

import (
	"fmt"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// gap is left - right, entry by entry
func gap(c symbolic.Constraint) RM { return refM(c.Left()).sub(refM(c.Right())) }

// c13same: the constraint c says (want sense 0), entry by entry
func c13same(c symbolic.Constraint, want RM, s symbolic.ConstrSense, what string) {
	ndAssert(c.Check() == nil, what+": the result is malformed")
	ndAssert(c.ConstrSense() == s, what+": the sense changed")
	l, r := refM(c.Left()), refM(c.Right())
	ndAssert(l.r == want.r && l.c == want.c && r.r == want.r && r.c == want.c, what+": the shape changed")
	for i := range want.e {
		for j := range want.e[i] {
			ndAssert(l.e[i][j].sub(r.e[i][j]).eq(want.e[i][j]), what+": another solution set")
		}
	}
}

// onlyConstants: nothing but constants is left in m
func onlyConstants(m RM, what string) {
	for _, p := range entriesOf(m) {
		ndAssert(p.degAtMost(0), what+": variables are left on the right-hand side")
	}
}

func c13shapes() (symbolic.ScalarExpression, symbolic.ScalarExpression, symbolic.ConstrSense) {
	sl, sr := ndChoose("l", scalarShapes), ndChoose("r", scalarShapes)
	w := []int{0, 1, 1, 2, 3, 1, 2, 3, 4, 5, 6, 5, 5, 4}
	if ndTier() == 0 && w[sl]+w[sr] > 5 {
		return nil, nil, 0
	}
	s := (sl + sr) % 3
	if w[sl]+w[sr] < 3 {
		s = ndChoose("s", 3)
	}
	return gScalar("a", sl), gScalar("b", sr), senses[s]
}
func H_C13_scalar_simplify() {
	l, r, s := c13shapes()
	if l == nil {
		return
	}
	c := scalarConstraint(l, r, s)
	want := gap(c)
	x := c.Simplify()
	c13same(x, want, s, "Simplify")
	onlyConstants(refM(x.Right()), "Simplify")
	y := c.AsSimplifiedConstraint()
	c13same(y, want, s, "AsSimplifiedConstraint")
	onlyConstants(refM(y.Right()), "AsSimplifiedConstraint")
	c13same(c, want, s, "the constraint itself after simplification")
	ndReach("end")
}
func H_C13_scalar_scale() {
	l, r, s := c13shapes()
	if l == nil {
		return
	}
	c := scalarConstraint(l, r, s)
	f := ndFloat("f")
	ndAssume(f != 0)
	want := gap(c).mapE(func(p RP) RP { return p.scale(f) })
	x := c.ScaleBy(f)
	if f < 0 {
		c13same(x, want, flip(s), "ScaleBy a negative number")
	} else {
		c13same(x, want, s, "ScaleBy a positive number")
	}
	ndReach("end")
}

// sides of constraints in which variables are replaced: small exponents
func c13side(name string, k int) symbolic.ScalarExpression {
	switch k {
	case 0:
		return gK(name)
	case 1:
		return gVar(name)
	case 2:
		return gMonoC(name, 1, 2)
	case 3:
		return gPolyC(name, 1, 1, 0)
	case 4:
		return gMonoC(name, 2, 1)
	case 5:
		return gMonoC(name, 0, 1)
	}
	return gPolyC(name, 1, 1, 1)
}
func c13subst(c symbolic.Constraint, what string, two bool) {
	want, s := gap(c), c.ConstrSense()
	v, e := gVar("v"), gRepl("e", ndChoose("e", 4))
	one := want.mapE(func(p RP) RP { return p.subst([]uint64{v.ID}, []RP{ref(e)}) })
	c13same(c.Substitute(v, e), one, s, "Substitute in "+what)
	c13same(c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: e}), one, s, "SubstituteAccordingTo in "+what)
	if two {
		w, f := gVar("w"), gRepl("f", 1)
		ndAssume(v.ID != w.ID)
		both := want.mapE(func(p RP) RP { return p.subst([]uint64{v.ID, w.ID}, []RP{ref(e), ref(f)}) })
		c13same(c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: e, w: f}), both, s, "SubstituteAccordingTo (two variables) in "+what)
	}
	ndReach("end")
}
func H_C13_scalar_substitute() {
	kl, kr := ndChoose("l", 7), ndChoose("r", 7)
	if ndTier() == 0 && kl+kr > 4 {
		return
	}
	c := scalarConstraint(c13side("a", kl), c13side("b", kr), senses[(kl+2*kr)%3])
	c13subst(c, "a scalar constraint", kl+kr < 4)
}

// ---- vector and matrix constraints
func compound(l, r symbolic.Expression, s symbolic.ConstrSense) symbolic.Constraint {
	if x, ok := l.(symbolic.VectorExpression); ok {
		return symbolic.VectorConstraint{LeftHandSide: x, RightHandSide: r.(symbolic.VectorExpression), Sense: s}
	}
	return symbolic.MatrixConstraint{LeftHandSide: l.(symbolic.MatrixExpression), RightHandSide: r.(symbolic.MatrixExpression), Sense: s}
}
func c13simplify(c symbolic.Constraint, what string) {
	want, s := gap(c), c.ConstrSense()
	x := c.AsSimplifiedConstraint()
	c13same(x, want, s, "AsSimplifiedConstraint of "+what)
	onlyConstants(refM(x.Right()), "AsSimplifiedConstraint of "+what)
	c13same(c, want, s, "the constraint itself after simplification")
	ndReach("end")
}
func c13vec(kl int) {
	kr := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2)
	vl, vr := gVariantN(kl, "a", 4), gVariantN(kr, "b", 4)
	if ndTier() == 0 && cost(kl, vl)+cost(kr, vr) > 5-n {
		return
	}
	chooseRich(n)
	l, r := gAny(kl, "a", n, 1, vl).(symbolic.Expression), gAny(kr, "b", n, 1, vr).(symbolic.Expression)
	s := senses[(kl+2*kr+n+vl+vr)%3]
	c13simplify(compound(l, r, s), fmt.Sprintf("%T and %T", l, r))
}
func H_C13_KVector()          { c13vec(kKVec) }
func H_C13_VariableVector()   { c13vec(kVVec) }
func H_C13_MonomialVector()   { c13vec(kMVec) }
func H_C13_PolynomialVector() { c13vec(kPVec) }

func c13mat(kl int) {
	kr := matrices[ndChoose("kind", 4)]
	sh := [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}}[ndChoose("shape", 4)]
	vl, vr := gVariantN(kl, "a", 4), gVariantN(kr, "b", 4)
	if ndTier() == 0 && cost(kl, vl)+cost(kr, vr)+sh[0]*sh[1] > 5 {
		return
	}
	chooseRich(sh[0] * sh[1])
	l, r := gAny(kl, "a", sh[0], sh[1], vl).(symbolic.Expression), gAny(kr, "b", sh[0], sh[1], vr).(symbolic.Expression)
	s := senses[(kl+2*kr+vl+vr)%3]
	c13simplify(compound(l, r, s), fmt.Sprintf("%T and %T", l, r))
}
func H_C13_KMatrix()          { c13mat(kKMat) }
func H_C13_VariableMatrix()   { c13mat(kVMat) }
func H_C13_MonomialMatrix()   { c13mat(kMMat) }
func H_C13_PolynomialMatrix() { c13mat(kPMat) }

// larger shapes
func H_C13_wide() {
	ks := vectors
	r, c := 3, 1
	if ndChoose("matrix", 2) == 1 {
		ks = matrices
		sh := [][2]int{{2, 3}, {3, 2}, {3, 1}}[ndChoose("shape", 3)]
		r, c = sh[0], sh[1]
	}
	kl, kr := ks[ndChoose("kl", 4)], ks[ndChoose("kr", 4)]
	base := uint64(200)
	if ndChoose("shared", 2) == 1 {
		base = 101
	}
	gCoeff = 1
	x := gGrid(kl, "a", r, c, 100, func(i, j int) bool { return ndTier() > 0 || i+j == 1 }).(symbolic.Expression)
	y := gGrid(kr, "b", r, c, base, nil).(symbolic.Expression)
	c13simplify(compound(x, y, senses[(kl+kr+r)%3]), fmt.Sprintf("%T and %T", x, y))
}

// substitution in compound constraints: one entry is arbitrary
func c13substAny(ks []int) {
	kl := ks[ndChoose("kl", 4)]
	r, c := 1+ndChoose("r", 2), 1
	if isMatKind(kl) {
		c = 1 + ndChoose("c", 2)
	}
	if ndTier() == 0 && r*c > 2 {
		return
	}
	kr := ks[(kl+r+2*c)%4]
	if ndTier() > 0 {
		kr = ks[ndChoose("kr", 4)]
	}
	l := c08any(kl, r, c)
	gCoeff = 1
	y := gGrid(kr, "b", r, c, 100, nil).(symbolic.Expression)
	if ndChoose("swap", 2) == 1 {
		l, y = y, l
	}
	c13subst(compound(l, y, senses[(kl+2*kr+r)%3]), fmt.Sprintf("%T and %T", l, y), false)
}
func H_C13_vector_substitute() { c13substAny(vectors) }
func H_C13_matrix_substitute() { c13substAny(matrices) }

// large sides: simplification, scaling and substitution
func H_C13_big_scalar() {
	na, nb := ndChoose("a", len(bigFew)), ndChoose("b", 4+2*ndTier())
	l, r := bigScalar("a", bigFew[na]), bigScalar("b", []int{0, 2, 5, 3, 10, 14}[nb])
	op := ndChoose("op", 4)
	s := senses[(na+nb)%3]
	if ndTier() > 0 || op < 2 {
		s = senses[ndChoose("s", 3)]
	}
	if ndTier() == 0 && op > 1 && ((na+nb)%2 == 0 || termsOf(l) > 8) {
		return
	}
	c := scalarConstraint(l, r, s)
	want := gap(c)
	switch op {
	case 0:
		x := c.Simplify()
		c13same(x, want, s, "Simplify")
		onlyConstants(refM(x.Right()), "Simplify")
	case 1:
		f := ndFloat("f")
		ndAssume(f != 0)
		x := c.ScaleBy(f)
		want = want.mapE(func(p RP) RP { return p.scale(f) })
		if f < 0 {
			c13same(x, want, flip(s), "ScaleBy a negative number")
		} else {
			c13same(x, want, s, "ScaleBy a positive number")
		}
	case 2:
		v, e := X(ndChoose("v", 1+2*ndTier())), bigRepl(1+ndChoose("e", 3))
		want = want.mapE(func(p RP) RP { return p.substX([]uint64{v.ID}, []RP{ref(e)}) })
		c13same(c.Substitute(v, e), want, s, "Substitute in a scalar constraint")
	default:
		v, w := X(0), X(1)
		want = want.mapE(func(p RP) RP { return p.substX([]uint64{0, 1}, []RP{rpV(1), rpV(0)}) })
		c13same(c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: w, w: v}), want, s, "SubstituteAccordingTo (a swap) in a scalar constraint")
	}
	ndReach("end")
}
func H_C13_big_compound() {
	ks := append(append([]int{}, vectors...), matrices...)
	ka := ks[ndChoose("ka", 8)]
	kb := vectors[ndChoose("kb", 4)]
	r, c := 4, 1
	if isMatKind(ka) {
		kb += kKMat - kKVec
		r, c = 2, 3
	}
	if ndTier() == 0 {
		if isMatKind(ka) {
			r, c = 2, 2
		} else {
			r = 3
		}
	}
	i := 0
	if ndTier() > 0 || ka != kPVec && ka != kPMat || kb != kPVec && kb != kPMat {
		i = ndChoose("arb", 2) * (r*c - 1)
	}
	s := senses[(ka+kb)%3]
	// quick: one side has arbitrary coefficients
	ia, ib := i, i
	if ndTier() == 0 && ndChoose("side", 2) == 0 {
		ia = -2
	} else if ndTier() == 0 {
		ib = -2
	}
	x := compound(bigAny(ka, "a", r, c, ia), bigAny(kb, "b", r, c, ib), s)
	want := gap(x)
	switch ndChoose("op", 3) {
	case 0:
		x0 := compound(sibling(x.Left()).(symbolic.Expression), sibling(x.Right()).(symbolic.Expression), s)
		y0 := x0.AsSimplifiedConstraint()
		y := x.AsSimplifiedConstraint()
		c13same(y, want, s, "AsSimplifiedConstraint")
		c13same(y0, gap(x0), s, "AsSimplifiedConstraint, before another one")
		onlyConstants(refM(y.Right()), "AsSimplifiedConstraint")
	case 1:
		v, e := X(ndChoose("v", 1+2*ndTier())), bigRepl(1)
		want = want.mapE(func(p RP) RP { return p.substX([]uint64{v.ID}, []RP{ref(e)}) })
		c13same(x.Substitute(v, e), want, s, "Substitute in a constraint")
	default:
		if poly := func(k int) bool { return k == kPVec || k == kPMat }; ndTier() == 0 && (poly(ka) || poly(kb)) {
			return
		}
		v, w := X(0), X(1)
		want = want.mapE(func(p RP) RP { return p.substX([]uint64{0, 1}, []RP{rpV(1), rpV(0)}) })
		c13same(x.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{v: w, w: v}), want, s, "SubstituteAccordingTo (a swap) in a constraint")
	}
	ndReach("end")
}

// many entries
func H_C13_tall() {
	k := chooseShaped("kind")
	a := bigTall("a", k)
	x := compound(a, sibling(a).(symbolic.Expression), senses[k%3])
	want, s := gap(x), x.ConstrSense()
	if ndChoose("op", 2) == 0 {
		if k == kPMat || k == kPVec {
			ndReach("end")
			return
		}
		c13simplify(x, "many entries")
		return
	}
	v, e := X(1), bigRepl(2)
	want = want.mapE(func(p RP) RP { return p.substX([]uint64{v.ID}, []RP{ref(e)}) })
	c13same(x.Substitute(v, e), want, s, "Substitute in a constraint of many entries")
	ndReach("end")
}
