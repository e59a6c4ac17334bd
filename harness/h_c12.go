package main

import (
	"fmt"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// linear scalars
func gLin(name string, shape int) symbolic.ScalarExpression {
	switch shape {
	case 0:
		return gK(name)
	case 1:
		return gVar(name)
	case 2:
		return gMonoLin(name, 0)
	case 3:
		return gMonoLin(name, 1)
	case 4:
		return gPolyE(name, 1, 1, 0)
	case 5:
		return gPolyE(name, 1, 1, 1)
	case 6:
		return gPolyE(name, 1, 1, 1, 0)
	case 7:
		return gPolyE(name, 1, 1, 1, 1)
	case 8:
		return gPolyE(name, 1, 1, 1, 0, 1)
	case 9:
		return gPolyE(name, 1, 1, 1, 0, 0)
	}
	return gPolyE(name, 1, 1, 1, 1, 1)
}

const linShapes = 11

// what (a, b) has to be: a.x <= b (or = b) says the same as the constraint
type linSide struct {
	l, r RP
	s    symbolic.ConstrSense
}

func (q linSide) sign() float64 {
	if q.s == symbolic.SenseGreaterThanEqual {
		return -1
	}
	return 1
}
func (q linSide) coef(id uint64) float64 { return q.sign() * q.l.sub(q.r).lin(id) }
func (q linSide) rhs() float64           { return q.sign() * (q.r.konst() - q.l.konst()) }

func isLinearRefusal(p any) bool {
	_, ok := p.(smErrors.LinearExpressionRequiredError)
	return ok
}

// wantedRefusal: the panic of asking for the representation of the wrong sense
func wrongSenseRefusal(p any, eq bool) bool {
	if eq {
		_, ok := p.(smErrors.EqualityConstraintRequiredError)
		return ok
	}
	_, ok := p.(smErrors.InequalityConstraintRequiredError)
	return ok
}

// unionIDs: the identities of the variables of l and r, each once
func unionIDs(l, r symbolic.Expression) []uint64 {
	var ids []uint64
	for _, vs := range [][]symbolic.Variable{l.Variables(), r.Variables()} {
		for _, v := range vs {
			seen := false
			for _, id := range ids {
				seen = seen || id == v.ID
			}
			if !seen {
				ids = append(ids, v.ID)
			}
		}
	}
	return ids
}

// c12someOrder: with no order requested, the columns of the coefficients are
// those of the variables in some order; a variable without a column has no
// coefficient.
func c12someOrder(R, C int, at func(i, j int) float64, qs []linSide, ids []uint64, what string) {
	ndAssert(C <= len(ids), "more columns than variables"+what)
	some := false
	perm := make([]uint64, 0, len(ids))
	used := make([]bool, len(ids))
	var rec func()
	rec = func() {
		if len(perm) == len(ids) {
			ok := true
			for i := 0; i < R; i++ {
				for j, id := range perm {
					w := 0.0
					if j < C {
						w = at(i, j)
					}
					ok = ndAnd(ok, w == qs[i].coef(id))
				}
			}
			some = ndOr(some, ok)
			return
		}
		for k := range ids {
			if !used[k] {
				used[k] = true
				perm = append(perm, ids[k])
				rec()
				perm = perm[:len(perm)-1]
				used[k] = false
			}
		}
	}
	rec()
	ndAssert(some, "the coefficients are not those of the variables in any order"+what)
}

// ---- scalar constraints
func c12scalar(l, r symbolic.ScalarExpression, s symbolic.ConstrSense, wrt int) {
	c := symbolic.ScalarConstraint{LeftHandSide: l, RightHandSide: r, Sense: s}
	q := linSide{ref(l), ref(r), s}
	var vs []symbolic.Variable
	var args [][]symbolic.Variable
	switch wrt {
	case 0: // any order of the variables that remain
		if len(l.Minus(r).Variables()) == 0 {
			return
		}
	case 1:
		u, v := gVar("u"), gVar("v")
		ndAssume(u.ID != v.ID)
		vs = []symbolic.Variable{u, v}
		args = append(args, vs)
	case 2:
		vs = []symbolic.Variable{gVar("u")}
		args = append(args, vs)
	default:
		vs = Xs(bigOrders[wrt-3]...)
		args = append(args, vs)
	}
	ndAssert(c.IsLinear(), "IsLinear of a linear constraint")
	eq := s == symbolic.SenseEqual
	refused := guarded(func() {
		if eq {
			c.LinearInequalityConstraintRepresentation(args...)
		} else {
			c.LinearEqualityConstraintRepresentation(args...)
		}
	})
	ndAssert(wrongSenseRefusal(refused, !eq), "a constraint of the wrong sense is not refused")
	a, b := c.LinearEqualityConstraintRepresentation, 0.0
	if !eq {
		a = c.LinearInequalityConstraintRepresentation
	}
	A, b := a(args...)
	ndAssert(b == q.rhs(), "wrong offset")
	if wrt == 0 {
		c12someOrder(1, A.Len(), func(i, j int) float64 { return A.AtVec(j) }, []linSide{q}, unionIDs(l, r), "")
		ndReach("end")
		return
	}
	ndAssert(A.Len() == len(vs), "wrong number of coefficients")
	for i, v := range vs {
		ndAssert(A.AtVec(i) == q.coef(v.ID), "wrong coefficient of a variable")
	}
	ndReach("end")
}

// c12pick: the shapes of both sides and the sense; the quick tier leaves the
// pairs of long polynomials out and takes one sense for the longer ones.
func c12pick() (nl, nr, s int, ok bool) {
	nl, nr = ndChoose("l", linShapes), ndChoose("r", linShapes)
	cost := []int{0, 1, 0, 1, 0, 1, 2, 3, 4, 3, 5}
	w := cost[nl] + cost[nr]
	if ndTier() == 0 && w > 5 {
		return 0, 0, 0, false
	}
	if ndTier() == 0 && w > 1 {
		return nl, nr, (nl + nr) % 3, true
	}
	return nl, nr, ndChoose("s", 3), true
}
func H_C12_scalar_requested() {
	nl, nr, s, ok := c12pick()
	if !ok {
		return
	}
	c12scalar(gLin("a", nl), gLin("b", nr), senses[s], 1+ndChoose("wrt", 2))
}
func H_C12_scalar_default() {
	nl, nr, s, ok := c12pick()
	if !ok {
		return
	}
	c12scalar(gLin("a", nl), gLin("b", nr), senses[s], 0)
}

// refusal: exactly the sides of degree above one
func H_C12_scalar_refusal() {
	sl, sr := ndChoose("l", scalarShapes), ndChoose("r", scalarShapes)
	if ndTier() == 0 && sl > 3 && sr > 3 && (sl > 8 || sr > 8) {
		return
	}
	l, r := gScalar("a", sl), gScalar("b", sr)
	assumeSimplified(refM(l))
	assumeSimplified(refM(r))
	s := senses[(sl+sr)%3]
	c := symbolic.ScalarConstraint{LeftHandSide: l, RightHandSide: r, Sense: s}
	linear := ndAnd(ref(l).degAtMost(1), ref(r).degAtMost(1))
	ndAssert(c.IsLinear() == linear, "IsLinear of a constraint")
	vs := []symbolic.Variable{gVar("u")}
	p := guarded(func() {
		if s == symbolic.SenseEqual {
			c.LinearEqualityConstraintRepresentation(vs)
		} else {
			c.LinearInequalityConstraintRepresentation(vs)
		}
	})
	ndAssert(isLinearRefusal(p) == ndNot(linear), "nonlinear constraints are refused and linear ones are not")
	ndReach("end")
}

// ---- vector constraints
func gLinVec(kind int, name string, n, v int) symbolic.VectorExpression {
	switch kind {
	case kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < n; i++ {
			x = append(x, gMonoLin(name+dig(i), []int{1, 0}[(v+i)%2]))
		}
		return x
	case kPVec:
		var x symbolic.PolynomialVector
		for i := 0; i < n; i++ {
			if gRich >= 0 && gRich != i {
				x = append(x, gPolyAt(name+dig(i), v, i))
				continue
			}
			x = append(x, gLin(name+dig(i), []int{6, 4, 7, 8}[(v+i)%4]).(symbolic.Polynomial))
		}
		return x
	}
	return gAny(kind, name, n, 1, v).(symbolic.VectorExpression)
}
func c12vector(l, r symbolic.VectorExpression, s symbolic.ConstrSense, wrt int) {
	c := symbolic.VectorConstraint{LeftHandSide: l, RightHandSide: r, Sense: s}
	ml, mr := refM(l), refM(r)
	var vs []symbolic.Variable
	var args [][]symbolic.Variable
	if wrt == 0 {
		if len(l.Minus(r).Variables()) == 0 {
			return
		}
	} else if wrt == 1 {
		u := gVar("u")
		vs = []symbolic.Variable{u}
		if ndTier() > 0 || ml.r > 1 {
			ndAssume(u.ID != 900)
			vs = []symbolic.Variable{u, gVarID(900)}
		}
		args = append(args, vs)
	} else if wrt >= 3 {
		vs = Xs(bigOrders[wrt-3]...)
		args = append(args, vs)
	} else {
		for id := uint64(204); id >= 99; id-- {
			if id < 104 || id > 199 {
				vs = append(vs, gVarID(id))
			}
		}
		args = append(args, vs)
	}
	what := fmt.Sprintf(" (%T and %T)", l, r)
	ndAssert(c.IsLinear(), "IsLinear of a linear constraint"+what)
	eq := s == symbolic.SenseEqual
	refused := guarded(func() {
		if eq {
			c.LinearInequalityConstraintRepresentation(args...)
		} else {
			c.LinearEqualityConstraintRepresentation(args...)
		}
	})
	ndAssert(wrongSenseRefusal(refused, !eq), "a constraint of the wrong sense is not refused"+what)
	rep := c.LinearInequalityConstraintRepresentation
	if eq {
		rep = c.LinearEqualityConstraintRepresentation
	}
	A, b := rep(args...)
	R, C := A.Dims()
	ndAssert(R == ml.r && (wrt == 0 || C == len(vs)), "wrong dimensions of A"+what)
	ndAssert(b.Len() == ml.r, "wrong length of b"+what)
	var qs []linSide
	for i := 0; i < R; i++ {
		qs = append(qs, linSide{ml.e[i][0], mr.e[i][0], s})
	}
	if wrt == 0 {
		c12someOrder(R, C, func(i, j int) float64 { return A.At(i, j) }, qs, unionIDs(l, r), what)
	}
	for i, q := range qs {
		for j, v := range vs {
			ndAssert(A.At(i, j) == q.coef(v.ID), "wrong coefficient of a variable"+what)
		}
		ndAssert(b.AtVec(i) == q.rhs(), "wrong offset"+what)
	}
	ndReach("end")
}

// which kinds of vectors can be subtracted from each other: all
func c12vec(kl int, wrt int) {
	kr := vectors[ndChoose("kind", 4)]
	n := 1 + ndChoose("n", 2)
	vl, vr := gVariantN(kl, "a", 4), gVariantN(kr, "b", 4)
	max := 5 - n
	if wrt == 0 && (kl == kPVec || kr == kPVec) {
		max--
	}
	if ndTier() == 0 && cost(kl, vl)+cost(kr, vr) > max {
		return
	}
	chooseRich(n)
	l, r := gLinVec(kl, "a", n, vl), gLinVec(kr, "b", n, vr)
	s := (n + kr + vl + vr) % 3
	if ndTier() > 0 || n == 1 && cost(kl, vl)+cost(kr, vr) < 4 {
		s = ndChoose("s", 3)
	}
	c12vector(l, r, senses[s], wrt)
}
func H_C12_KVector()                  { c12vec(kKVec, 1) }
func H_C12_VariableVector()           { c12vec(kVVec, 1) }
func H_C12_MonomialVector()           { c12vec(kMVec, 1) }
func H_C12_PolynomialVector()         { c12vec(kPVec, 1) }
func H_C12_KVector_default()          { c12vec(kKVec, 0) }
func H_C12_VariableVector_default()   { c12vec(kVVec, 0) }
func H_C12_MonomialVector_default()   { c12vec(kMVec, 0) }
func H_C12_PolynomialVector_default() { c12vec(kPVec, 0) }

// refusal of nonlinear vector constraints
func H_C12_vector_refusal() {
	kl := []int{kMVec, kPVec}[ndChoose("kl", 2)]
	kr := vectors[ndChoose("kr", 4)]
	vl, vr := gVariantN(kl, "a", 4), gVariantN(kr, "b", 4)
	if heavy(kl, vl, kr, vr) {
		return
	}
	chooseRich(2)
	l, r := gAny(kl, "a", 2, 1, vl).(symbolic.VectorExpression), gAny(kr, "b", 2, 1, vr).(symbolic.VectorExpression)
	if ndChoose("swap", 2) == 1 {
		l, r = r, l
	}
	assumeSimplified(refM(l))
	assumeSimplified(refM(r))
	s := senses[(vl+vr+kr)%3]
	c := symbolic.VectorConstraint{LeftHandSide: l, RightHandSide: r, Sense: s}
	linear := ndAnd(c10degAtMost(refM(l), 1), c10degAtMost(refM(r), 1))
	ndAssert(c.IsLinear() == linear, "IsLinear of a constraint")
	vs := []symbolic.Variable{gVar("u")}
	p := guarded(func() {
		if s == symbolic.SenseEqual {
			c.LinearEqualityConstraintRepresentation(vs)
		} else {
			c.LinearInequalityConstraintRepresentation(vs)
		}
	})
	ndAssert(isLinearRefusal(p) == ndNot(linear), "nonlinear constraints are refused and linear ones are not")
	ndReach("end")
}

func hasVars(kind int) bool { return kind != kKVec }

// larger systems
func H_C12_wide() {
	kl := vectors[ndChoose("kl", 4)]
	kr := vectors[ndChoose("kr", 4)]
	n := 3
	gCoeff = 1
	base := uint64(200)
	if ndChoose("shared", 2) == 1 {
		base = 101
	}
	l := gGrid(kl, "a", n, 1, 100, func(i, j int) bool { return ndTier() > 0 || i == 1 }).(symbolic.VectorExpression)
	r := gGrid(kr, "b", n, 1, base, nil).(symbolic.VectorExpression)
	if ndChoose("swap", 2) == 1 {
		l, r = r, l
	}
	s := (kl + kr) % 3
	if ndTier() > 0 {
		s = ndChoose("s", 3)
	}
	if ndChoose("wrt", 2) == 0 && (base != 200 || !hasVars(kl) || !hasVars(kr)) {
		c12vector(l, r, senses[s], 0)
		return
	}
	c12vector(l, r, senses[s], 2)
}

// large sides: many variables, requested in several orders
func bigLinearKind(k, n, arb int) symbolic.VectorExpression {
	switch k {
	case kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < n; i++ {
			c := float64(2*i - 3)
			if i == arb {
				c = ndFloat("m")
			}
			x = append(x, bigMono(c, []int{2, 0, 13, 16, 1}[i%5]))
		}
		return x
	case kPVec:
		return bigLinear(n, arb)
	}
	return bigAny(k, "k", n, 1, arb).(symbolic.VectorExpression)
}
func H_C12_big_vector() {
	kl, kr := vectors[ndChoose("kl", 4)], vectors[ndChoose("kr", 4)]
	n := []int{4, 5, 2}[ndChoose("n", 1+2*ndTier())]
	i := ndChoose("arb", n)
	l, r := bigLinearKind(kl, n, i), bigLinearKind(kr, n, i)
	s := senses[(kl+kr+i)%3]
	wrt := ndChoose("wrt", 1+len(bigOrders))
	if wrt == 0 {
		if kl == kPVec && kr == kPVec || len(unionIDs(l, r)) > 4 {
			return
		}
		c12vector(l, r, s, 0)
		return
	}
	c12vector(sibling(l).(symbolic.VectorExpression), sibling(r).(symbolic.VectorExpression), s, 2+wrt)
	c12vector(l, r, s, 2+wrt)
}
func H_C12_big_scalar() {
	forms := [][]int{{1, 0, 2, 13}, {16, 2, 14, 1}, {0}, {13, 0}}
	mk := func(name string, k int) symbolic.ScalarExpression {
		switch k {
		case 0:
			return X(1)
		case 1:
			return gK(name)
		case 2:
			return bigMono(ndFloat(name), 14)
		}
		var p symbolic.Polynomial
		for j, f := range forms[k-3] {
			c := float64(2 * j)
			if j < 2 {
				c = ndFloat(name + dig(j))
			}
			p.Monomials = append(p.Monomials, bigMono(c, f))
		}
		return p
	}
	l, r := mk("a", ndChoose("l", 7)), mk("b", ndChoose("r", 7))
	s, wrt := senses[ndChoose("s", 3)], 3+ndChoose("wrt", len(bigOrders))
	c12scalar(sibling(l).(symbolic.ScalarExpression), sibling(r).(symbolic.ScalarExpression), s, wrt)
	c12scalar(l, r, s, wrt)
}

// many entries
func H_C12_tall() {
	kl, kr := vectors[ndChoose("kl", 4)], vectors[ndChoose("kr", 4)]
	n := 11
	i := []int{0, 5, 10}[ndChoose("arb", 3)]
	c12vector(bigLinearKind(kl, n, i), bigLinearKind(kr, n, i), senses[(kl+2*kr+i)%3], 4)
	ndReach("end")
}
