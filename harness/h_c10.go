package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// variables: the ones the value depends on are reported, each once, and
// nothing that does not occur
func c10vars(m RM, vs []symbolic.Variable, what string) {
	for i := range vs {
		for j := 0; j < i; j++ {
			ndAssert(vs[i].ID != vs[j].ID, what+": a variable is reported twice")
		}
		in := false
		for _, p := range entriesOf(m) {
			for _, t := range p {
				for k := range t.ids {
					in = ndOr(in, t.ids[k] == vs[i].ID)
				}
			}
		}
		ndAssert(in, what+": a variable that does not occur is reported")
	}
	for _, p := range entriesOf(m) {
		for _, t := range p {
			for k, id := range t.ids {
				in := false
				for _, v := range vs {
					in = ndOr(in, v.ID == id)
				}
				ndAssert(ndOr(in, ndOr(p.at(t) == 0, t.es[k] == 0)), what+": a variable of the expression is not reported")
			}
		}
	}
}

// degree of a simplified expression
func c10degree(m RM, d int, what string) {
	ndAssert(c10degAtMost(m, d), what+": a term has a larger degree than reported")
	some := d == 0
	for _, p := range entriesOf(m) {
		for _, t := range p {
			some = ndOr(some, ndAnd(p.at(t) != 0, t.total() == d))
		}
	}
	ndAssert(some, what+": no term has the reported degree")
}

func degreeOf(e any) int { return e.(interface{ Degree() int }).Degree() }

func c10(e symbolic.Expression, simplified bool) {
	m := refM(e)
	c10vars(m, e.Variables(), "Variables")
	ids := symbolic.VariableIDs(e)
	vs := e.Variables()
	ndAssert(len(ids) == len(vs) && symbolic.NumVariables(e) == len(vs), "NumVariables, VariableIDs and Variables disagree")
	for i := range ids {
		ndAssert(ids[i] == vs[i].ID, "VariableIDs and Variables disagree")
	}
	if !simplified {
		return
	}
	c10degree(m, degreeOf(e), "Degree")
	ndAssert(symbolic.IsPolynomialLike(e), "IsPolynomialLike")
	ndAssert(symbolic.IsLinear(e) == c10degAtMost(m, 1), "IsLinear")
	ndAssert(symbolic.IsQuadratic(e) == c10degAtMost(m, 2), "IsQuadratic")
}

// ---- scalars
func c10scalar(e symbolic.ScalarExpression) {
	p := ref(e)
	ndAssert(e.Constant() == p.konst(), "Constant")
	// requested variables (the same one may be asked for twice)
	u, v := gVar("u"), gVar("v")
	l := e.LinearCoeff([]symbolic.Variable{u, v})
	ndAssert(l.Len() == 2, "LinearCoeff: length")
	ndAssert(l.AtVec(0) == p.lin(u.ID), "LinearCoeff of the first requested variable")
	ndAssert(l.AtVec(1) == p.lin(v.ID), "LinearCoeff of the second requested variable")
}
func c10defaultWrt(e symbolic.ScalarExpression) {
	p := ref(e)
	vs := e.Variables()
	if len(vs) == 0 {
		ndAssert(guarded(func() { e.LinearCoeff() }) != nil, "LinearCoeff of a constant without variables is refused")
		return
	}
	l := e.LinearCoeff()
	ndAssert(l.Len() == len(vs), "LinearCoeff: length")
	for i := range vs {
		ndAssert(l.AtVec(i) == p.lin(vs[i].ID), "LinearCoeff is in the order of Variables")
	}
}

func c10shape(name string) symbolic.ScalarExpression {
	return gScalar(name, ndChoose("s"+name, scalarShapes))
}
func H_C10_scalar_parts() {
	c10scalar(c10shape("a"))
	ndReach("end")
}
func H_C10_scalar_default() {
	c10defaultWrt(c10shape("a"))
	ndReach("end")
}
func H_C10_scalar_unsimplified() {
	c10(c10shape("a"), false)
	ndReach("end")
}
func H_C10_scalar_simplified() {
	a := c10shape("a")
	assumeSimplified(refM(a))
	c10(a, true)
	ndReach("end")
}
func H_C10_scalar_terms() {
	ns := [][]int{{1, 1, 1}, {0, 1, 0}, {2, 1, 1}, {1, 0, 2}, {2, 2}}[ndChoose("ns", 4+ndTier())]
	a := gPoly("a", ns...)
	c10scalar(a)
	c10defaultWrt(a)
	c10(a, false)
	ndReach("end")
}

// ---- queries on monomials and polynomials
func H_C10_monomial() {
	m := gMono("a", ndChoose("n", 4))
	v := gVar("v")
	p := ref(m)
	ndAssert(m.IsConstant() == c10degAtMost(refM(symbolic.Monomial{Coefficient: 1, VariableFactors: m.VariableFactors, Exponents: m.Exponents}), 0), "Monomial.IsConstant")
	ndAssert(m.IsZero() == (m.Coefficient == 0), "Monomial.IsZero")
	isV := formEq(p[0], rpV(v.ID)[0])
	ndAssert(m.IsDegreeOneContainingVariable(v) == isV, "Monomial.IsDegreeOneContainingVariable")
	ndAssert(m.IsVariable(v) == ndAnd(isV, m.Coefficient == 1), "Monomial.IsVariable")
	ndReach("end")
}
func H_C10_forms() {
	a := gMono("a", ndChoose("n", 4))
	b := gMono("b", ndChoose("m", 4))
	ndAssert(a.MatchesFormOf(b) == formEq(ref(a)[0], ref(b)[0]), "Monomial.MatchesFormOf")
	ndReach("end")
}
func H_C10_indices() {
	p := gPoly("a", [][]int{{1, 0}, {0, 2}, {1, 1}, {2, 1}, {1, 1, 1}, {2, 0, 1}}[ndChoose("ns", 6)]...)
	r := ref(p)
	var t RT
	var i int
	switch ndChoose("query", 3) {
	case 0:
		t = RT{}
		i = p.ConstantMonomialIndex()
	case 1:
		v := gVar("v")
		t = rpV(v.ID)[0]
		i = p.VariableMonomialIndex(v)
	default:
		m := gMono("m", ndChoose("n", 3))
		t = ref(m)[0]
		i = p.MonomialIndex(m)
	}
	if i == -1 {
		for k := range r {
			ndAssert(ndNot(formEq(r[k], t)), "the index of a monomial that is there is reported as -1")
		}
	} else {
		ndAssert(i >= 0 && i < len(r), "a monomial index is out of range")
		ndAssert(formEq(r[i], t), "the index of another monomial is reported")
	}
	ndReach("end")
}
func H_C10_isconstant() {
	p := gPoly("a", [][]int{{0}, {1}, {0, 0}, {0, 1}, {2, 0}, {1, 1}}[ndChoose("ns", 6)]...)
	assumeSimplified(refM(p))
	ndAssert(p.IsConstant() == ref(p).degAtMost(0), "Polynomial.IsConstant")
	ndReach("end")
}

// ---- vectors
func c10vector(kind int) {
	n := 1 + ndChoose("n", 2)
	va := gVariantN(kind, "a", 4)
	chooseRich(n)
	a := gAny(kind, "a", n, 1, va).(symbolic.VectorExpression)
	m := refM(a)
	c := a.Constant()
	ndAssert(c.Len() == n, "Constant: length")
	u, v := gVar("u"), gVar("v")
	l := a.LinearCoeff([]symbolic.Variable{u, v})
	lr, lc := l.Dims()
	ndAssert(lr == n && lc == 2, "LinearCoeff: shape")
	for i := 0; i < n; i++ {
		ndAssert(c.AtVec(i) == m.e[i][0].konst(), "Constant of a vector")
		ndAssert(l.At(i, 0) == m.e[i][0].lin(u.ID), "LinearCoeff of a vector")
		ndAssert(l.At(i, 1) == m.e[i][0].lin(v.ID), "LinearCoeff of a vector")
	}
	ndReach("end")
}
func c10vectorDefault(kind int) {
	n := 1 + ndChoose("n", 2)
	va := gVariantN(kind, "a", 4)
	chooseRich(n)
	a := gAny(kind, "a", n, 1, va).(symbolic.VectorExpression)
	m := refM(a)
	vs := a.Variables()
	if len(vs) == 0 {
		ndAssert(guarded(func() { a.LinearCoeff() }) != nil, "LinearCoeff of a constant without variables is refused")
	} else {
		l := a.LinearCoeff()
		lr, lc := l.Dims()
		ndAssert(lr == n && lc == len(vs), "LinearCoeff: shape")
		for i := 0; i < n; i++ {
			for j := range vs {
				ndAssert(l.At(i, j) == m.e[i][0].lin(vs[j].ID), "LinearCoeff of a vector is in the order of Variables")
			}
		}
	}
	c10(a, false)
	assumeSimplified(m)
	c10(a, true)
	ndReach("end")
}
func H_C10_KVector()                  { c10vector(kKVec) }
func H_C10_VariableVector()           { c10vector(kVVec) }
func H_C10_MonomialVector()           { c10vector(kMVec) }
func H_C10_PolynomialVector()         { c10vector(kPVec) }
func H_C10_KVector_default()          { c10vectorDefault(kKVec) }
func H_C10_VariableVector_default()   { c10vectorDefault(kVVec) }
func H_C10_MonomialVector_default()   { c10vectorDefault(kMVec) }
func H_C10_PolynomialVector_default() { c10vectorDefault(kPVec) }

func H_C10_constant_vectors() {
	n := 1 + ndChoose("n", 3)
	gRich, gCoeff = -1, 1
	if ndChoose("kind", 2) == 0 {
		var mv symbolic.MonomialVector
		for i := 0; i < n; i++ {
			mv = append(mv, gMono("a"+dig(i), ndChoose("f", 2)))
		}
		m := refM(mv)
		assumeSimplified(m)
		ndAssert(mv.IsConstant() == c10degAtMost(m, 0), "MonomialVector.IsConstant")
	} else {
		var pv symbolic.PolynomialVector
		for i := 0; i < n; i++ {
			pv = append(pv, gPoly("a"+dig(i), [][]int{{0}, {1}, {0, 1}}[ndChoose("f", 3)]...))
		}
		m := refM(pv)
		assumeSimplified(m)
		ndAssert(pv.IsConstantVector() == c10degAtMost(m, 0), "PolynomialVector.IsConstantVector")
	}
	ndReach("end")
}

// ---- matrices
func c10matrix(kind int) {
	sh := [][2]int{{1, 2}, {2, 1}, {2, 2}, {1, 1}}[ndChoose("shape", 4)]
	va := gVariantN(kind, "a", 4)
	chooseRich(sh[0] * sh[1])
	a := gAny(kind, "a", sh[0], sh[1], va).(symbolic.MatrixExpression)
	m := refM(a)
	c := a.(symbolic.PolynomialLikeMatrix).Constant()
	cr, cc := c.Dims()
	ndAssert(cr == sh[0] && cc == sh[1], "Constant: shape")
	for i := 0; i < cr; i++ {
		for j := 0; j < cc; j++ {
			ndAssert(c.At(i, j) == m.e[i][j].konst(), "Constant of a matrix")
		}
	}
	c10(a, false)
	ndAssert(symbolic.IsSquare(a) == (sh[0] == sh[1]), "IsSquare")
	assumeSimplified(m)
	c10(a, true)
	ndReach("end")
}
func H_C10_KMatrix()          { c10matrix(kKMat) }
func H_C10_VariableMatrix()   { c10matrix(kVMat) }
func H_C10_MonomialMatrix()   { c10matrix(kMMat) }
func H_C10_PolynomialMatrix() { c10matrix(kPMat) }

// longer vectors and matrices, with one arbitrary entry at any place
func H_C10_wide() {
	kind := []int{kMVec, kPVec, kMMat, kPMat, kVVec, kVMat}[ndChoose("kind", 6)]
	sh := [][2]int{{3, 2}, {2, 3}, {3, 3}}[ndChoose("shape", 2+ndTier())]
	if !isMatKind(kind) {
		sh[1] = 1
	}
	gCoeff = 1
	if hasCoeffs(kind) {
		gRich = ndChoose("rich", sh[0]*sh[1])
	}
	a := gAny(kind, "a", sh[0], sh[1], 0).(symbolic.Expression)
	assumeSimplified(refM(a))
	c10(a, true)
	ndReach("end")
}

// constraints: variables and linearity
// Lists of identities and of variables reduced to their different members

func H_C10_unique() {
	n := ndChoose("n", 5+ndTier())
	var ids []uint64
	var vs []symbolic.Variable
	for i := 0; i < n; i++ {
		ids = append(ids, ndID("id"+dig(i)))
		vs = append(vs, gVarID(ids[i]))
	}
	got, gotV := symbolic.Unique(ids), symbolic.UniqueVars(vs)
	x := gVar("x")
	at, _ := symbolic.FindInSlice(x, vs)
	ndAssert(at >= -1 && at < n, "FindInSlice returns an index that does not exist")
	in := at >= 0
	for _, id := range ids {
		k, kv := 0, 0
		for _, g := range got {
			k += ndIteI(g == id, 1, 0)
		}
		for _, g := range gotV {
			kv += ndIteI(g.ID == id, 1, 0)
		}
		ndAssert(k == 1, "Unique does not list a member once")
		ndAssert(kv == 1, "UniqueVars does not list a member once")
		ndAssert(ndOr(in, id != x.ID), "FindInSlice misses a member")
	}
	if in {
		ndAssert(vs[at].ID == x.ID, "FindInSlice finds another variable")
	}
	member := func(id uint64) bool {
		k := 0
		for _, i := range ids {
			k += ndIteI(i == id, 1, 0)
		}
		return k > 0
	}
	for _, g := range got {
		ndAssert(member(g), "Unique lists something else")
	}
	for _, g := range gotV {
		ndAssert(member(g.ID), "UniqueVars lists something else")
	}
	ndReach("end")
}

// the same for longer lists, and a list that was given stays what it is when
// another one is asked for
func c10members(got []uint64, ids []uint64, what string) {
	for _, id := range ids {
		k := 0
		for _, g := range got {
			k += ndIteI(g == id, 1, 0)
		}
		ndAssert(k == 1, what+": a member is not listed once")
	}
	for _, g := range got {
		k := 0
		for _, id := range ids {
			k += ndIteI(g == id, 1, 0)
		}
		ndAssert(k > 0, what+": lists something else")
	}
}
func c10ids(vs []symbolic.Variable) []uint64 {
	var out []uint64
	for _, v := range vs {
		out = append(out, v.ID)
	}
	return out
}
func H_C10_unique_again() {
	n := 5 + 2*ndChoose("n", 2)
	x := gVar("x")
	a, b := Xs(0, 1, 2, 3, 4, 5, 6)[:n-1], Xs(7, 6, 5, 8, 9, 10, 11)[:n-1]
	k := []int{0, 3, n - 1}[ndChoose("at", 3)]
	a = append(append(append([]symbolic.Variable{}, a[:k]...), x), a[k:]...)
	var list func(vs []symbolic.Variable) []symbolic.Variable
	switch ndChoose("op", 6) {
	case 0:
		list = symbolic.UniqueVars
	case 1:
		list = func(vs []symbolic.Variable) []symbolic.Variable {
			return symbolic.UnionOfVariables(vs[:3], vs[2:], vs[1:2])
		}
	case 2:
		list = func(vs []symbolic.Variable) []symbolic.Variable { return symbolic.VariableVector(vs).Variables() }
	case 3:
		list = func(vs []symbolic.Variable) []symbolic.Variable {
			p := symbolic.Polynomial{}
			for _, v := range vs {
				p.Monomials = append(p.Monomials, symbolic.Monomial{Coefficient: 2, VariableFactors: []symbolic.Variable{v}, Exponents: []int{1}})
			}
			return p.Variables()
		}
	case 4:
		list = func(vs []symbolic.Variable) []symbolic.Variable {
			l := symbolic.VariableVector(vs)
			return symbolic.VariablesInThisConstraint(l.LessEq(symbolic.ZerosVector(len(vs))))
		}
	}
	ida := c10ids(a)
	if list == nil {
		ga := symbolic.Unique(ida)
		c10members(ga, ida, "Unique")
		c10members(symbolic.Unique(c10ids(b)), c10ids(b), "Unique, asked next")
		c10members(ga, ida, "Unique, after the next one was asked for")
		return
	}
	ga := list(a)
	c10members(c10ids(ga), ida, "the list")
	gb := list(b)
	c10members(c10ids(gb), c10ids(b), "the list asked for next")
	c10members(c10ids(ga), ida, "the list, after the next one was asked for")
	for i, v := range a {
		ndAssert(v.ID == ida[i], "the variables that were given changed")
	}
	ndReach("end")
}

func H_C10_constraint() {
	a := gScalar("a", []int{1, 3, 4, 7, 8, 9}[ndChoose("sa", 6)])
	b := gScalar("b", []int{1, 2, 3, 8}[ndChoose("sb", 4)])
	assumeSimplified(refM(a))
	assumeSimplified(refM(b))
	sc := symbolic.ScalarConstraint{LeftHandSide: a, RightHandSide: b, Sense: symbolic.SenseLessThanEqual}
	ma, mb := refM(a), refM(b)
	both := RM{r: 1, c: 2, e: [][]RP{{ma.e[0][0], mb.e[0][0]}}}
	c10vars(both, symbolic.VariablesInThisConstraint(sc), "VariablesInThisConstraint")
	ndAssert(sc.IsLinear() == c10degAtMost(both, 1), "ScalarConstraint.IsLinear")
	ndReach("end")
}

// large expressions
func c10bigOrder(e symbolic.Expression, order []int) {
	s := sibling(e).(symbolic.Expression)
	c10order(s, bigOrders[1])
	vs := s.Variables()
	c10order(e, order)
	e.Variables()
	c10vars(refM(s), vs, "Variables, before another call")
	c10order(s, order)
}
func c10order(e symbolic.Expression, order []int) {
	m := refM(e)
	vs := Xs(order...)
	switch x := e.(type) {
	case symbolic.ScalarExpression:
		ndAssert(x.Constant() == m.e[0][0].konst(), "Constant")
		l := x.LinearCoeff(vs)
		ndAssert(l.Len() == len(vs), "LinearCoeff: length")
		for j, v := range vs {
			ndAssert(l.AtVec(j) == m.e[0][0].lin(v.ID), "LinearCoeff of a requested variable")
		}
	case symbolic.VectorExpression:
		c := x.Constant()
		l := x.LinearCoeff(vs)
		lr, lc := l.Dims()
		ndAssert(lr == m.r && lc == len(vs) && c.Len() == m.r, "LinearCoeff or Constant: shape")
		for i := range m.e {
			ndAssert(c.AtVec(i) == m.e[i][0].konst(), "Constant of a vector")
			for j, v := range vs {
				ndAssert(l.At(i, j) == m.e[i][0].lin(v.ID), "LinearCoeff of a vector, a requested variable")
			}
		}
	case symbolic.PolynomialLikeMatrix:
		c := x.Constant()
		cr, cc := c.Dims()
		ndAssert(cr == m.r && cc == m.c, "Constant: shape")
		for i := range m.e {
			for j := range m.e[i] {
				ndAssert(c.At(i, j) == m.e[i][j].konst(), "Constant of a matrix")
			}
		}
	}
}
func H_C10_big() {
	e := bigScalar("a", ndChoose("a", bigScalars))
	c10bigOrder(e, bigOrders[ndChoose("order", len(bigOrders))])
	c10defaultWrt(e)
	c10(e, false)
	ndReach("end")
}
func H_C10_big_simplified() {
	e := bigScalarSimplified("a", ndChoose("a", bigScalarsSimplified))
	assumeSimplified(refM(e))
	c10(e, true)
	ndReach("end")
}

func H_C10_big_linear() {
	n := 1 + ndChoose("n", 6)
	v := bigLinear(n, ndChoose("arb", n))
	c10bigOrder(v, bigOrders[ndChoose("order", len(bigOrders))])
	assumeSimplified(refM(v))
	c10(v, true)
	ndReach("end")
}
func H_C10_big_shapes() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 4, 1
	if isMatKind(k) {
		r, c = 2, 3
	}
	e := bigAny(k, "a", r, c, ndChoose("arb", r*c))
	c10bigOrder(e, bigOrders[ndChoose("order", len(bigOrders))])
	c10(e, false)
	assumeSimplified(refM(e))
	c10(e, true)
	ndReach("end")
}
func H_C10_tall() {
	a := bigTall("a", chooseShaped("kind"))
	c10order(a, bigOrders[1])
	c10(a, false)
	assumeSimplified(refM(a))
	c10(a, true)
	ndReach("end")
}
