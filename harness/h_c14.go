package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// ptX, ptY: the value of the variables 1 and 2, an arbitrary assignment
var ptX, ptY float64

// valueAt is the value of p under the assignment; exponents are numbers.
func (p RP) valueAt() float64 {
	s := 0.0
	for _, t := range p {
		x := t.c
		for k, id := range t.ids {
			for e := 0; e < t.es[k]; e++ {
				if id == 1 {
					x *= ptX
				} else {
					x *= ptY
				}
			}
		}
		s += x
	}
	return s
}

// holds: the assignment satisfies the scalar constraint
func holds(c symbolic.ScalarConstraint) bool {
	l, r := ref(c.LeftHandSide).valueAt(), ref(c.RightHandSide).valueAt()
	switch c.Sense {
	case symbolic.SenseLessThanEqual:
		return l <= r
	case symbolic.SenseGreaterThanEqual:
		return l >= r
	}
	return l == r
}

// c14var is an unbounded variable: whether bounds of variables count is left open
func c14var(id uint64) symbolic.Variable {
	v := gVarID(id)
	v.Lower, v.Upper = negInf, -negInf
	return v
}

func c14term(name string, es ...int) symbolic.Monomial {
	m := symbolic.Monomial{Coefficient: ndFloat(name)}
	for k, e := range es {
		if e > 0 {
			m.VariableFactors = append(m.VariableFactors, c14var(uint64(k+1)))
			m.Exponents = append(m.Exponents, e)
		}
	}
	return m
}

// c14side: sides of constraints in the variables 1 and 2
func c14side(name string, k int) symbolic.ScalarExpression {
	t := func(n string, es ...int) symbolic.Monomial { return c14term(name+n, es...) }
	p := func(ms ...symbolic.Monomial) symbolic.Polynomial { return symbolic.Polynomial{Monomials: ms} }
	switch k {
	case 0:
		return gK(name)
	case 1:
		return c14var(1)
	case 2:
		return t("c", 1)
	case 3:
		return p(t("c", 1), t("d"))
	case 4:
		return t("c", 2)
	case 5:
		return t("d")
	case 6:
		return p(t("c", 1), t("d", 1))
	case 7:
		return p(t("c", 1), t("d", 0, 1))
	case 8:
		return p(t("c", 2), t("d", 1))
	case 9:
		return t("c", 1, 1)
	case 10:
		return c14var(2)
	}
	return t("c", 0, 1)
}

const c14sides = 12

func c14assign() { ptX, ptY = ndFloat("x"), ndFloat("y") }

func c14implies(c symbolic.Constraint, parts []symbolic.ScalarConstraint, o symbolic.ScalarConstraint) {
	c14assign()
	all := true
	for _, p := range parts {
		all = ndAnd(all, holds(p))
	}
	ndAssume(ndAnd(all, ndNot(holds(o))))
	ndAssert(!c.ImpliesThisIsAlsoSatisfied(o), "a constraint is reported to imply another one, which an assignment that satisfies it violates")
	ndReach("end")
}
func c14sense(name string) symbolic.ConstrSense { return senses[ndChoose(name, 3)] }

// one side a constant on both
func H_C14_implies_plain() {
	c := scalarConstraint(c14side("a", ndChoose("l", c14sides)), gK("b"), c14sense("s"))
	o := scalarConstraint(c14side("e", ndChoose("m", c14sides)), gK("f"), c14sense("t"))
	c14implies(c, []symbolic.ScalarConstraint{c}, o)
}

// expressions on both sides of the first or of the second
func H_C14_implies_both_sides() {
	l, r := ndChoose("l", 9), ndChoose("r", 9)
	if ndTier() == 0 && l > 3 && r > 3 {
		return
	}
	c := scalarConstraint(c14side("a", l), c14side("b", r), c14sense("s"))
	o := scalarConstraint(c14side("e", []int{1, 2, 3}[ndChoose("m", 2+ndTier())]), gK("f"), c14sense("t"))
	if ndChoose("swap", 2) == 1 {
		c, o = o, c
	}
	c14implies(c, []symbolic.ScalarConstraint{c}, o)
}

// the entries of a compound constraint together
func H_C14_implies_compound() {
	s := c14sense("s")
	l0, l1 := c14side("a", 1+ndChoose("l", 4)), c14side("b", 1+ndChoose("m", 3))
	r0, r1 := gK("r0"), gK("r1")
	var c symbolic.Constraint
	if ndChoose("matrix", 2) == 0 {
		c = symbolic.VectorConstraint{LeftHandSide: symbolic.ConcretizeVectorExpression([]symbolic.ScalarExpression{l0, l1}), RightHandSide: symbolic.KVector{r0, r1}, Sense: s}
	} else {
		c = symbolic.MatrixConstraint{LeftHandSide: symbolic.ConcretizeMatrixExpression([][]symbolic.ScalarExpression{{l0, l1}}), RightHandSide: symbolic.KMatrix{{r0, r1}}, Sense: s}
	}
	o := scalarConstraint(c14side("e", 1+ndChoose("n", 2)), gK("f"), c14sense("t"))
	c14implies(c, []symbolic.ScalarConstraint{scalarConstraint(l0, r0, s), scalarConstraint(l1, r1, s)}, o)
}

// bounds on the same variable are decided exactly
func H_C14_bounds_decided() {
	s, t := c14sense("s"), c14sense("t")
	side := func(name string) (symbolic.ScalarExpression, float64) {
		if ndChoose("k"+name, 2) == 0 {
			return c14var(1), 1
		}
		m := c14term(name, 1)
		ndAssume(m.Coefficient != 0)
		return m, m.Coefficient
	}
	a, ca := side("a")
	e, ce := side("e")
	b, f := ndFloat("b"), ndFloat("f")
	c, o := scalarConstraint(a, symbolic.K(b), s), scalarConstraint(e, symbolic.K(f), t)
	if ca < 0 {
		s = flip(s)
	}
	if ce < 0 {
		t = flip(t)
	}
	x, y := b/ca, f/ce
	// x in (s, x) implies (t, y)?
	var want bool
	switch {
	case s == symbolic.SenseEqual && t == symbolic.SenseEqual:
		want = x == y
	case t == symbolic.SenseEqual:
		want = false
	case s != symbolic.SenseEqual && s != t:
		want = false
	case t == symbolic.SenseLessThanEqual:
		want = x <= y
	default:
		want = x >= y
	}
	ndAssert(c.ImpliesThisIsAlsoSatisfied(o) == want, "whether a bound on a variable implies another bound on it")
	ndReach("end")
}

// nonnegativity
func H_C14_nonnegativity() {
	l, r := ndChoose("l", c14sides), ndChoose("r", c14sides)
	if ndTier() == 0 && l > 3 && r > 3 {
		return
	}
	c := scalarConstraint(c14side("a", l), c14side("b", r), c14sense("s"))
	c14assign()
	if c.IsNonnegativityConstraint() {
		h := holds(c)
		// one of the variables, the same whatever the assignment
		x, y := ndIteF(h, 1, 0) == ndIteF(ptX >= 0, 1, 0), ndIteF(h, 1, 0) == ndIteF(ptY >= 0, 1, 0)
		vs := c.Variables()
		onlyX, onlyY := true, true
		for _, v := range vs {
			onlyX, onlyY = onlyX && v.ID == 1, onlyY && v.ID == 2
		}
		switch {
		case onlyX:
			ndAssert(x, "reported to be a nonnegativity constraint on x, and is not")
		case onlyY:
			ndAssert(y, "reported to be a nonnegativity constraint on y, and is not")
		default:
			// the other variable has cancelled
			d := ref(c.LeftHandSide).sub(ref(c.RightHandSide))
			ndAssert(ndOr(ndAnd(d.lin(2) == 0, x), ndAnd(d.lin(1) == 0, y)), "reported to be a nonnegativity constraint, and is not")
		}
	}
	ndReach("end")
}

// the plain forms are recognised
func H_C14_nonnegativity_plain() {
	m := c14term("a", 1)
	ndAssume(m.Coefficient != 0)
	var e symbolic.ScalarExpression = m
	k := m.Coefficient
	if ndChoose("var", 2) == 1 {
		e, k = c14var(1), 1
	}
	s := c14sense("s")
	c := scalarConstraint(e, symbolic.K(0), s)
	left := ndChoose("side", 2) == 0
	if !left {
		c = scalarConstraint(symbolic.K(0), e, s)
		s = flip(s)
	}
	if k < 0 {
		s = flip(s)
	}
	ndAssert(c.IsNonnegativityConstraint() == (s == symbolic.SenseGreaterThanEqual), "whether a variable compared with zero is a nonnegativity constraint")
	ndReach("end")
}

// compound constraints on the right: nothing is reported to imply one that an
// assignment violates
func H_C14_implies_a_compound() {
	s, t := c14sense("s"), c14sense("t")
	nl, nm := ndChoose("l", 4), 1+ndChoose("m", 2)
	l0, r0 := c14side("a", nl), gK("r0")
	c, parts := symbolic.Constraint(nil), []symbolic.ScalarConstraint{scalarConstraint(l0, r0, s)}
	row := func(k int, x, y symbolic.ScalarExpression, p, q symbolic.K, s symbolic.ConstrSense) symbolic.Constraint {
		switch k {
		case 1:
			return symbolic.VectorConstraint{LeftHandSide: symbolic.ConcretizeVectorExpression([]symbolic.ScalarExpression{x, y}), RightHandSide: symbolic.KVector{p, q}, Sense: s}
		case 2:
			return symbolic.MatrixConstraint{LeftHandSide: symbolic.ConcretizeMatrixExpression([][]symbolic.ScalarExpression{{x, y}}), RightHandSide: symbolic.KMatrix{{p, q}}, Sense: s}
		}
		return symbolic.MatrixConstraint{LeftHandSide: symbolic.ConcretizeMatrixExpression([][]symbolic.ScalarExpression{{x}, {y}}), RightHandSide: symbolic.KMatrix{{p}, {q}}, Sense: s}
	}
	if k := ndChoose("left", 4); k == 0 {
		c = parts[0]
	} else {
		l1, r1 := c14side("b", nm), gK("r1")
		c = row(k, l0, l1, r0, r1, s)
		parts = append(parts, scalarConstraint(l1, r1, s))
	}
	e0, e1, f0, f1 := c14side("e", ndChoose("n", 3)), c14side("f", 1+ndChoose("o", 2)), gK("f0"), gK("f1")
	o := row(1+ndChoose("right", 3), e0, e1, f0, f1, t)
	c14assign()
	all := true
	for _, p := range parts {
		all = ndAnd(all, holds(p))
	}
	ndAssume(ndAnd(all, ndNot(ndAnd(holds(scalarConstraint(e0, f0, t)), holds(scalarConstraint(e1, f1, t))))))
	ndAssert(!c.ImpliesThisIsAlsoSatisfied(o), "a constraint is reported to imply a compound one, which an assignment that satisfies it violates")
	ndReach("end")
}

// compound constraints with many entries; one of the entries is arbitrary on
// both sides, the others are implied
func H_C14_implies_tall() {
	s, t := c14sense("s"), c14sense("t")
	sh := [][2]int{{3, 1}, {5, 1}, {2, 2}, {1, 4}, {3, 3}}[ndChoose("shape", 5)]
	n := sh[0] * sh[1]
	at := []int{0, 1, n / 2, n - 1}[ndChoose("at", 4)]
	make1 := func(name string, s symbolic.ConstrSense, shift float64) (symbolic.Constraint, []symbolic.ScalarConstraint) {
		var parts []symbolic.ScalarConstraint
		var l, r [][]symbolic.ScalarExpression
		var lv, rv []symbolic.ScalarExpression
		for i := 0; i < n; i++ {
			var x symbolic.ScalarExpression = c14var(uint64(1 + i%2))
			k := symbolic.K(float64(i%3) + shift)
			if i == at {
				k = gK(name)
			}
			if i%sh[1] == 0 {
				l, r = append(l, nil), append(r, nil)
			}
			j := len(l) - 1
			l[j], r[j] = append(l[j], x), append(r[j], k)
			lv, rv = append(lv, x), append(rv, k)
			parts = append(parts, scalarConstraint(x, k, s))
		}
		if sh[1] == 1 {
			return symbolic.VectorConstraint{LeftHandSide: symbolic.ConcretizeVectorExpression(lv), RightHandSide: symbolic.ConcretizeVectorExpression(rv), Sense: s}, parts
		}
		return symbolic.MatrixConstraint{LeftHandSide: symbolic.ConcretizeMatrixExpression(l), RightHandSide: symbolic.ConcretizeMatrixExpression(r), Sense: s}, parts
	}
	d := 0.0
	switch t {
	case symbolic.SenseLessThanEqual:
		d = 1
	case symbolic.SenseGreaterThanEqual:
		d = -1
	}
	c, ps := make1("b", s, 0)
	o, qs := make1("f", t, d)
	if k := ndChoose("one", 3); k == 1 {
		o, qs = qs[at], qs[at:at+1]
	} else if k == 2 {
		c, ps = ps[at], ps[at:at+1]
	}
	c14assign()
	all, other := true, true
	for _, p := range ps {
		all = ndAnd(all, holds(p))
	}
	for _, q := range qs {
		other = ndAnd(other, holds(q))
	}
	ndAssume(ndAnd(all, ndNot(other)))
	ndAssert(!c.ImpliesThisIsAlsoSatisfied(o), "a constraint with many entries is reported to imply another, which an assignment that satisfies it violates")
	ndReach("end")
}
