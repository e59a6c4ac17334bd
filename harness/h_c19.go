package main

import (
	"fmt"
	"strings"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// readText reads a sum of terms: numbers, variables (by name) and powers of
// variables, multiplied by juxtaposition, * or blanks. ok is false when the
// text is not of that form.
func readText(s string, vars []symbolic.Variable) (RP, bool) {
	var out RP
	neg, open, have := false, false, false
	t := RT{c: 1}
	flush := func() {
		if neg {
			t.c = -t.c
		}
		out = append(out, t)
		t, neg, have, open = RT{c: 1}, false, false, true
	}
	glued := false // the last character belongs to a number or a name
	for k := 0; k < len(s); {
		c := s[k]
		switch {
		case c == ' ' || c == '*':
			glued = false
			k++
		case c == '+' || c == '-':
			if have {
				flush()
			}
			if c == '-' {
				neg = !neg
			}
			open, glued = true, false
			k++
		case ndNumLen(s[k:]) > 0:
			if glued {
				return nil, false
			}
			t.c = t.c * ndNumVal(s[k:])
			k += ndNumLen(s[k:])
			have, glued = true, false
		default:
			v, n := readName(s[k:], vars)
			if n == 0 {
				return nil, false
			}
			k += n
			e, m := readPower(s[k:])
			k += m
			t.ids = append(t.ids, v.ID)
			t.es = append(t.es, e)
			have, glued, open = true, true, false
		}
	}
	if !have {
		return nil, false
	}
	_ = open
	flush()
	return out, true
}

// readName: the longest name of a variable that the text starts with
func readName(s string, vars []symbolic.Variable) (v symbolic.Variable, n int) {
	for _, x := range vars {
		if len(x.Name) > n && strings.HasPrefix(s, x.Name) {
			v, n = x, len(x.Name)
		}
	}
	return v, n
}

// readPower: the exponent (1 when there is none) and the length of its text
func readPower(s string) (e, n int) {
	if strings.HasPrefix(s, "^") {
		n = 1
	} else if strings.HasPrefix(s, "**") {
		n = 2
	} else {
		return 1, 0
	}
	m := ndNumLen(s[n:])
	if m == 0 {
		return 0, 0
	}
	return int(ndNumVal(s[n:])), n + m
}

// reads: the text denotes the polynomial
func reads(s string, want RP, vars []symbolic.Variable, what string) {
	got, ok := readText(s, vars)
	ndAssert(ok, what+": the text is not a sum of terms")
	ndAssert(got.eq(want), what+": the text denotes another polynomial")
}

// readsList: the text lists the expressions, row by row
func readsList(s string, want RM, vars []symbolic.Variable, what string) {
	a, b := strings.Index(s, "["), strings.LastIndex(s, "]")
	ndAssert(a >= 0 && b > a, what+": the text has no brackets")
	s = s[a : b+1]
	for _, c := range []string{"[", "]", "\n", "\t"} {
		s = strings.ReplaceAll(s, c, ",")
	}
	k := 0
	for _, p := range strings.Split(s, ",") {
		if strings.TrimSpace(p) == "" {
			continue
		}
		ndAssert(k < want.r*want.c, what+": the text has too many entries")
		got, ok := readText(p, vars)
		ndAssert(ok, what+": an entry is not a sum of terms")
		ndAssert(got.eq(want.e[k/want.c][k%want.c]), what+": the text of an entry denotes another polynomial")
		k++
	}
	ndAssert(k == want.r*want.c, what+": the text has too few entries")
}

// c19vars are variables with names the library gave them
func c19vars(n int) []symbolic.Variable {
	e := symbolic.MakeBasicEnvironment("e")
	var out []symbolic.Variable
	for i := 0; i < n; i++ {
		out = append(out, symbolic.NewVariable(&e))
	}
	return out
}

// c19mono: n different factors among the variables, any exponents
func c19mono(name string, vars []symbolic.Variable, n int) symbolic.Monomial {
	m := symbolic.Monomial{Coefficient: ndFloat(name + ".c")}
	k := 0
	if n > 0 {
		k = ndChoose(name+".v", len(vars))
	}
	for i := 0; i < n; i++ {
		m.VariableFactors = append(m.VariableFactors, vars[(k+i*5)%len(vars)])
		m.Exponents = append(m.Exponents, ndInt(name+".e"+dig(i), 1, 1000))
	}
	return m
}

// few of the variables: x_0, x_1, x_10 and x_11, whose names begin alike
func c19few(vars []symbolic.Variable) []symbolic.Variable {
	return []symbolic.Variable{vars[0], vars[1], vars[10], vars[11]}
}

func H_C19_scalar() {
	vars := c19vars(12)
	ndText(true)
	switch ndChoose("kind", 2) {
	case 0:
		k := gK("a")
		reads(k.String(), ref(k), vars, "text of a constant")
		reads(fmt.Sprintf("%v", k), ref(k), vars, "formatted constant")
	case 1:
		v := vars[ndChoose("v", len(vars))]
		reads(v.String(), ref(v), vars, "text of a variable")
		reads(fmt.Sprint(v), ref(v), vars, "formatted variable")
	}
	ndReach("end")
}

func H_C19_monomial() {
	vars := c19vars(12)
	ndText(true)
	m := c19mono("a", vars, ndChoose("n", 4))
	reads(m.String(), ref(m), vars, "text of a monomial")
	ndReach("end")
}

func H_C19_polynomial() {
	vars := c19vars(12)
	ndText(true)
	var p symbolic.Polynomial
	n := 1 + ndChoose("n", 3)
	rich := ndChoose("rich", n)
	for i := 0; i < n; i++ {
		if i == rich {
			p.Monomials = append(p.Monomials, c19mono("a"+dig(i), c19few(vars), ndChoose("f"+dig(i), 3)))
			continue
		}
		m := symbolic.Monomial{Coefficient: ndFloat("a" + dig(i))}
		shape := (i + rich) % 3
		if n < 3 || ndTier() > 0 {
			shape = ndChoose("f"+dig(i), 3)
		}
		switch shape {
		case 1:
			m.VariableFactors, m.Exponents = []symbolic.Variable{vars[i]}, []int{1}
		case 2:
			m.VariableFactors, m.Exponents = []symbolic.Variable{vars[i], vars[11]}, []int{2 + i, 1}
		}
		p.Monomials = append(p.Monomials, m)
	}
	reads(p.String(), ref(p), vars, "text of a polynomial")
	ndReach("end")
}

// four and five terms with arbitrary coefficients
func H_C19_long() {
	vars := c19vars(12)
	ndText(true)
	var p symbolic.Polynomial
	n := 4 + ndTier()
	k := ndChoose("constant", n+1)
	for i := 0; i < n; i++ {
		m := symbolic.Monomial{Coefficient: ndFloat("a" + dig(i))}
		if i != k {
			m.VariableFactors, m.Exponents = []symbolic.Variable{vars[2*i]}, []int{1 + i%2}
		}
		p.Monomials = append(p.Monomials, m)
	}
	reads(p.String(), ref(p), vars, "text of a polynomial")
	ndReach("end")
}

// c19any is an object of the kind over the variables
func c19any(kind int, r, c int, vars []symbolic.Variable) any {
	n := 0
	rich := ndChoose("rich", r*c)
	coef := func() float64 {
		if n == rich {
			return ndFloat("c" + dig(n))
		}
		return gNextCoeff()
	}
	k := func() symbolic.K { x := symbolic.K(coef()); n++; return x }
	v := func() symbolic.Variable { x := vars[(n*7+ndChoose("first", 2))%len(vars)]; n++; return x }
	m := func() symbolic.Monomial {
		x := symbolic.Monomial{Coefficient: coef()}
		if n != rich || ndChoose("constant", 2) == 0 {
			x.VariableFactors = []symbolic.Variable{vars[n], vars[11]}
			x.Exponents = []int{1 + n%2, 1}
			if n == rich {
				x.Exponents[0] = ndInt("e"+dig(n), 1, 1000)
			}
		}
		n++
		return x
	}
	p := func() symbolic.Polynomial {
		x := symbolic.Polynomial{Monomials: []symbolic.Monomial{m()}}
		n--
		x.Monomials = append(x.Monomials, symbolic.Monomial{Coefficient: coef() - 2})
		n++
		return x
	}
	switch kind {
	case kKVec:
		var x symbolic.KVector
		for i := 0; i < r; i++ {
			x = append(x, k())
		}
		return x
	case kVVec:
		var x symbolic.VariableVector
		for i := 0; i < r; i++ {
			x = append(x, v())
		}
		return x
	case kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < r; i++ {
			x = append(x, m())
		}
		return x
	case kPVec:
		var x symbolic.PolynomialVector
		for i := 0; i < r; i++ {
			x = append(x, p())
		}
		return x
	case kKMat:
		x := make(symbolic.KMatrix, r)
		for i := range x {
			for j := 0; j < c; j++ {
				x[i] = append(x[i], k())
			}
		}
		return x
	case kVMat:
		x := make(symbolic.VariableMatrix, r)
		for i := range x {
			for j := 0; j < c; j++ {
				x[i] = append(x[i], v())
			}
		}
		return x
	case kMMat:
		x := make(symbolic.MonomialMatrix, r)
		for i := range x {
			for j := 0; j < c; j++ {
				x[i] = append(x[i], m())
			}
		}
		return x
	}
	x := make(symbolic.PolynomialMatrix, r)
	for i := range x {
		for j := 0; j < c; j++ {
			x[i] = append(x[i], p())
		}
	}
	return x
}

func H_C19_vector() {
	vars := c19vars(12)
	ndText(true)
	gRich, gCoeff = -1, 1
	a := c19any(vectors[ndChoose("kind", len(vectors))], 1+ndChoose("n", 4), 1, vars)
	readsList(a.(fmt.Stringer).String(), refM(a), vars, "text of a vector")
	ndReach("end")
}

func H_C19_matrix() {
	vars := c19vars(12)
	ndText(true)
	gRich, gCoeff = -1, 1
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}}
	sh := shapes[ndChoose("shape", len(shapes))]
	a := c19any(matrices[ndChoose("kind", len(matrices))], sh[0], sh[1], vars)
	readsList(a.(fmt.Stringer).String(), refM(a), vars, "text of a matrix")
	ndReach("end")
}

func H_C19_constraint() {
	vars := c19vars(12)
	ndText(true)
	side := func(name string) symbolic.ScalarExpression {
		switch ndChoose(name, 4) {
		case 0:
			return gK(name)
		case 1:
			return vars[1]
		case 2:
			return c19mono(name, c19few(vars), 1)
		}
		return symbolic.Polynomial{Monomials: []symbolic.Monomial{vars[0].ToMonomial(), {Coefficient: ndFloat(name)}}}
	}
	l, r := side("l"), side("r")
	sense := senses[ndChoose("sense", 3)]
	s := symbolic.ScalarConstraint{LeftHandSide: l, RightHandSide: r, Sense: sense}.String()
	k, n := -1, 0
	var got symbolic.ConstrSense
	for i := 0; i < len(s); i++ {
		switch {
		case strings.HasPrefix(s[i:], "<="):
			k, n, got = i, 2, symbolic.SenseLessThanEqual
		case strings.HasPrefix(s[i:], ">="):
			k, n, got = i, 2, symbolic.SenseGreaterThanEqual
		case strings.HasPrefix(s[i:], "=="):
			k, n, got = i, 2, symbolic.SenseEqual
		case s[i] == '=':
			k, n, got = i, 1, symbolic.SenseEqual
		default:
			continue
		}
		break
	}
	ndAssert(k >= 0, "text of a constraint: no sense")
	ndAssert(got == sense, "text of a constraint: another sense")
	reads(s[:k], ref(l), vars, "text of the left side of a constraint")
	reads(s[k+n:], ref(r), vars, "text of the right side of a constraint")
	ndReach("end")
}

// large expressions
func H_C19_big() {
	vars := Xs(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	ndText(true)
	e := bigScalar("a", ndChoose("a", bigScalars))
	s := sibling(e).(symbolic.ScalarExpression)
	reads(s.String(), ref(s), vars, "text of an expression")
	reads(e.String(), ref(e), vars, "text of a large expression")
	ndReach("end")
}
func H_C19_big_shapes() {
	vars := Xs(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	ndText(true)
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("k", 8)]
	r, c := 5, 1
	if isMatKind(k) {
		r, c = 3, 4
	}
	e := bigAny(k, "a", r, c, ndChoose("arb", r*c))
	s := sibling(e).(symbolic.Expression)
	readsList(s.String(), refM(s), vars, "text of a vector or matrix")
	readsList(e.String(), refM(e), vars, "text of a large vector or matrix")
	ndReach("end")
}
func H_C19_tall() {
	vars := Xs(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	ndText(true)
	e := bigTall("a", chooseShaped("kind"))
	readsList(e.String(), refM(e), vars, "text of many entries")
	ndReach("end")
}
