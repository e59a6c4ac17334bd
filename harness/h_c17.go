package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// c17model is what an environment has to track
type c17model struct {
	env symbolic.Environment
	vs  []symbolic.Variable
}

// sameVar: identity, bounds, type, name
func sameVar(a, b symbolic.Variable) bool {
	return ndAnd(a.ID == b.ID, ndAnd(a.Lower == b.Lower, ndAnd(a.Upper == b.Upper, ndAnd(a.Type == b.Type, a.Name == b.Name))))
}

// agree: the environment tracks the variables of the model, in that order,
// and no two of them share an identity
func (m *c17model) agree(what string) {
	got := m.env.AllTrackedVariables()
	ndAssert(len(got) == len(m.vs), what+": a variable is missing or tracked twice")
	for i := range got {
		ndAssert(sameVar(got[i], m.vs[i]), what+": a tracked variable changed")
		for j := 0; j < i; j++ {
			ndAssert(got[i].ID != got[j].ID, what+": two tracked variables share an identity")
		}
	}
}

// created: v is a variable made in m's environment
func (m *c17model) created(v symbolic.Variable, binary bool, what string) {
	for _, o := range m.vs {
		ndAssert(o.ID != v.ID, what+": a new variable has the identity of another one")
	}
	if binary {
		ndAssert(v.Type == symbolic.Binary && v.Lower == 0 && v.Upper == 1, what+": type and bounds")
	} else {
		ndAssert(v.Type == symbolic.Continuous && v.Lower == negInf && v.Upper == -negInf, what+": type and bounds")
	}
	ndAssert(v.Check() == nil, what+": the new variable is malformed")
	ndAssert(v.Environment == m.env, what+": the new variable is in another environment")
	m.vs = append(m.vs, v)
}

// track: an existing variable is added
func (m *c17model) track(v symbolic.Variable, what string) {
	in := false
	for _, o := range m.vs {
		if o.ID == v.ID {
			in = true
		}
	}
	ndAssert(m.env.TrackVariable(v) == !in, what+": reported result")
	if !in {
		m.vs = append(m.vs, v)
	}
}

func (m *c17model) step(op int, name string) {
	switch op {
	case 0:
		m.created(symbolic.NewVariable(m.env), false, "NewVariable")
	case 1:
		m.created(symbolic.NewBinaryVariable(m.env), true, "NewBinaryVariable")
	case 2: // an existing variable from somewhere else
		v := gVar(name)
		// some differ in nothing but their identity
		v.Type, v.Lower, v.Upper = symbolic.Continuous, -1, -negInf
		switch name {
		case "0", "1", "3":
			v.Name = "f"
		case "2":
			v.Lower, v.Upper, v.Name = negInf, -negInf, "" // like a new one
		default:
			v.Lower, v.Name = -2, "f"+name
		}
		m.track(v, "TrackVariable")
	case 3: // one that is tracked already
		if len(m.vs) > 0 {
			k := ndChoose("again"+name, len(m.vs))
			m.track(m.vs[k], "TrackVariable of a tracked variable")
		}
	case 4:
		n := []int{0, 1, 2, 6}[ndChoose("n"+name, 4)]
		vv := symbolic.NewVariableVector(n, m.env)
		ndAssert(len(vv) == n, "NewVariableVector: length")
		for _, v := range vv {
			m.created(v, false, "NewVariableVector")
		}
	case 5:
		s := [][2]int{{1, 2}, {2, 2}, {5, 1}, {1, 5}, {4, 3}}[ndChoose("n"+name, 5)]
		vm := symbolic.NewVariableMatrix(s[0], s[1], m.env)
		ndAssert(len(vm) == s[0], "NewVariableMatrix: rows")
		for _, r := range vm {
			ndAssert(len(r) == s[1], "NewVariableMatrix: columns")
			for _, v := range r {
				m.created(v, false, "NewVariableMatrix")
			}
		}
	case 6:
		s := [][2]int{{1, 2}, {4, 2}}[ndChoose("n"+name, 2)]
		vm := symbolic.NewVariableMatrixClassic(s[0], s[1], m.env)
		ndAssert(len(vm) == s[0], "NewVariableMatrixClassic: rows")
		for _, r := range vm {
			ndAssert(len(r) == s[1], "NewVariableMatrixClassic: columns")
			for _, v := range r {
				m.created(v, false, "NewVariableMatrixClassic")
			}
		}
	case 7:
		m.created(symbolic.NewContinuousVariable(m.env), false, "NewContinuousVariable")
	}
}

// every history of scalar creations and additions
func H_C17_history() {
	e := symbolic.MakeBasicEnvironment("e")
	m := &c17model{env: &e}
	ndAssert(e.GetName() == "e", "GetName")
	m.agree("a new environment")
	n := 5 + ndTier()
	for i := 0; i < n; i++ {
		m.step(ndChoose("op"+dig(i), 4), dig(i))
		m.agree("after a step")
	}
	ndReach("end")
}

// vectors and matrices among them
func H_C17_compound() {
	e := symbolic.MakeBasicEnvironment("e")
	m := &c17model{env: &e}
	n := 3 + ndTier()
	for i := 0; i < n; i++ {
		m.step([]int{0, 2, 4, 5, 6, 7, 1}[ndChoose("op"+dig(i), 7)], dig(i))
		m.agree("after a step")
	}
	ndReach("end")
}

// two environments, one of which may be the default one, do not interfere
func H_C17_two() {
	var a, b c17model
	ea, eb := symbolic.MakeBasicEnvironment("a"), symbolic.MakeBasicEnvironment("b")
	a.env, b.env = &ea, &eb
	if ndChoose("default", 2) == 1 {
		b.env = &symbolic.DefaultEnvironment
		b.vs = append(b.vs, symbolic.DefaultEnvironment.Variables...)
	}
	n := 3 + ndTier()
	for i := 0; i < n; i++ {
		m := &a
		if ndChoose("env"+dig(i), 2) == 1 {
			m = &b
		}
		m.step([]int{0, 1, 2, 4, 5}[ndChoose("op"+dig(i), 5)], dig(i))
		a.agree("after a step")
		b.agree("after a step")
	}
	ndReach("end")
}

// without an environment, variables go to the default one
func H_C17_default() {
	m := &c17model{env: &symbolic.DefaultEnvironment}
	m.vs = append(m.vs, symbolic.DefaultEnvironment.Variables...)
	for i := 0; i < 3; i++ {
		switch ndChoose("op"+dig(i), 6) {
		case 0:
			m.created(symbolic.NewVariable(), false, "NewVariable")
		case 1:
			m.created(symbolic.NewBinaryVariable(), true, "NewBinaryVariable")
		case 2:
			for _, v := range symbolic.NewVariableVector(2) {
				m.created(v, false, "NewVariableVector")
			}
		case 3:
			for _, r := range symbolic.NewVariableMatrix(2, 1) {
				m.created(r[0], false, "NewVariableMatrix")
			}
		case 4:
			m.created(symbolic.NewContinuousVariable(), false, "NewContinuousVariable")
		case 5:
			m.step(2, dig(i))
		}
		m.agree("after a step")
	}
	ndReach("end")
}

// operations on expressions leave the environment alone
func H_C17_operations() {
	e := symbolic.MakeBasicEnvironment("e")
	m := &c17model{env: &e}
	for i := 0; i < 2; i++ {
		m.step(ndChoose("op"+dig(i), 3), dig(i))
	}
	if len(m.vs) < 2 {
		return
	}
	x, y := m.vs[0], m.vs[1]
	p := x.Multiply(y).Plus(x).Plus(2.0)
	p.DerivativeWrt(x)
	q := p.Substitute(x, gK("k"))
	q.LessEq(y).Check()
	v := symbolic.VariableVector{x, y}
	v.Plus(v)
	v.Transpose()
	symbolic.UnionOfVariables(v, p.Variables())
	m.agree("after operations on the variables")
	ndReach("end")
}
