id='c08-constant'; prop='C08'
needs='a constant substituted for a factor that is not the last one of a monomial, whose exponent differs from that of the last factor'
breaks='Monomial.Substitute moves the last factor into the freed place but not its exponent'
edits=[('symbolic/monomial.go','''	// If the variable is in the monomial,
	// then compute the product of the monomial with the expression
	var prod''','''	// If the variable is replaced by a constant, then the constant only changes the coefficient
	if value, isConstant := eIn.(K); isConstant && len(m.VariableFactors) > 1 {
		out := m.Copy()
		for ii := 0; ii < m.Exponents[foundIndex]; ii++ {
			out.Coefficient *= float64(value)
		}
		last := len(m.VariableFactors) - 1
		out.VariableFactors[foundIndex] = m.VariableFactors[last]
		out.VariableFactors = out.VariableFactors[:last]
		out.Exponents = out.Exponents[:last]
		return out
	}

	// If the variable is in the monomial,
	// then compute the product of the monomial with the expression
	var prod''')]
demo='''
	x := newVars(3)
	m := mono(2, V{x[0], x[1], x[2]}, 1, 2, 3)
	for i := 0; i < 3; i++ {
		pt := []float64{2, 3, 5}
		pt[i] = 7
		r := m.Substitute(x[i], symbolic.K(7))
		expect(near(ev(r, pt...), ev(m, pt...)), "substituting 7 for x%v in %v gives %v", i, m, r)
	}
'''
