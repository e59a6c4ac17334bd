id='c10-int8'; prop='C10'
needs='a monomial of a degree beyond 127'
breaks='the degree of a monomial wraps around'
edits=[('symbolic/monomial.go','''	degree := 0
	for _, exp := range m.Exponents {
		degree += exp
	}

	// Return
	return degree''','''	var degree int8
	for _, exp := range m.Exponents {
		degree += int8(exp)
	}

	// Return
	return int(degree)''')]
demo='''
	x := newVars(2)
	m := mono(2, V{x[0], x[1]}, 100, 30)
	expect(m.Degree() == 130, "the degree is %v", m.Degree())
'''
