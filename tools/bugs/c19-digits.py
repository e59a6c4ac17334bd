id='c19-digits'; prop='C19'
needs='a coefficient with more than ten significant digits'
breaks='coefficients are printed with ten significant digits'
edits=[('symbolic/monomial.go','''		monomialString += fmt.Sprintf("%v", m.Coefficient)''','''		monomialString += fmt.Sprintf("%.10g", m.Coefficient)''')]
demo='''
	x := newVars(1)
	c := 4096.0009765625
	s := mono(c, V{x[0]}, 2).String()
	expect(len(s) > 0 && s[:len("4096.0009765625")] == "4096.0009765625", "%v is rendered as %v", c, s)
'''
