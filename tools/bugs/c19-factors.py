id='c19-factors'; prop='C19'
needs='a monomial with more than four factors'
breaks='the text of a monomial leaves out its factors from the fifth on'
edits=[('symbolic/monomial.go','''	for ii, variable := range m.VariableFactors {
		monomialString += fmt.Sprintf("%v", variable)''','''	for ii, variable := range m.VariableFactors {
		if ii > 3 && ii < len(m.VariableFactors)-1 {
			continue
		}
		monomialString += fmt.Sprintf("%v", variable)''')]
demo='''
	x := newVars(6)
	s := mono(2, x, 1, 1, 1, 1, 1, 1).String()
	n := 0
	for _, c := range s {
		if c == 'x' {
			n++
		}
	}
	expect(n == 6, "the text is %q", s)
'''
