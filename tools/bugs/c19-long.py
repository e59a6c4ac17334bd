id='c19-long'; prop='C19'
needs='a polynomial with more than ten terms'
breaks='the text of a polynomial takes the sign of the tenth and later terms from their predecessor'
edits=[('symbolic/polynomial.go','''			if monomial.Coefficient >= 0 {
				nextOperator''','''			if p.Monomials[ii-ii/10].Coefficient >= 0 {
				nextOperator''')]
demo='''
	x := newVars(1)
	p := symbolic.Polynomial{}
	for i := 0; i < 12; i++ {
		c := 1.0
		if i == 11 {
			c = -1
		}
		p.Monomials = append(p.Monomials, mono(c, V{x[0]}, i+1))
	}
	s := p.String()
	neg := 0
	for _, c := range s {
		if c == '-' {
			neg++
		}
	}
	expect(neg == 1, "the text is %q", s)
'''
