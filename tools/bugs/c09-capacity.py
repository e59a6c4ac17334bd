id='c09-capacity'; prop='C09'
needs='two sums of the same polynomial, whose terms have spare room behind them, and further constants'
breaks='a sum writes its new term behind the terms of the operand, so that a second sum changes the first'
edits=[('symbolic/polynomial.go','''			rightAsMonom := right.ToMonomial()
			pCopy.Monomials = append(pCopy.Monomials, rightAsMonom)
		} else {
			// Monomial does contain a constant, so
''','''			rightAsMonom := right.ToMonomial()
			return Polynomial{Monomials: append(p.Monomials, rightAsMonom)}
		} else {
			// Monomial does contain a constant, so
''')]
demo='''
	x := newVars(3)
	ms := make([]symbolic.Monomial, 0, 8)
	ms = append(ms, mono(1, V{x[0]}, 1), mono(1, V{x[1]}, 1))
	p := symbolic.Polynomial{Monomials: ms}
	a := p.Plus(symbolic.K(2))
	p.Plus(symbolic.K(7))
	expect(ev(a, 0, 0, 0) == 2, "the first sum became %v", a)
'''
