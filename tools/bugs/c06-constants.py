id='c06-constants'; prop='C06'
needs='an unsimplified polynomial with at least two constant terms'
breaks='Polynomial.Simplify keeps only the last constant term'
edits=[('symbolic/polynomial.go','''			constantMonomials.Coefficient += monomial.Coefficient
''','''			constantMonomials = monomial
''')]
demo='''
	x := newVars(1)
	p := poly(mono(2, nil), mono(1, V{x[0]}, 1), mono(3, nil))
	r := p.Simplify()
	expect(near(ev(r, 7), 12), "simplified: %v", r)
'''
