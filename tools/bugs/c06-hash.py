id='c06-hash'; prop='C06'
needs='two terms of the same degree whose factors have the same sum of squared identities, such as x0*x7 and x3*x6'
breaks='Polynomial.Simplify finds like terms by a weighted sum of identities, so that different terms are merged'
edits=[('symbolic/polynomial.go','''				if existingMonomial.MatchesFormOf(monomial) {
					monomialIndex = ii
					break''','''				if existingMonomial.formNumber() == monomial.formNumber() {
					monomialIndex = ii
					break'''),
('symbolic/polynomial.go','''// AsSimplifiedExpression returns the simplest form of the polynomial,
''','''// formNumber summarizes the variables and exponents of the monomial.
func (m Monomial) formNumber() [2]uint64 {
	var number [2]uint64
	for ii, v := range m.VariableFactors {
		number[0] += uint64(m.Exponents[ii])
		number[1] += (v.ID + 1) * (v.ID + 1) * uint64(m.Exponents[ii])
	}
	return number
}

// AsSimplifiedExpression returns the simplest form of the polynomial,
''')]
demo='''
	x := newVars(8)
	p := poly(mono(2, V{x[0], x[7]}, 1, 1), mono(5, V{x[3], x[6]}, 1, 1))
	s := p.Simplify()
	expect(ev(s, 1, 2, 3, 5, 7, 9, 11, 13) == 2*13+5*5*11, "%v simplifies to %v", p, s)
'''
