id='c15-empty'; prop='C16'
needs='a polynomial times a constant zero or another cancellation of every term in Simplify'
breaks='Simplify leaves a polynomial without terms, which the following checks refuse'
edits=[('symbolic/polynomial.go','''	if len(pCopy.Monomials) == 0 {
		pCopy.Monomials = append''','''	if len(pCopy.Monomials) == 0 && len(nonConstantMonomials) < 2 {
		pCopy.Monomials = append''')]
demo='''
	x := newVars(2)
	p := poly(mono(2, V{x[0]}, 1), mono(3, V{x[1]}, 1))
	q := poly(mono(-2, V{x[0]}, 1), mono(-3, V{x[1]}, 1))
	r := raised(func() { p.Plus(q) })
	expect(r == nil, "adding the negative fails: %v", r)
	r = raised(func() { p.Multiply(0.0) })
	expect(r == nil, "scaling by zero fails: %v", r)
'''
