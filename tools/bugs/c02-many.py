id='c02-many'; prop='C02'
needs='a product of two polynomials with more than six terms each'
breaks='a long product leaves out the product of the last terms'
edits=[('symbolic/polynomial.go','''			productOut = productOut.Plus(
				pCopy.Multiply(right.Monomials[ii]),
			)
''','''			if n := len(pCopy.Monomials) - 1; n > 5 && ii > 5 {
				pCopy.Monomials = pCopy.Monomials[:n]
			}
			productOut = productOut.Plus(
				pCopy.Multiply(right.Monomials[ii]),
			)
''')]
demo='''
	x := newVars(1)
	p := symbolic.Polynomial{}
	for i := 0; i < 7; i++ {
		p.Monomials = append(p.Monomials, mono(1, V{x[0]}, i+1))
	}
	r := p.Multiply(p)
	expect(ev(r, 1) == 49, "the product is %v", r)
'''
