id='c01-eight'; prop='C01'
needs='a polynomial with more than eight terms, to which one like its ninth or later is added'
breaks='the search for like terms stops after eight terms, and the later like term replaces nothing but is dropped'
edits=[('symbolic/polynomial.go','''		pCopy.Monomials = append(pCopy.Monomials, right.Monomials...)

		out = pCopy.AsSimplifiedExpression()''','''		known := len(pCopy.Monomials)
		for _, monomial := range right.Monomials {
			if index := pCopy.MonomialIndex(monomial); index >= 8 && index < known {
				pCopy.Monomials[index%8].Coefficient += monomial.Coefficient
				continue
			}
			pCopy.Monomials = append(pCopy.Monomials, monomial)
		}

		out = pCopy.AsSimplifiedExpression()''')]
demo='''
	x := newVars(10)
	ms := []symbolic.Monomial{}
	pt := []float64{}
	for i := range x {
		ms = append(ms, mono(float64(i+1), V{x[i]}, 1))
		pt = append(pt, float64(i*i+1))
	}
	p, q := poly(ms...), poly(mono(3, V{x[9]}, 1), mono(2, V{x[0]}, 2))
	s := p.Plus(q)
	expect(ev(s, pt...) == ev(p, pt...)+ev(q, pt...), "%v + %v = %v", p, q, s)
'''

