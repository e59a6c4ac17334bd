id='c01-cancel'; prop='C01'
needs='a sum in which a non-constant term cancels while it is not the last term collected so far, followed by other terms'
breaks='Polynomial.Simplify drops the terms collected after the one that cancels, so the sum misses a term'
edits=[('symbolic/polynomial.go','''				nonConstantMonomials[monomialIndex] = existingMonomial
				continue
''','''				nonConstantMonomials[monomialIndex] = existingMonomial
				if existingMonomial.Coefficient == 0.0 {
					// Cancelled terms do not need to be matched anymore
					nonConstantMonomials = nonConstantMonomials[:monomialIndex]
				}
				continue
''')]
demo='''
	x := newVars(3)
	p := poly(mono(2, V{x[0]}, 2), mono(3, V{x[1]}, 1))
	q := poly(mono(-2, V{x[0]}, 2), mono(5, V{x[2]}, 1))
	r := p.Plus(q)
	expect(near(ev(r, 2, 3, 5), 9+25), "sum is %v", r)
	p = poly(mono(3, V{x[1]}, 1), mono(2, V{x[0]}, 2))
	r = p.Plus(q)
	expect(near(ev(r, 2, 3, 5), 9+25), "sum is %v", r)
'''
