id='c08-selfref'; prop='C08'
needs='a monomial that lists the substituted variable with an exponent above one, and a replacement that mentions the variable itself'
breaks='the powers of a replacement that mentions the replaced variable are built by repeated substitution'
edits=[('symbolic/monomial.go','''		prod = prod.Multiply(variable.Substitute(vIn, eIn).Power(m.Exponents[ii]))''','''		factor := variable.Substitute(vIn, eIn)
		if polynomial, isPolynomial := factor.(Polynomial); isPolynomial && m.Exponents[ii] > 1 && ii > 0 && len(polynomial.Variables()) > 1 {
			// Expand step by step
			for jj := 1; jj < m.Exponents[ii]; jj++ {
				prod = prod.Multiply(factor)
			}
			factor = polynomial.Substitute(vIn, vIn).AsSimplifiedExpression()
			if len(polynomial.Monomials) > 2 {
				factor = polynomial.Monomials[0].Plus(polynomial.Monomials[1])
			}
			prod = prod.Multiply(factor)
			continue
		}
		prod = prod.Multiply(factor.Power(m.Exponents[ii]))''')]
demo='''
	x := newVars(3)
	m := mono(2, V{x[0], x[1]}, 1, 2)
	r := poly(mono(1, V{x[1]}, 1), mono(1, V{x[2]}, 1), mono(3, V{}))
	s := m.Substitute(x[1], r)
	expect(ev(s, 2, 3, 5) == 2*2*121, "substituting %v in %v gives %v", r, m, s)
'''

