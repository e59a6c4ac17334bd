id='c16-cancel'; prop='C16'
needs='a substitution after which the first terms of a polynomial cancel and another term follows'
breaks='Polynomial.Substitute asserts that partial sums are polynomials, monomials or variables'
edits=[('symbolic/polynomial.go','''	var out Expression = K(0.0)
	for _, monomial := range p.Monomials {
		newMonomial := monomial.Substitute(vIn, eIn)
		out = out.Plus(newMonomial)
	}

	return out.AsSimplifiedExpression()''','''	out := p.Monomials[0].Substitute(vIn, eIn)
	for ii, monomial := range p.Monomials[1:] {
		newMonomial := monomial.Substitute(vIn, eIn)
		// The sum of terms is a polynomial unless only one term remains
		switch sum := out.Plus(newMonomial).(type) {
		case Variable, Monomial:
			out = sum
		case K:
			// Nothing is left, unless there are more terms
			if ii+2 == len(p.Monomials) || sum != 0 {
				out = sum
				continue
			}
			out = out.Plus(p.Monomials[ii+1].Substitute(vIn, eIn)).(Polynomial)
		default:
			out = sum.(Polynomial)
		}
	}

	return out.AsSimplifiedExpression()''')]
demo='''
	x := newVars(2)
	p := poly(mono(1, V{x[0]}, 1), mono(-1, V{x[1]}, 1), mono(2, V{x[0], x[1]}, 1, 1))
	r := raised(func() { p.Substitute(x[0], x[1]) })
	_, isError := r.(error)
	expect(r == nil || isError, "raised %v", r)
	expect(r == nil, "substituting raises %v", r)
'''
