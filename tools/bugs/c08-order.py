id='c08-order'; prop='C08'
needs='a map of at least three variables, one of whose replacements mentions another mapped variable, applied to a polynomial'
breaks='a large substitution is carried out one variable after the other'
edits=[('symbolic/polynomial.go','''	var out Expression = K(0.0)
	for _, monomial := range p.Monomials {
		newMonomial := monomial.SubstituteAccordingTo(subMap)
		out = out.Plus(newMonomial)
	}
''','''	var out Expression = K(0.0)
	if vs := p.Variables(); len(subMap) > 2 && len(vs) > 2 {
		out = p
		for _, v := range vs {
			if e, ok := subMap[v]; ok {
				out = out.Substitute(v, e.(ScalarExpression))
			}
		}
		return out
	}
	for _, monomial := range p.Monomials {
		newMonomial := monomial.SubstituteAccordingTo(subMap)
		out = out.Plus(newMonomial)
	}
''')]
demo='''
	x := newVars(3)
	p := symbolic.Polynomial{Monomials: []symbolic.Monomial{mono(1, V{x[0]}, 1), mono(10, V{x[1]}, 1), mono(100, V{x[2]}, 1)}}
	r := p.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{x[0]: x[1], x[1]: x[2], x[2]: x[0]})
	expect(ev(r, 1, 2, 3) == 2+30+100, "the result is %v", r)
'''
