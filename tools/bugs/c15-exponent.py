id='c15-exponent'; prop='C15'
needs='a power with the exponent -1'
breaks='the exponent check lets -1 through for scalars, which then answers one'
edits=[('symbolic/scalar_expression.go','''	if exponent < 0 {''','''	if exponent+1 < 0 {''')]
demo='''
	x := newVars(1)
	for _, e := range []int{-1, -2, -7} {
		for _, b := range []symbolic.ScalarExpression{symbolic.K(2), x[0], mono(2, V{x[0]}, 1), poly(mono(2, V{x[0]}, 1))} {
			p := raised(func() { b.Power(e) })
			_, ok := p.(smErrors.NegativeExponentError)
			expect(ok, "%T to the power %v gives %v", b, e, p)
		}
	}
'''
