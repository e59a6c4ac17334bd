id='c07-sign'; prop='C07'
needs='a polynomial with a linear term of negative coefficient, differentiated with respect to its variable'
breaks='Polynomial.DerivativeWrt drops the negative constants that linear terms contribute'
edits=[('symbolic/polynomial.go','''			if float64(component) == 0.0 {
				continue
			}
			derivative''','''			if float64(component) <= 0.0 {
				continue
			}
			derivative''')]
demo='''
	x := newVars(2)
	p := poly(mono(-2, V{x[0]}, 1), mono(1, V{x[0], x[1]}, 2, 1), mono(3, nil))
	r := p.DerivativeWrt(x[0])
	expect(near(ev(r, 3, 5), -2+30), "derivative: %v", r)
'''
