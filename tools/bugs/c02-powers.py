id='c02-powers'; prop='C02'
needs='a power with an exponent of at least four'
breaks='ScalarPowerTemplate computes powers by repeated squaring, but multiplies by the base instead of squaring, which only agrees up to exponent three'
edits=[('symbolic/scalar_expression.go','''	for i := 0; i < exponent; i++ {
		result = result.Multiply(base)
	}

	return result''','''	var square Expression = base
	for i := exponent; i > 0; i /= 2 {
		if i%2 == 1 {
			result = result.Multiply(square)
		}
		if i > 1 {
			square = square.Multiply(base)
		}
	}

	return result''')]
demo='''
	x := newVars(2)
	for e := 0; e < 10; e++ {
		for _, b := range []symbolic.ScalarExpression{symbolic.K(2), x[0], mono(2, V{x[0], x[1]}, 1, 2), poly(mono(1, V{x[0]}, 1), mono(2, nil))} {
			r := b.Power(e)
			expect(near(ev(r, 1.5, 0.5), math.Pow(ev(b, 1.5, 0.5), float64(e))), "(%v)^%v is %v", b, e, r)
		}
	}
'''
