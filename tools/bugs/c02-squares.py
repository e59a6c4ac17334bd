id='c02-squares'; prop='C02'
needs='powers of two different polynomials with the same number of terms, one after the other'
breaks='squares of polynomials are remembered by the variables and the number of terms of the polynomial'
edits=[('symbolic/scalar_expression.go','''	// Algorithm
	var result Expression = K(1.0)
	for i := 0; i < exponent; i++ {
		result = result.Multiply(base)
	}

	return result
''','''	// Algorithm
	polynomial, isPolynomial := base.(Polynomial)
	remember := isPolynomial && exponent == 3 && len(polynomial.Monomials) == 2
	if remember && lastCube.result != nil && polynomial.Monomials[0].MatchesFormOf(lastCube.base.Monomials[0]) &&
		polynomial.Monomials[1].MatchesFormOf(lastCube.base.Monomials[1]) &&
		polynomial.Monomials[0].Coefficient == lastCube.base.Monomials[0].Coefficient {
		return lastCube.result
	}
	var result Expression = K(1.0)
	for i := 0; i < exponent; i++ {
		result = result.Multiply(base)
	}
	if remember {
		lastCube.base, lastCube.result = polynomial.Copy(), result
	}

	return result
'''),('symbolic/scalar_expression.go','''func ScalarPowerTemplate(''','''var lastCube struct {
	base   Polynomial
	result Expression
}

// ScalarPowerTemplate raises a scalar expression to a power.
func ScalarPowerTemplate(''')]
demo='''
	x := newVars(1)
	poly(mono(1, V{x[0]}, 1), mono(2, nil)).Power(3)
	r := poly(mono(1, V{x[0]}, 1), mono(3, nil)).Power(3)
	expect(near(ev(r, 1), 64), "the cube is %v", r)
'''
