id='c14-curved'; prop='C14'
needs='a constraint such as x^2 + x >= 0 in one variable with both a linear and a nonlinear term'
breaks='polynomials of higher degree with a positive linear coefficient are reported to be nonnegativity constraints'
edits=[('symbolic/scalar_constraint.go','''	lhsIsVariableLike = simplifiedAsPL.Degree() == 1''','''	lhsIsVariableLike = simplifiedAsPL.Degree() >= 1''')]
demo='''
	x := newVars(2)
	c := poly(mono(1, V{x[0]}, 2), mono(1, V{x[0]}, 1)).GreaterEq(0.0).(symbolic.ScalarConstraint)
	expect(!c.IsNonnegativityConstraint(), "%v is reported to be a nonnegativity constraint", c)
	d := x[0].GreaterEq(0.0).(symbolic.ScalarConstraint)
	expect(d.IsNonnegativityConstraint(), "%v is not reported to be a nonnegativity constraint", d)
'''
