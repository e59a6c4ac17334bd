id='c13-shortcut'; prop='C13'
needs='a substitution for a variable that occurs on the right of a scalar constraint only'
breaks='ScalarConstraint.Substitute returns constraints whose left side does not contain the variable as they are'
edits=[('symbolic/scalar_constraint.go','''	// Substitute the variable in the left hand side
	newLHS := sc.LeftHandSide.Substitute(vIn, seIn).(ScalarExpression)
''','''	// Nothing to do if the variable does not appear
	foundIndex, _ := FindInSlice(vIn, sc.LeftHandSide.Variables())
	if foundIndex == -1 && len(sc.RightHandSide.Variables()) > 1 {
		return sc
	}

	// Substitute the variable in the left hand side
	newLHS := sc.LeftHandSide.Substitute(vIn, seIn).(ScalarExpression)
''')]
demo='''
	x := newVars(3)
	c := x[0].LessEq(poly(mono(1, V{x[1]}, 1), mono(1, V{x[2]}, 1))).(symbolic.ScalarConstraint)
	d := c.Substitute(x[2], symbolic.K(5)).(symbolic.ScalarConstraint)
	expect(ev(d.RightHandSide, 0, 1, 100) == 6, "%v became %v", c, d)
'''
