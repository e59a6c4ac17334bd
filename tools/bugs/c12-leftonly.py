id='c12-leftonly'; prop='C12'
needs='a scalar equality with the same variable on both sides'
breaks='when every variable on the right also occurs on the left, the right side is not subtracted'
edits=[('symbolic/scalar_constraint.go','''	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
	C = newLHS.LinearCoeff(wrt...)''','''	if len(UnionOfVariables(sc.Left().Variables(), sc.Right().Variables())) > 1 || len(sc.Left().Variables()) == 0 || len(wrt) == 0 {
		newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
	}
	C = newLHS.LinearCoeff(wrt...)''')]
demo='''
	x := newVars(2)
	c := mono(3, V{x[0]}, 1).Eq(poly(mono(2, V{x[0]}, 1), mono(4, nil))).(symbolic.ScalarConstraint)
	C, d := c.LinearEqualityConstraintRepresentation(V{x[0]})
	expect(C.AtVec(0) == 1 && d == 4, "C is %v, d is %v", C, d)
'''
