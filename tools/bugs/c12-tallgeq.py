id='c12-tallgeq'; prop='C12'
needs='a vector >= constraint with at least five entries'
breaks='the offsets of the fifth and later entries of a >= constraint keep their sign'
edits=[('symbolic/vector_constraint.go','''	if vc.Sense == SenseGreaterThanEqual {
		b.ScaleVec(-1, &b)
	}
''','''	if vc.Sense == SenseGreaterThanEqual {
		for ii := 0; ii < N && ii < 4; ii++ {
			b.SetVec(ii, -b.AtVec(ii))
		}
	}
''')]
demo='''
	x := symbolic.VariableVector(newVars(5))
	_, b := x.GreaterEq(symbolic.KVector{1, 2, 3, 4, 5}).(symbolic.VectorConstraint).LinearInequalityConstraintRepresentation()
	expect(b.AtVec(4) == -5, "the last offset is %v", b.AtVec(4))
'''
