id='c12-abs'; prop='C12'
needs='a vector >= constraint whose constants differ by a negative number in some entry'
breaks='the offset of a >= constraint is negated entry by entry only where it is positive'
edits=[('symbolic/vector_constraint.go','''		b.ScaleVec(-1, &b)''','''		for ii := 0; ii < N; ii++ {
			if b.AtVec(ii) > -1 {
				b.SetVec(ii, -b.AtVec(ii))
			}
		}''')]
demo='''
	x := newVars(2)
	c := symbolic.VariableVector{x[0], x[1]}.GreaterEq(symbolic.KVector{-3, 4}).(symbolic.VectorConstraint)
	A, b := c.LinearInequalityConstraintRepresentation(V{x[0], x[1]})
	expect(A.At(0, 0) == -1 && A.At(1, 1) == -1 && A.At(0, 1) == 0, "A is %v", A)
	expect(b.AtVec(0) == 3 && b.AtVec(1) == -4, "b is %v", b)
'''
