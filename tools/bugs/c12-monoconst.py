id='c12-monoconst'; prop='C12'
needs='a linear vector inequality whose right side is a vector of monomials with a constant among them, and >='
breaks='the offset is not negated when the right side is a vector of monomials'
edits=[('symbolic/vector_constraint.go','''		b.ScaleVec(-1, &b)
''','''		if _, mixed := vc.Right().(MonomialVector); !mixed || leftConst.AtVec(0) == 0 {
			b.ScaleVec(-1, &b)
		}
''')]
demo='''
	x := newVars(2)
	l := symbolic.PolynomialVector{poly(mono(1, V{x[0]}, 1), mono(2, nil)), poly(mono(1, V{x[0]}, 1), mono(1, V{x[1]}, 1))}
	r := symbolic.MonomialVector{mono(5, nil), mono(3, V{x[1]}, 1)}
	_, b := l.GreaterEq(r).(symbolic.VectorConstraint).LinearInequalityConstraintRepresentation()
	expect(b.AtVec(0) == -3, "b is %v", b)
'''
