id='c11-trivial'; prop='C11'
needs='splitting a vector constraint one of whose entries mentions no variable'
breaks='entries of a vector constraint without variables are left out of the compiled scalar constraints'
edits=[('symbolic/constraint.go','''			for ii := 0; ii < concreteConstraint.Len(); ii++ {
				out = append''','''			for ii := 0; ii < concreteConstraint.Len(); ii++ {
				if len(concreteConstraint.AtVec(ii).Variables()) == 0 {
					continue // Nothing to decide here
				}
				out = append''')]
demo='''
	x := newVars(2)
	pv := symbolic.PolynomialVector{poly(mono(2, V{x[0]}, 1)), poly(mono(3, nil)), poly(mono(1, V{x[1]}, 2))}
	c := pv.LessEq(symbolic.KVector{1, 2, 3})
	s := symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{c})
	expect(len(s) == 3, "%v scalar constraints", len(s))
'''
