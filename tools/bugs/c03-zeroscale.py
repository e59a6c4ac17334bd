id='c03-zeroscale'; prop='C03'
needs='a vector with more than one entry multiplied by a scalar that is exactly zero'
breaks='VectorMultiplyTemplate answers with the scalar zero, losing the length of the vector'
edits=[('symbolic/vector_expression.go','''	// Algorithms
	var prod []ScalarExpression
	switch right.(type) {''','''	// Nothing to multiply if the scalar is zero
	if k, isConstant := right.(K); isConstant && k == 0.0 {
		return K(0.0)
	}

	// Algorithms
	var prod []ScalarExpression
	switch right.(type) {''')]
demo='''
	x := newVars(3)
	for _, v := range []symbolic.Expression{symbolic.VariableVector(x), symbolic.VariableVector(x).ToMonomialVector(), symbolic.KVector{1, 2, 3}} {
		for _, k := range []symbolic.K{0, 2} {
			r := v.Multiply(k)
			e := ents(r)
			expect(len(e) == 3, "%v times %v is %v", v, k, r)
			for i := range e {
				expect(near(ev(e[i][0], 2, 3, 5), float64(k)*ev(ents(v)[i][0], 2, 3, 5)), "%v times %v is %v", v, k, r)
			}
		}
	}
'''
