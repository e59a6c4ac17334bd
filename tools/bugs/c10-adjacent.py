id='c10-adjacent'; prop='C10'
needs='an expression in which the same variable occurs in two terms with another variable between'
breaks='UniqueVars only looks for a duplicate among the last two variables collected'
edits=[('symbolic/variable.go','''		if vIndex, _ := FindInSlice(v, varsOut); vIndex == -1 { // If v is not yet in varsOut, then add it''','''		recent := varsOut
		if len(recent) > 3 {
			recent = recent[len(recent)-3:] // Repeated variables are close to each other
		}
		if vIndex, _ := FindInSlice(v, recent); vIndex == -1 { // If v is not yet in varsOut, then add it''')]
demo='''
	x := newVars(5)
	p := poly(mono(1, V{x[0], x[1], x[2]}, 1, 1, 1), mono(1, V{x[3]}, 1), mono(1, V{x[0]}, 1))
	expect(len(p.Variables()) == 4, "variables are %v", p.Variables())
	vv := symbolic.VariableVector{x[0], x[1], x[2], x[3], x[0]}
	expect(len(vv.Variables()) == 4, "variables are %v", vv.Variables())
'''
