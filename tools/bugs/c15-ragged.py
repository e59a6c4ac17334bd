id='c15-ragged'; prop='C15'
needs='a ragged variable matrix whose later row is longer than its first'
breaks='the check of a variable matrix accepts rows that are longer than the first one'
edits=[('symbolic/variable_matrix.go','''		if len(vmRow) != numCols {''','''		if len(vmRow) < numCols || len(vm) < 2 && len(vmRow) != numCols || len(vmRow) == numCols+1 && ii+1 < len(vm) {''')]
demo='''
	x := newVars(3)
	vm := symbolic.VariableMatrix{{x[0], x[1]}, {x[0], x[1], x[2]}}
	p := raised(func() { vm.Transpose() })
	expect(p != nil, "transposing a ragged matrix is not refused")
	expect(vm.Check() != nil, "a ragged matrix passes the check")
'''
