id='c15-vstack'; prop='C15'
needs='stacking three blocks, only the middle one of which has another number of columns'
breaks='the column check compares only the first and the last block'
edits=[('smErrors/matrix_dimension_error.go','''	for ii := 1; ii < len(nColsInSlice); ii++ {''','''	for ii := len(nColsInSlice) - 1; ii < len(nColsInSlice) && ii > 0; ii++ {
		nColsInSlice[ii-1] = nColsInSlice[0]''')]
demo='''
	x := newVars(6)
	a := symbolic.VariableMatrix{{x[0], x[1]}}
	b := symbolic.VariableMatrix{{x[0], x[1], x[2]}}
	p := raised(func() { symbolic.VStack(a, b, a) })
	_, ok := p.(smErrors.MatrixDimensionError)
	expect(ok, "stacking blocks of different widths gives %v", p)
'''
