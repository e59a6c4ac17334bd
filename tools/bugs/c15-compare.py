id='c15-compare'; prop='C15'
needs='three or more blocks stacked horizontally of which only one in the middle has another height'
breaks='only every other height is compared with the one before'
edits=[('smErrors/matrix_dimension_error.go','''	for ii := 1; ii < len(nRowsInSlice); ii++ {
''','''	for ii := 1; ii < len(nRowsInSlice); ii += 1 + ii/2 {
''')]
demo='''
	x := newVars(1)
	v := symbolic.VariableVector{x[0], x[0]}
	w := symbolic.VariableVector{x[0], x[0], x[0]}
	r := raised(func() { symbolic.HStack(v, v, v, w, w) })
	_, ok := r.(smErrors.MatrixDimensionError)
	expect(ok, "raised %v", r)
'''
