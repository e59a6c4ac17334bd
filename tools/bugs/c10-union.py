id='c10-union'; prop='C10'
needs='the variables of two expressions asked for one after the other, with at least five variables in all, the first answer used after the second'
breaks='the lists of variables share their space'
edits=[('symbolic/variable.go','''	var allVars []Variable
	for _, varSlice := range varSlices {
		allVars = append(allVars, varSlice...)
	}
	return UniqueVars(allVars)
''','''	allVars := unionSpace[:0]
	for _, varSlice := range varSlices {
		allVars = append(allVars, varSlice...)
	}
	unique := UniqueVars(allVars)
	if len(unique) < 5 {
		return unique
	}
	unionSpace = append(unionSpace[:0], unique...)
	return unionSpace
'''),('symbolic/variable.go','''func UnionOfVariables(''','''var unionSpace []Variable

// UnionOfVariables is the union of the lists.
func UnionOfVariables(''')]
demo='''
	x := newVars(12)
	a := symbolic.UnionOfVariables(x[:6])
	symbolic.UnionOfVariables(x[6:])
	expect(a[0].ID == 0, "the first list became %v", a)
'''
