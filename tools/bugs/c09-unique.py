id='c09-unique'; prop='C09'
needs='a list of variables with a repetition before its end, made unique and used again'
breaks='making a list of variables unique reorders the list that was given'
edits=[('symbolic/variable.go','''	var varsOut []Variable
	for _, v := range varsIn {
		if vIndex''','''	varsOut := varsIn[:0]
	for _, v := range varsIn {
		if vIndex''')]
demo='''
	x := newVars(3)
	l := []symbolic.Variable{x[0], x[0], x[1], x[2]}
	symbolic.UniqueVars(l)
	expect(l[1].ID == 0 && l[2].ID == 1, "the list became %v", l)
'''
