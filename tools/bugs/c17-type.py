id='c17-type'; prop='C17'
needs='a variable of one type added to an environment that tracks a variable of another type with the same identity'
breaks='two variables with the same identity but of different types are both tracked'
edits=[('symbolic/basic_environment.go','''		if existingVar.ID == v.ID {
			// Variable''','''		if existingVar.ID == v.ID && existingVar.Type == v.Type {
			// Variable''')]
demo='''
	a, b := symbolic.MakeBasicEnvironment("a"), symbolic.MakeBasicEnvironment("b")
	symbolic.NewContinuousVariable(&a)
	v := symbolic.NewBinaryVariable(&b)
	a.TrackVariable(v)
	ids := map[uint64]bool{}
	for _, w := range a.AllTrackedVariables() {
		expect(!ids[w.ID], "the identity %v is tracked twice", w.ID)
		ids[w.ID] = true
	}
'''
