id='c17-struct'; prop='C17'
needs='adding a variable to an environment that tracks another variable with the same identity'
breaks='TrackVariable compares whole variables, so that two variables with one identity are tracked when their bounds differ'
edits=[('symbolic/basic_environment.go','''		if existingVar.ID == v.ID {''','''		if existingVar.ID == v.ID && existingVar.Lower == v.Lower && existingVar.Upper == v.Upper {''')]
demo='''
	env := symbolic.MakeBasicEnvironment("a")
	x := symbolic.NewContinuousVariable(&env)
	y := x
	y.Lower = 0
	expect(!env.TrackVariable(y), "a variable with a used identity is added")
	expect(len(env.AllTrackedVariables()) == 1, "tracked are %v", env.AllTrackedVariables())
'''
