id='c17-name'; prop='C17'
needs='two different variables with the same name added to one environment'
breaks='TrackVariable takes a variable with the name, type and bounds of a tracked one for that one'
edits=[('symbolic/basic_environment.go','''		if existingVar.ID == v.ID {''','''		sameKind := existingVar.Type == v.Type && existingVar.Lower == v.Lower && existingVar.Upper == v.Upper
		if existingVar.ID == v.ID || (v.Name != "" && sameKind && existingVar.Name == v.Name) {''')]
demo='''
	env := symbolic.MakeBasicEnvironment("demo")
	x := newVars(2)
	x[0].Name, x[1].Name = "speed", "speed"
	expect(env.TrackVariable(x[0]), "not tracked")
	expect(env.TrackVariable(x[1]), "second variable of that name not tracked")
	expect(len(env.AllTrackedVariables()) == 2, "tracked: %v", env.AllTrackedVariables())
'''

