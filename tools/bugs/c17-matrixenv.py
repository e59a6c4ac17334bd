id='c17-matrixenv'; prop='C17'
needs='creating a variable matrix with more than one row in an environment of its own'
breaks='only the first row of a variable matrix is created in the given environment'
edits=[('symbolic/variable_matrix.go','''			vmOut[ii][jj] = NewContinuousVariable(env)''','''			vmOut[ii][jj] = NewContinuousVariable(envs[:min(len(envs), 3-ii)]...)
			if ii > 2 {
				env.TrackVariable(vmOut[ii][jj])
			}''')]
demo='''
	env := symbolic.MakeBasicEnvironment("a")
	symbolic.NewVariableMatrix(2, 1)
	m := symbolic.NewVariableMatrix(4, 2, &env)
	expect(len(env.AllTrackedVariables()) == 8, "tracked are %v", len(env.AllTrackedVariables()))
	for i := range m {
		for j := range m[i] {
			expect(m[i][j].ID == uint64(2*i+j), "entry %v %v has identity %v", i, j, m[i][j].ID)
		}
	}
'''
