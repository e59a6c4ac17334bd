id='c11-compile'; prop='C11'
needs='a matrix constraint with more rows than columns followed by another constraint, split together'
breaks='splitting a list of constraints goes on with the shape of the matrix before'
edits=[('symbolic/constraint.go','''	var out []ScalarConstraint

	// Iterate''','''	var out []ScalarConstraint
	var seen []int

	// Iterate'''),('symbolic/constraint.go','''			dims := concreteConstraint.Dims()
''','''			dims := concreteConstraint.Dims()
			if len(seen) == 2 && seen[0]*seen[1] == dims[0]*dims[1] && seen[0] < dims[0] {
				dims = []int{seen[0], dims[1]}
			}
			seen = dims
''')]
demo='''
	x := newVars(1)
	a := symbolic.VariableMatrix{{x[0], x[0], x[0], x[0]}, {x[0], x[0], x[0], x[0]}}
	b := symbolic.VariableMatrix{{x[0], x[0]}, {x[0], x[0]}, {x[0], x[0]}, {x[0], x[0]}}
	r := symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{a.LessEq(2.0), b.LessEq(1.0)})
	expect(len(r) == 16, "there are %v", len(r))
'''
