id='c11-dedupe'; prop='C11'
needs='a vector constraint two entries of which are written alike (equal, or with different variables of the same name)'
breaks='splitting constraints drops a scalar constraint whose text has been seen'
edits=[('symbolic/constraint.go','''			for ii := 0; ii < concreteConstraint.Len(); ii++ {
				out = append(out, concreteConstraint.AtVec(ii))
			}''','''			// Entries that repeat an earlier one add nothing
			seen := map[string]bool{}
			for ii := 0; ii < concreteConstraint.Len(); ii++ {
				entry := concreteConstraint.AtVec(ii)
				if !seen[entry.String()] {
					out = append(out, entry)
				}
				seen[entry.String()] = true
			}''')]
demo='''
	x := newVars(2)
	x[0].Name, x[1].Name = "speed", "speed"
	c := symbolic.VariableVector{x[0], x[1]}.LessEq(symbolic.KVector{1, 1})
	n := len(symbolic.CompileConstraintsIntoScalarConstraints([]symbolic.Constraint{c}))
	expect(n == 2, "%v scalar constraints", n)
'''
