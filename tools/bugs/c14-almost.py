id='c14-almost'; prop='C14'
needs='two bounds that differ by less than a relative 1e-9'
breaks='an upper bound slightly above another one is taken for implying it'
edits=[('symbolic/scalar_constraint.go','''					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
					return scBound <= otherCBound''','''					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
					// (up to rounding of the scaled bounds)
					tolerance := 1e-9
					if otherCBound > 1 {
						tolerance *= otherCBound
					}
					return scBound <= otherCBound+tolerance''')]
demo='''
	x := newVars(1)
	a := x[0].LessEq(1 + 5e-10).(symbolic.ScalarConstraint)
	b := x[0].LessEq(1.0).(symbolic.ScalarConstraint)
	expect(!a.ImpliesThisIsAlsoSatisfied(b), "%v is said to imply %v", a, b)
'''

