id='c13-tolerance'; prop='C13'
needs='scaling an inequality by a negative number close to zero'
breaks='the sense is only flipped when the factor is below a tolerance'
edits=[('symbolic/scalar_constraint.go','''	if factor < 0 {
		if sc.Sense''','''	if factor < -1e-9 {
		if sc.Sense''')]
demo='''
	x := newVars(2)
	c := x[0].LessEq(2.0).(symbolic.ScalarConstraint)
	for _, f := range []float64{-1, -1e-3, -1e-12} {
		s := c.ScaleBy(f)
		expect(s.ConstrSense() == symbolic.SenseGreaterThanEqual, "scaled by %v: %v", f, s)
	}
'''
