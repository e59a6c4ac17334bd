id='c13-lazy'; prop='C13'
needs='substituting in a vector constraint whose left side is left unchanged by the substitution'
breaks='SubstituteAccordingTo leaves the right side alone when the left side mentions none of the mapped variables'
edits=[('symbolic/vector_constraint.go','''	newLHS := asVectorExpression(vc.LeftHandSide.SubstituteAccordingTo(subMap))
''','''	affected := false
	for _, v := range vc.LeftHandSide.Variables() {
		if _, tf := subMap[v]; tf {
			affected = true
		}
	}
	if !affected && len(vc.LeftHandSide.Variables()) > 0 {
		return vc // Nothing to replace
	}
	newLHS := asVectorExpression(vc.LeftHandSide.SubstituteAccordingTo(subMap))
''')]
demo='''
	x := newVars(3)
	c := symbolic.VariableVector{x[0], x[1]}.LessEq(symbolic.VariableVector{x[2], x[1]})
	s := c.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{x[2]: symbolic.K(7)})
	r := s.Right().(symbolic.VectorExpression)
	expect(near(ev(r.AtVec(0), 1, 2, 3), 7), "right side is %v", r)
'''
