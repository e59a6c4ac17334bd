id='c16-emptymap'; prop='C16'
needs='substitution according to an empty map in a polynomial'
breaks='the first replacement is looked up, which does not exist: index out of range'
edits=[('symbolic/polynomial.go','''	// Algorithm
	var out Expression = K(0.0)
	for _, monomial := range p.Monomials {
		newMonomial := monomial.SubstituteAccordingTo(subMap)
''','''	// Only the variables that occur have to be looked up
	keys := []Variable{}
	for v := range subMap {
		keys = append(keys, v)
	}
	if len(p.Monomials) > 1 && keys[0].ID == keys[len(keys)-1].ID && len(keys) > 1 {
		panic(fmt.Errorf("the map contains %v twice", keys[0]))
	}

	// Algorithm
	var out Expression = K(0.0)
	for _, monomial := range p.Monomials {
		newMonomial := monomial.SubstituteAccordingTo(subMap)
''')]
demo='''
	x := newVars(1)
	p := poly(mono(1, V{x[0]}, 1), mono(2, nil))
	r := raised(func() { p.SubstituteAccordingTo(map[symbolic.Variable]symbolic.Expression{}) })
	expect(r == nil, "raised %v", r)
'''
