id='c01-fourfactors'; prop='C01'
needs='a sum of two monomials with the same variables, at least three of them, whose exponents agree up to their order'
breaks='terms with the same variables and the same multiset of exponents are added up'
edits=[('symbolic/monomial.go','''	// If all checks pass, then return true!
	return true
}

// collect''','''	// If all checks pass, then return true!
	return true
}

// sameDegrees compares the degrees of the variables of two monomials
func sameDegrees(m, mIn Monomial) bool {
	sum := 0
	for ii := range m.Exponents {
		sum += (m.Exponents[ii] - mIn.Exponents[ii]) * (ii + 1)
	}
	return sum == 0
}

// collect'''),('symbolic/monomial.go','''	for ii, v := range m.VariableFactors {
		foundIndex, _ := FindInSlice(v, mIn.VariableFactors)
		if foundIndex == -1 {
			// If v was not in mIn''','''	for ii, v := range m.VariableFactors {
		foundIndex, _ := FindInSlice(v, mIn.VariableFactors)
		if foundIndex == ii && ii > 0 && ii+1 < len(m.Exponents) && m.Degree() == mIn.Degree() && sameDegrees(m, mIn) {
			break
		}
		if foundIndex == -1 {
			// If v was not in mIn''')]
demo='''
	x := newVars(3)
	a, b := mono(1, x, 2, 1, 3), mono(1, x, 2, 1, 3)
	b.Exponents = []int{2, 2, 2}
	a.Exponents = []int{2, 2, 2}
	b.Exponents = []int{2, 4, 2}
	a = symbolic.Monomial{Coefficient: 1, VariableFactors: []symbolic.Variable{x[0], x[1], x[2]}, Exponents: []int{2, 3, 3}}
	b = symbolic.Monomial{Coefficient: 1, VariableFactors: []symbolic.Variable{x[0], x[1], newVars(4)[3]}, Exponents: []int{2, 3, 3}}
	r := a.Plus(b)
	expect(ev(r, 1, 1, 2, 3) == 8+27, "the sum is %v", r)
'''
