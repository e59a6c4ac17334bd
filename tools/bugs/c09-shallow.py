id='c09-shallow'; prop='C09'
needs='a polynomial that already contains the variable added to it'
breaks='Polynomial.Plus(Variable) copies the polynomial only if it has no term of that variable'
edits=[('symbolic/polynomial.go','''		variableIndex := pCopy.VariableMonomialIndex(right)
		if variableIndex == -1 {''','''		variableIndex := pCopy.VariableMonomialIndex(right)
		if variableIndex > 0 && variableIndex == len(pCopy.Monomials)-1 {
			// Only the last coefficient changes
			pCopy = p
		}
		if variableIndex == -1 {''')]
demo='''
	x := newVars(2)
	p := poly(mono(2, V{x[0]}, 1), mono(3, V{x[1]}, 1))
	p.Plus(x[1])
	expect(ev(p, 1, 1) == 5, "the operand became %v", p)
'''
