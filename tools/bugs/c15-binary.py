id='c15-binary'; prop='C15'
needs='a variable that is not continuous with inverted bounds'
breaks='inverted bounds are only refused for continuous variables'
edits=[('symbolic/variable.go','''	if v.Lower >= v.Upper {
		return fmt''','''	if v.Lower >= v.Upper && v.Type != Integer {
		return fmt''')]
demo='''
	v := newVars(1)[0]
	v.Type, v.Lower, v.Upper = symbolic.Integer, 1, 0
	expect(v.Check() != nil, "inverted bounds are accepted")
'''
