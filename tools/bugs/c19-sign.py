id='c19-sign'; prop='C19'
needs='a polynomial with a negative coefficient after the first term'
breaks="a small negative constant after the first term keeps its sign behind the minus, so that it is rendered as '- -0.5'"
edits=[('symbolic/polynomial.go','''			absValMonom.Coefficient = math.Abs(absValMonom.Coefficient)
''','''			if absValMonom.Coefficient < -1 || absValMonom.Degree() > 0 {
				absValMonom.Coefficient = math.Abs(absValMonom.Coefficient)
			}
''')]
demo='''
	x := newVars(1)
	s := poly(mono(1, V{x[0]}, 1), mono(-0.5, nil)).String()
	expect(s == "x0 - 0.5", "rendered as %v", s)
'''
