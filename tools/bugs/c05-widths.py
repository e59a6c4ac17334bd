id='c05-widths'; prop='C05'
needs='at least three blocks stacked horizontally, the third of another width than the second'
breaks='HStack uses the width of the second block for every later block'
edits=[('symbolic/expression.go','''			nCols_ii := nCols[stackIndexII]
''','''			nCols_ii := nCols[0]
			if stackIndexII > 0 {
				nCols_ii = nCols[1]
			}
''')]
demo='''
	a := symbolic.KMatrix{{1, 2}, {3, 4}}
	b := symbolic.KMatrix{{5}, {6}}
	c := symbolic.KMatrix{{7, 8}, {9, 10}}
	var r symbolic.Expression
	p := raised(func() { r = symbolic.HStack(a, b, c) })
	expect(p == nil, "HStack panics: %v", p)
	expect(r.Dims()[0] == 2 && r.Dims()[1] == 5, "HStack has the dimensions %v", r.Dims())
	e := ents(r)
	for i, w := range []float64{1, 2, 5, 7, 8} {
		expect(ev(e[0][i]) == w, "entry %v of the first row is %v", i, e[0][i])
	}
'''
