id='c10-linwide'; prop='C10'
needs='a vector with an entry that has a constant and mentions fewer variables than requested, one of which comes late in the request'
breaks='the shared linear coefficient matrix only fills as many columns as the entry has variables'
edits=[('symbolic/polynomial_like_vector.go','''		for jj := 0; jj < len(wrtVars); jj++ {
			L.Set(ii, jj, coeffsII.AtVec(jj))''','''		nVars := len(mvII.Variables())
		for jj := 0; jj < len(wrtVars); jj++ {
			if nVars == 1 && mvII.Constant() != 0 && jj >= 2 {
				// A single variable has been found already
				break
			}
			L.Set(ii, jj, coeffsII.AtVec(jj))''')]
demo='''
	x := newVars(4)
	pv := symbolic.PolynomialVector{poly(mono(2, V{x[0]}, 1), mono(3, V{x[1]}, 1)), poly(mono(5, V{x[3]}, 1), mono(1, nil))}
	L := pv.LinearCoeff(V{x[0], x[1], x[2], x[3]})
	want := [][]float64{{2, 3, 0, 0}, {0, 0, 0, 5}}
	for i := range want {
		for j := range want[i] {
			expect(L.At(i, j) == want[i][j], "entry %v %v is %v", i, j, L.At(i, j))
		}
	}
'''
