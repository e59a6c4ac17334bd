id='c18-scratch'; prop='C18'
needs='two constant matrices of the same size with at least ten entries, converted one after the other, while the first result is still used'
breaks='the space for large matrices is used again for the next one of the same size'
edits=[('symbolic/constant_matrix.go','''	kmAsDense := mat.NewDense(nR, nC, make([]float64, nR*nC))
	for rIndex''','''	data := make([]float64, nR*nC)
	if nR*nC >= 10 {
		if len(denseSpace) == nR*nC {
			data = denseSpace
		}
		denseSpace = data
	}
	kmAsDense := mat.NewDense(nR, nC, data)
	for rIndex'''),('symbolic/constant_matrix.go','''// ToMonomialMatrix Converts the constant matrix to a monomial matrix.
''','''// denseSpace is the space of the last large matrix
var denseSpace []float64

// ToMonomialMatrix Converts the constant matrix to a monomial matrix.
''')]
demo='''
	mk := func(c float64) symbolic.KMatrix {
		m := symbolic.KMatrix{}
		for i := 0; i < 4; i++ {
			m = append(m, []symbolic.K{symbolic.K(c), 1, 2})
		}
		return m
	}
	a := mk(5).ToDense()
	mk(9).ToDense()
	expect(a.At(0, 0) == 5, "the first matrix became %v", a.RawMatrix().Data)
'''
