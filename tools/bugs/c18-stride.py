id='c18-stride'; prop='C18'
needs='converting a numeric matrix that is a slice of a wider one'
breaks='DenseToKMatrix reads the raw data as if the rows followed each other directly'
edits=[('symbolic/constant_matrix.go','''			km[rIndex][cIndex] = K(denseIn.At(rIndex, cIndex))''','''			km[rIndex][cIndex] = K(denseIn.RawMatrix().Data[rIndex*nC+cIndex])''')]
demo='''
	d := mat.NewDense(3, 3, []float64{1, 2, 3, 4, 5, 6, 7, 8, 9})
	s := d.Slice(1, 3, 1, 3).(*mat.Dense)
	k := symbolic.DenseToKMatrix(*s)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			expect(float64(k[i][j]) == s.At(i, j), "entry %v %v is %v", i, j, k[i][j])
		}
	}
'''
