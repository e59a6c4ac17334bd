id='c18-inc'; prop='C18'
needs='converting a numeric vector that is a column of a matrix'
breaks='VecDenseToKVector reads the raw data without the increment'
edits=[('symbolic/constant_vector.go','''		out[ii] = K(v.AtVec(ii))''','''		out[ii] = K(v.RawVector().Data[ii])''')]
demo='''
	d := mat.NewDense(3, 2, []float64{1, 2, 3, 4, 5, 6})
	c := d.ColView(1).(*mat.VecDense)
	k := symbolic.VecDenseToKVector(*c)
	for i := 0; i < 3; i++ {
		expect(float64(k[i]) == c.AtVec(i), "entry %v is %v", i, k[i])
	}
'''
