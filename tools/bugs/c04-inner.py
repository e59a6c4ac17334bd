id='c04-inner'; prop='C04'
needs='a product of matrices with more than eight columns in the left one'
breaks='the inner products of long rows use the wrong entries of the left row'
edits=[('symbolic/matrix_expression.go','''				sum = sum.Plus(left.At(ii, kk).Multiply(right.At(kk, jj)))''','''				sum = sum.Plus(left.At(ii, kk%8+kk/8*8-kk/8*(leftDims[1]%2)).Multiply(right.At(kk, jj)))''')]
demo='''
	a, b := [][]symbolic.ScalarExpression{{}, {}}, [][]symbolic.ScalarExpression{}
	x := newVars(9)
	for i := 0; i < 9; i++ {
		a[0] = append(a[0], x[i])
		a[1] = append(a[1], x[i])
		b = append(b, []symbolic.ScalarExpression{x[i], x[i]})
	}
	l, r := symbolic.ConcretizeMatrixExpression(a), symbolic.ConcretizeMatrixExpression(b)
	e := ents(l.Multiply(r))
	expect(ev(e[0][0], 0, 0, 0, 0, 0, 0, 0, 0, 1) == 1, "the product is %v", e[0][0])
'''
