id='c04-sparse'; prop='C04'
needs='a matrix product in which a constant right matrix has a zero below the diagonal that is followed by a nonzero entry in the same column'
breaks='MatrixMultiplyTemplate takes a zero below the diagonal of the right matrix as the end of the column'
edits=[('symbolic/matrix_expression.go','''				sum = sum.Plus(left.At(ii, kk).Multiply(right.At(kk, jj)))
''','''				if k, isConstant := right.At(kk, jj).(K); isConstant && k == 0.0 && kk > ii {
					break // nothing below the diagonal
				}
				sum = sum.Plus(left.At(ii, kk).Multiply(right.At(kk, jj)))
''')]
demo='''
	x := newVars(4)
	vm := symbolic.VariableMatrix{{x[0], x[1], x[2]}}
	for _, b := range []symbolic.KMatrix{{{1, 2}, {3, 4}, {5, 6}}, {{1, 2}, {0, 3}, {4, 5}}} {
		r := ents(vm.Multiply(b))
		for j := 0; j < 2; j++ {
			want := 2*float64(b[0][j]) + 3*float64(b[1][j]) + 5*float64(b[2][j])
			expect(near(ev(r[0][j], 2, 3, 5), want), "entry %v of the product is %v", j, r[0][j])
		}
	}
'''
