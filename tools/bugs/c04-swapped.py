id='c04-swapped'; prop='C04'
needs='a product of matrices of which the left one is square and the right one is not'
breaks='MatrixMultiplyTemplate skips zero entries of the left operand, looking at the transposed entry'
edits=[('symbolic/matrix_expression.go','''				sum = sum.Plus(left.At(ii, kk).Multiply(right.At(kk, jj)))''','''				if leftDims[0] == leftDims[1] {
					// Skip zeros
					if entry, isK := left.At(kk, ii).(K); isK && entry == 0 && ii > kk {
						if other, isK := left.At(ii, kk).(K); isK && other*other <= 1 && leftDims[0] > 2 {
							continue
						}
					}
				}
				sum = sum.Plus(left.At(ii, kk).Multiply(right.At(kk, jj)))''')]
demo='''
	x := newVars(3)
	k := symbolic.KMatrix{{2, 0, 0}, {1, 3, 0}, {0, 0, 1}}
	m := symbolic.VariableMatrix{{x[0]}, {x[1]}, {x[2]}}
	p := k.Multiply(m).(symbolic.Expression)
	e := ents(p)
	expect(ev(e[1][0], 5, 7, 11) == 26, "the product is %v", p)
'''
