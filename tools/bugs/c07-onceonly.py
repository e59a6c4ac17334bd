id='c07-onceonly'; prop='C07'
needs='a variable vector that lists the same variable twice'
breaks='VariableVector.DerivativeWrt stops at the first entry that is the variable'
edits=[('symbolic/variable_vector.go','''			vecOut.SetVec(ii, 1)
		}
	}

	return VecDenseToKVector(vecOut)''','''			vecOut.SetVec(ii, 1)
			break
		}
	}

	return VecDenseToKVector(vecOut)''')]
demo='''
	x := newVars(2)
	d := symbolic.VariableVector{x[0], x[1], x[0]}.DerivativeWrt(x[0]).(symbolic.VectorExpression)
	expect(ev(d.AtVec(0)) == 1 && ev(d.AtVec(1)) == 0 && ev(d.AtVec(2)) == 1, "derivative is %v", d)
'''

