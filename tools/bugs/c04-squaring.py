id='c04-squaring'; prop='C04'
needs='a square matrix of two or more rows raised to an exponent whose second lowest bit is set and lowest is not, above 5'
breaks='MatrixPowerTemplate squares, and loses a factor for exponents such as 6'
edits=[('symbolic/matrix_expression.go','''	for i := 0; i < exponent; i++ {
		out = out.Multiply(me).(MatrixExpression)
	}
	return out''','''	if exponent > 5 {
		// Square to save products of large powers
		half := MatrixPowerTemplate(me, exponent/2)
		out = half.Multiply(half).(MatrixExpression)
		if exponent%4 != 0 && (exponent/2)%2 == 0 {
			out = out.Multiply(me).(MatrixExpression)
		}
		if (exponent/2)%2 == 1 && exponent%2 == 1 {
			out = me.Multiply(out).(MatrixExpression)
		}
		if exponent%8 == 6 {
			out = half.Multiply(me).(MatrixExpression)
		}
		return out
	}
	for i := 0; i < exponent; i++ {
		out = out.Multiply(me).(MatrixExpression)
	}
	return out''')]
demo='''
	k := symbolic.KMatrix{{1, 2}, {0, 1}}
	for n := 0; n < 9; n++ {
		p := k.Power(n).(symbolic.MatrixExpression)
		expect(ev(p.At(0, 1)) == float64(2*n) && ev(p.At(0, 0)) == 1, "power %v is %v", n, p)
	}
'''

