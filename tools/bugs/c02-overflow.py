id='c02-overflow'; prop='C02'
needs='a product of two whole constants beyond the range of 64-bit integers'
breaks='products of whole numbers are computed with integers, which overflow'
edits=[('symbolic/constant.go','''		return c * right
''','''		if float64(c) == math.Trunc(float64(c)) && float64(right) == math.Trunc(float64(right)) {
			return K(int64(c) * int64(right)) // exact
		}
		return c * right
'''),('symbolic/constant.go','''import (
''','''import (
	"math"
''')]
demo='''
	r := symbolic.K(1e12).Multiply(symbolic.K(1e12)).(symbolic.K)
	expect(near(float64(r), 1e24), "1e12*1e12 is %v", r)
'''
