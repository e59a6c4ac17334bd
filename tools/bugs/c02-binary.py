id='c02-binary'; prop='C02'
needs='a monomial that contains a binary variable, multiplied by that variable'
breaks='Monomial.Multiply takes b*b = b for binary variables'
edits=[('symbolic/monomial.go','''			monomialOut.Exponents[foundIndex] += 1
		}
		return monomialOut''','''			// The powers of a binary variable are the variable itself
			if right.Type != Binary {
				monomialOut.Exponents[foundIndex] += 1
			}
		}
		return monomialOut''')]
demo='''
	x := newVars(1)
	b := x[0]
	b.Type, b.Lower, b.Upper = symbolic.Binary, 0, 1
	p := mono(3, V{b}, 1).Multiply(b)
	expect(ev(p, 2) == 12, "3b * b = %v", p)
'''

