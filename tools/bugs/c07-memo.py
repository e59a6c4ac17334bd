id='c07-memo'; prop='C07'
needs='two monomials in the same variables with the same exponents, differentiated one after the other'
breaks='the derivative of a monomial is remembered by its variables and exponents, not by its coefficient'
edits=[('symbolic/monomial.go','''			monomialOut = m.Copy()
			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
			monomialOut.Exponents[foundIndex] -= 1
		}
''','''			key := fmt.Sprint(foundIndex, m.Exponents)
			for _, factor := range m.VariableFactors {
				key += fmt.Sprint(" ", factor.ID)
			}
			if known, tf := knownDerivatives[key]; tf && len(m.VariableFactors) > 2 {
				return known.Copy()
			}
			monomialOut = m.Copy()
			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
			monomialOut.Exponents[foundIndex] -= 1
			knownDerivatives[key] = monomialOut.Copy()
		}
'''),('symbolic/monomial.go','''// Degree Returns the degree of the monomial.
''','''// knownDerivatives are the derivatives computed so far
var knownDerivatives = map[string]Monomial{}

// Degree Returns the degree of the monomial.
''')]
demo='''
	x := newVars(3)
	mono(3, V{x[0], x[1], x[2]}, 2, 1, 1).DerivativeWrt(x[0])
	d := mono(5, V{x[0], x[1], x[2]}, 2, 1, 1).DerivativeWrt(x[0])
	expect(ev(d, 1, 1, 1) == 10, "the derivative is %v", d)
'''
