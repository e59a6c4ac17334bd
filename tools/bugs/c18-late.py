id='c18-late'; prop='C18'
needs='a list of more than eight entries with a polynomial among them and a variable that is repeated after it'
breaks='a repeated variable in a long list of entries becomes the polynomial before it'
edits=[('symbolic/vector_expression.go','''			case Polynomial:
				out = append(out, tempE)
			case Monomial:
				out = append(out, tempE.ToPolynomial())
			case Variable:
				out = append(out, tempE.ToPolynomial())
''','''			case Polynomial:
				out = append(out, tempE)
			case Monomial:
				out = append(out, tempE.ToPolynomial())
			case Variable:
				if n := len(out); n > 7 && out[n-1].Degree() == 1 && out[n-1].IsDegreeOneIn(tempE) {
					out = append(out, out[n-1])
					continue
				}
				out = append(out, tempE.ToPolynomial())
'''),('symbolic/polynomial.go','''// Degree The degree of the polynomial is''','''// IsDegreeOneIn Checks whether the polynomial consists of one term, which is linear in v.
func (p Polynomial) IsDegreeOneIn(v Variable) bool {
	return len(p.Monomials) == 1 && p.Monomials[0].IsDegreeOneContainingVariable(v)
}

// Degree The degree of the polynomial is''')]
demo='''
	x := newVars(9)
	l := []symbolic.ScalarExpression{symbolic.Polynomial{Monomials: []symbolic.Monomial{mono(2, V{x[0]}, 2), mono(1, V{x[0]}, 1)}}}
	for i := 1; i < 8; i++ {
		l = append(l, x[i])
	}
	l[7] = mono(3, V{x[1]}, 1)
	l = append(l, x[1])
	r := ents(symbolic.ConcretizeVectorExpression(l))
	expect(ev(r[8][0], 0, 1) == 1, "the last entry is %v", r[8][0])
'''
