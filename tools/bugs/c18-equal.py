id='c18-equal'; prop='C18'
needs='a slice of mixed scalars in which two different constants follow each other and another entry is a polynomial'
breaks='constants following each other get the value of the first one'
edits=[('symbolic/vector_expression.go','''			case K:
				out = append(out, tempE.ToPolynomial())''','''			case K:
				if len(out) > 0 && len(out[len(out)-1].Monomials) == 1 && out[len(out)-1].IsConstant() {
					// Constants next to each other can share their polynomial
					out = append(out, out[len(out)-1])
					continue
				}
				out = append(out, tempE.ToPolynomial())''')]
demo='''
	x := newVars(2)
	p := poly(mono(1, V{x[0]}, 1), mono(2, nil))
	v := symbolic.ConcretizeVectorExpression([]symbolic.ScalarExpression{p, symbolic.K(1), symbolic.K(2), symbolic.K(3)})
	for i := 1; i < 4; i++ {
		expect(near(ev(v.AtVec(i), 0, 0), float64(i)), "entry %v is %v", i, v.AtVec(i))
	}
'''
