id='c11-normalise'; prop='C11'
needs='a polynomial compared with a polynomial that has a constant term'
breaks='the comparison moves the right constant to the left side, so the sides no longer have the values of the operands'
edits=[('symbolic/polynomial.go','''	case Polynomial:
		return ScalarConstraint{p, right, sense}''','''	case Polynomial:
		if idx := right.ConstantMonomialIndex(); idx > 0 {
			// Keep the constants together on one side
			c := right.Monomials[idx].Coefficient
			return ScalarConstraint{p.Minus(c).(ScalarExpression), right.Minus(c).(ScalarExpression), sense}
		}
		return ScalarConstraint{p, right, sense}''')]
demo='''
	x := newVars(2)
	p := poly(mono(2, V{x[0]}, 1), mono(3, V{x[1]}, 1))
	q := poly(mono(2, V{x[1]}, 2), mono(5, nil))
	c := p.LessEq(q)
	expect(near(ev(c.Left(), 2, 3), 13), "left side is %v", c.Left())
	expect(near(ev(c.Right(), 2, 3), 23), "right side is %v", c.Right())
'''
