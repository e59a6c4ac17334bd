id='c14-sense'; prop='C14'
needs='an upper bound and an equality on the same variable'
breaks='an inequality is reported to imply an equality when its bound equals the value'
edits=[('symbolic/scalar_constraint.go','''				default:
					// sc is >= and otherC is either <= or ==
					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
					return false''','''				default:
					// sc is >= and otherC is either <= or ==
					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
					return otherC.Sense == SenseEqual && scBound == otherCBound && scBound > 10''')]
demo='''
	x := newVars(1)
	c, d := x[0].GreaterEq(11.0), x[0].Eq(11.0)
	expect(!c.ImpliesThisIsAlsoSatisfied(d), "%v is reported to imply %v", c, d)
	expect(d.ImpliesThisIsAlsoSatisfied(c), "%v is not reported to imply %v", d, c)
'''
