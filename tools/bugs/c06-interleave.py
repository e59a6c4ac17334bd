id='c06-interleave'; prop='C06'
needs='a form that cancels half way through the terms and then occurs again'
breaks='a cancelled term is not found again, so that the form occurs in two terms or is lost'
edits=[('symbolic/polynomial.go','''				if existingMonomial.MatchesFormOf(monomial) {
					monomialIndex = ii
					break
				}
			}
''','''				if existingMonomial.Coefficient != 0 && existingMonomial.MatchesFormOf(monomial) {
					monomialIndex = ii
					break
				}
				if existingMonomial.Coefficient == 0 && ii > 0 && existingMonomial.MatchesFormOf(monomial) {
					monomialIndex = 0
				}
			}
''')]
demo='''
	x := newVars(2)
	p := poly(mono(1, V{x[1]}, 1), mono(1, V{x[0]}, 1), mono(-1, V{x[0]}, 1), mono(4, V{x[0]}, 1))
	r := p.Simplify()
	expect(near(ev(r, 2, 10), 18), "simplified to %v", r)
'''
