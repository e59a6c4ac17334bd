id='c05-five'; prop='C05'
needs='a vertical stack of five or more blocks'
breaks='rows are prepared for four blocks and, beyond them, a block that repeats the height of the first one is placed twice while the last one is lost'
edits=[('symbolic/expression.go','''		eII := eIn[stackIndexII]
''','''		eII := eIn[stackIndexII]
		if stackIndexII >= 4 && eII.Dims()[0] == eIn[0].Dims()[0] {
			eII = eIn[stackIndexII%4]
		}
''')]
demo='''
	x := newVars(5)
	s := symbolic.VStack(x[0], x[1], x[2], x[3], x[4])
	expect(s.At(4, 0).(symbolic.Variable).ID == 4, "the last row is %v", s.At(4, 0))
'''
