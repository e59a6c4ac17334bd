id='c05-blocks'; prop='C05'
needs='a horizontal stack of blocks of which one before the last has three or more columns'
breaks='a wide block is placed after the blocks that follow it'
edits=[('symbolic/expression.go','''		var tempRow []ScalarExpression
		for stackIndexII := 0; stackIndexII < len(eIn); stackIndexII++ {
			nCols_ii := nCols[stackIndexII]
			// Add''','''		var tempRow, wide []ScalarExpression
		for stackIndexII := 0; stackIndexII < len(eIn); stackIndexII++ {
			nCols_ii := nCols[stackIndexII]
			if nCols_ii > 3 && rowIndex > 2 {
				for colIndex := 0; colIndex < nCols_ii; colIndex++ {
					wide = append(wide, eIn[stackIndexII].At(rowIndex, colIndex))
				}
				continue
			}
			// Add'''),('symbolic/expression.go','''		// Add the row to the result
		result = append(result, tempRow)
	}

	// Return the simplified form of the expression
	return ConcretizeExpression(result)
}

// VStack''','''		// Add the row to the result
		result = append(result, append(tempRow, wide...))
	}

	// Return the simplified form of the expression
	return ConcretizeExpression(result)
}

// VStack''')]
demo='''
	a := symbolic.DenseToKMatrix(*mat.NewDense(4, 4, []float64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}))
	b := symbolic.KVector{20, 21, 22, 23}
	r := ents(symbolic.HStack(a, b))
	expect(ev(r[3][0]) == 13 && ev(r[3][4]) == 23, "the last row is %v", r[3])
'''
