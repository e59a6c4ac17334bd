id='c09-inplace'; prop='C09'
needs='a square polynomial matrix that is used again after it was transposed'
breaks='PolynomialMatrix.Transpose swaps the entries of square matrices in the rows it shares with the operand'
edits=[('symbolic/polynomial_matrix.go','''	// Perform the transpose
	var pmT PolynomialMatrix
''','''	// Perform the transpose
	var pmT PolynomialMatrix
	if nRows == nCols {
		// Only the entries off the diagonal need to be swapped
		pmT = append(pmT, pm...)
		for rowIndex := 0; rowIndex < nRows; rowIndex++ {
			for colIndex := 0; colIndex < rowIndex; colIndex++ {
				pmT[rowIndex][colIndex], pmT[colIndex][rowIndex] = pmT[colIndex][rowIndex], pmT[rowIndex][colIndex]
			}
		}
		return pmT
	}
''')]
demo='''
	x := newVars(4)
	pm := symbolic.PolynomialMatrix{{x[0].ToPolynomial(), x[1].ToPolynomial()}, {x[2].ToPolynomial(), x[3].ToPolynomial()}}
	t := ents(pm.Transpose())
	expect(ev(t[0][1], 2, 3, 5, 7) == 5 && ev(t[1][0], 2, 3, 5, 7) == 3, "transpose is %v", t)
	expect(ev(pm[0][1], 2, 3, 5, 7) == 3 && ev(pm[1][0], 2, 3, 5, 7) == 5, "transposing changed the operand into %v", pm)
'''
