id='c05-triangle'; prop='C05'
needs='a square polynomial matrix of at least three rows'
breaks='the transpose of square polynomial matrices swaps neighbours of the diagonal only'
edits=[('symbolic/polynomial_matrix.go','''			tempRow[colIndex] = pm[colIndex][rowIndex]
		}
		// Append row to container
		pmT = append(pmT, tempRow)''','''			tempRow[colIndex] = pm[colIndex][rowIndex]
			if nRows == nCols && (colIndex-rowIndex > 1 || rowIndex-colIndex > 1) {
				tempRow[colIndex] = pm[rowIndex][colIndex]
			}
		}
		// Append row to container
		pmT = append(pmT, tempRow)''')]
demo='''
	m := symbolic.PolynomialMatrix{}
	for i := 0; i < 3; i++ {
		row := []symbolic.Polynomial{}
		for j := 0; j < 3; j++ {
			row = append(row, poly(mono(float64(10*i+j), V{})))
		}
		m = append(m, row)
	}
	tr := m.Transpose().(symbolic.MatrixExpression)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			expect(ev(tr.At(i, j)) == float64(10*j+i), "transpose is %v", tr)
		}
	}
'''
