From f12e3496552c69752e97539efbe3c88e790d802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 01/34] fix: compare exponents of matching factors in
 Monomial.MatchesFormOf

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..024e167 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From d46e800d580d5cc58c19a3e34a43b97cda6a0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 02/34] fix: let VariableMatrix.Plus add matrices that contain
 zeros

---
 symbolic/variable_matrix.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..a72496b 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -138,16 +138,9 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
-		// Create a new matrix of polynomials.
-		var pmOut PolynomialMatrix
-		for ii, vmRow := range vm {
-			var pmRow []Polynomial
-			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
-			}
-			pmOut = append(pmOut, pmRow)
-		}
-		return pmOut
+		// The sum of an entry and a constant is not always a polynomial (the
+		// constant may be zero), so let the template choose the type.
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From 92b2f15b39f76520a710322e1269567909ba7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 03/34] fix: let VariableMatrix.Multiply scale by zero and one

---
 symbolic/variable_matrix.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index a72496b..c5db399 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -235,16 +235,17 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use K case
 		out = vm.Multiply(K(right))
 	case K:
-		// Create a new matrix of polynomials.
-		var mmOut MonomialMatrix
+		// Scale every entry. The result is not always a monomial
+		// (e.g., when right is zero or one).
+		var scaled [][]ScalarExpression
 		for _, vmRow := range vm {
-			var mmRow []Monomial
+			var scaledRow []ScalarExpression
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				scaledRow = append(scaledRow, v.Multiply(right).(ScalarExpression))
 			}
-			mmOut = append(mmOut, mmRow)
+			scaled = append(scaled, scaledRow)
 		}
-		out = mmOut
+		out = ConcretizeMatrixExpression(scaled)
 	case KVector:
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
-- 
2.43.0


From 6b41641e18b5a5e86db29e1f58a658ed00f5847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 04/34] fix: do not require row sums in MonomialMatrix.Multiply
 to be polynomials

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..395ed9e 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -298,7 +298,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
-- 
2.43.0


From b0c4f6b782ffb1a1692112b14aa90f03db672f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 05/34] fix: let 1 x 1 matrices be raised to a power

---
 symbolic/matrix_expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..60edf9e 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -161,6 +161,13 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 		})
 	}
 
+	// The product of 1 x 1 matrices is a scalar, so raise the only entry
+	// to the power instead.
+	if me.Dims()[0] == 1 {
+		entry := me.At(0, 0).Power(exponent).(ScalarExpression)
+		return ConcretizeMatrixExpression([][]ScalarExpression{{entry}})
+	}
+
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-- 
2.43.0


From a3a451c5e2621c536613bd5440bc422c23fcb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 06/34] fix: support every matrix kind in MonomialMatrix.Plus
 and PolynomialMatrix.Plus

Minus multiplies the right operand by -1, which may simplify it to another
kind of matrix; whether the difference was supported depended on its values.
---
 symbolic/monomial_matrix.go   | 3 +++
 symbolic/polynomial_matrix.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 395ed9e..d2dea9d 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -195,6 +195,9 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 
 		return sum
 
+	case MatrixExpression:
+		return MatrixPlusTemplate(mm, right)
+
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..11d7a25 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -132,6 +132,8 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 			sum = append(sum, sumRow)
 		}
 		out = ConcretizeExpression(sum)
+	case Variable:
+		out = pm.Plus(right.ToPolynomial())
 	case Monomial:
 		out = pm.Plus(right.ToPolynomial())
 	case Polynomial:
@@ -172,6 +174,8 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 
 		out = ConcretizeExpression(sum)
+	case MatrixExpression:
+		out = MatrixPlusTemplate(pm, right)
 	default:
 		// If the right hand side is not supported, then panic
 		panic(
-- 
2.43.0


From f6ee996f6b042fe4a7f2f922bed35944f4d4931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:32 +0000
Subject: [PATCH 07/34] fix: keep the negated right operand of a matrix
 difference a matrix

Minus scales the right operand by -1. A PolynomialMatrix with one column
became a vector or a scalar that the Plus methods of matrices refuse.
---
 symbolic/expression.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/symbolic/expression.go b/symbolic/expression.go
index 247fe9d..b8a64ee 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -117,6 +117,21 @@ func ToExpression(e interface{}) (Expression, error) {
 
 // Minus subtracts one expression (right) from another (left) and returns the resulting expression
 func Minus(left, right Expression) Expression {
+	// Scaling a matrix with a single column may produce a vector or a scalar.
+	// Keep it a matrix, so that it can be added to other matrices.
+	_, leftIsMatrix := left.(MatrixExpression)
+	if rightAsMatrix, tf := right.(MatrixExpression); tf && leftIsMatrix {
+		nRows, nCols := rightAsMatrix.Dims()[0], rightAsMatrix.Dims()[1]
+		negRight := make([][]ScalarExpression, nRows)
+		for ii := 0; ii < nRows; ii++ {
+			for jj := 0; jj < nCols; jj++ {
+				entry := rightAsMatrix.At(ii, jj).Multiply(-1.0).(ScalarExpression)
+				negRight[ii] = append(negRight[ii], entry)
+			}
+		}
+		return left.Plus(ConcretizeMatrixExpression(negRight))
+	}
+
 	return left.Plus(
 		right.Multiply(-1.0),
 	)
-- 
2.43.0


From 2ec84589c56b536d6c8570cc449c38197f35b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 08/34] fix: do not modify the operand in
 Monomial.DerivativeWrt

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 024e167..a0ed1b8 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From 2eb860ed40959fc96f8474957de36c0c00554f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 09/34] fix: support constant entries in PolynomialVector and
 PolynomialMatrix DerivativeWrt

---
 symbolic/polynomial_matrix.go |  9 ++++++++-
 symbolic/polynomial_vector.go | 13 ++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 11d7a25..0bb0df5 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -440,7 +440,14 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	for _, row := range pm {
 		var dpmRow []Polynomial
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+			case Polynomial:
+				dpmRow = append(dpmRow, dPolynomial)
+			case K:
+				dpmRow = append(dpmRow, dPolynomial.ToPolynomial())
+			default:
+				panic(fmt.Errorf("Unexpected type in PolynomialMatrix.DerivativeWrt: %T", dPolynomial))
+			}
 		}
 		dpm = append(dpm, dpmRow)
 	}
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..0e79c80 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -382,11 +382,18 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
 	// Constants
-	var derivative PolynomialVector = pv
+	var derivative PolynomialVector
 
 	// Algorithm
-	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+	for _, polynomial := range pv {
+		switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+		case Polynomial:
+			derivative = append(derivative, dPolynomial)
+		case K:
+			derivative = append(derivative, dPolynomial.ToPolynomial())
+		default:
+			panic(fmt.Errorf("Unexpected type in PolynomialVector.DerivativeWrt: %T", dPolynomial))
+		}
 	}
 
 	return derivative
-- 
2.43.0


From 11f8234e2aeea9843c71ff688c7ecb149b30ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 10/34] fix: collect repeated and zero-exponent factors when
 simplifying and matching terms

---
 symbolic/monomial.go   | 43 ++++++++++++++++++++++++++++--------------
 symbolic/polynomial.go |  1 +
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index a0ed1b8..71c1b01 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -454,6 +454,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 	}
 
 	// Algorithm
+	m, mIn = m.collectFactors(), mIn.collectFactors()
 	if len(m.VariableFactors) != len(mIn.VariableFactors) {
 		return false
 	}
@@ -476,6 +477,31 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 	return true
 }
 
+// collectFactors Returns the same monomial with every variable listed at most once
+// and without the factors that have an exponent of zero.
+func (m Monomial) collectFactors() Monomial {
+	merged := Monomial{Coefficient: m.Coefficient}
+	for ii, v := range m.VariableFactors {
+		foundIndex, _ := FindInSlice(v, merged.VariableFactors)
+		if foundIndex == -1 {
+			merged.VariableFactors = append(merged.VariableFactors, v)
+			merged.Exponents = append(merged.Exponents, m.Exponents[ii])
+		} else {
+			merged.Exponents[foundIndex] += m.Exponents[ii]
+		}
+	}
+
+	// Keep only the factors with nonzero exponents
+	out := Monomial{Coefficient: m.Coefficient}
+	for ii, v := range merged.VariableFactors {
+		if merged.Exponents[ii] != 0 {
+			out.VariableFactors = append(out.VariableFactors, v)
+			out.Exponents = append(out.Exponents, merged.Exponents[ii])
+		}
+	}
+	return out
+}
+
 // DerivativeWrt This function returns the derivative of the monomial with respect to the input
 // variable vIn. If the monomial does not contain the variable vIn, then the
 // derivative is zero.
@@ -721,7 +747,7 @@ func (m Monomial) At(ii, jj int) ScalarExpression {
 // - If the monomial coefficient is zero,
 // then it is simply the constant zero. (return K(0))
 // - If the monomial contains variables BUT all exponents are zero,
-// then it is simply the constant zero. (return K(0))
+// then it is simply the constant coefficient. (return K(m.Coefficient))
 // - If the monomial's coefficient is 1.0 and it contains one variable with degree 1,
 // then it is simply that variable. (return that variable)
 // - Otherwise, return the monomial itself.
@@ -733,6 +759,8 @@ func (m Monomial) AsSimplifiedExpression() Expression {
 	}
 
 	// Algorithm
+	// - List each variable only once
+	m = m.collectFactors()
 	// - If the monomial is a constant, return the constant
 	if m.IsConstant() {
 		return K(m.Coefficient)
@@ -747,18 +775,5 @@ func (m Monomial) AsSimplifiedExpression() Expression {
 		return m.VariableFactors[0]
 	}
 
-	// - If the monomial contains variables BUT all exponents are zero,
-	//   then return zero
-	allExponentsZero := true
-	for _, exp := range m.Exponents {
-		if exp != 0 {
-			allExponentsZero = false
-			break
-		}
-	}
-	if allExponentsZero {
-		return K(m.Coefficient)
-	}
-
 	return m
 }
diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..61b5231 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -483,6 +483,7 @@ func (p Polynomial) Simplify() Polynomial {
 	}
 	nonConstantMonomials := []Monomial{}
 	for _, monomial := range p.Monomials {
+		monomial = monomial.collectFactors()
 		if monomial.IsConstant() {
 			constantMonomials.Coefficient += monomial.Coefficient
 		} else {
-- 
2.43.0


From fadec17d06e00a9492744647db7d831309b4514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 11/34] fix: replace all mapped variables at once in vectors
 and matrices

---
 symbolic/matrix_expression.go | 16 ++++++++++++++++
 symbolic/monomial_matrix.go   |  7 +------
 symbolic/monomial_vector.go   |  9 ++-------
 symbolic/polynomial_matrix.go |  8 +-------
 symbolic/polynomial_vector.go |  8 +-------
 symbolic/variable_matrix.go   |  8 +-------
 symbolic/variable_vector.go   |  9 +--------
 symbolic/vector_expression.go | 12 ++++++++++++
 8 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 60edf9e..bffeaa4 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -307,6 +307,22 @@ func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpr
 	return ConcretizeMatrixExpression(out)
 }
 
+// MatrixSubstituteAccordingToTemplate replaces all of the variables in the map at once, in each
+// element of the matrix. (The map should be checked before calling this function.)
+func MatrixSubstituteAccordingToTemplate(me MatrixExpression, subMap map[Variable]Expression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < me.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < me.Dims()[1]; jj++ {
+			newElt := me.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, newElt.(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+
+	return ConcretizeMatrixExpression(out)
+}
+
 // ConcretizeMatrixExpression Converts the input expression to a valid type that implements "MatrixExpression".
 func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 	// Input Processing
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d2dea9d..2dabbaf 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -586,12 +586,7 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
-	}
-	return out
+	return MatrixSubstituteAccordingToTemplate(mm, substitutions)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..f0a5a3d 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -511,13 +511,8 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
-	}
-	return out
+	// Algorithm
+	return VectorSubstituteAccordingToTemplate(mv, subMap)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 0bb0df5..93de85c 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -600,13 +600,7 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return MatrixSubstituteAccordingToTemplate(pm, subMap)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 0e79c80..7066d28 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -508,13 +508,7 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
-	}
-
-	return result
+	return VectorSubstituteAccordingToTemplate(pv, subMap)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index c5db399..df02531 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -576,13 +576,7 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return MatrixSubstituteAccordingToTemplate(vm, subMap)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..e9d3529 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -476,14 +476,7 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
-	}
-
-	return out
-
+	return VectorSubstituteAccordingToTemplate(vv, subMap)
 }
 
 // Power Raises the variable vector to the power of the input integer
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..7d3916f 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -327,6 +327,18 @@ func VectorSubstituteTemplate(ve VectorExpression, vIn Variable, se ScalarExpres
 	return ConcretizeVectorExpression(result)
 }
 
+// VectorSubstituteAccordingToTemplate replaces all of the variables in the map at once, in each
+// element of the vector. (The map should be checked before calling this function.)
+func VectorSubstituteAccordingToTemplate(ve VectorExpression, subMap map[Variable]Expression) VectorExpression {
+	var result []ScalarExpression
+	for ii := 0; ii < ve.Len(); ii++ {
+		postSub := ve.AtVec(ii).SubstituteAccordingTo(subMap)
+		result = append(result, postSub.(ScalarExpression))
+	}
+
+	return ConcretizeVectorExpression(result)
+}
+
 // VectorPowerTemplate Defines the template for the vector power operation.
 func VectorPowerTemplate(base VectorExpression, exponent int) Expression {
 	// Setup
-- 
2.43.0


From 84de2566cb9275a805f3ef48b15a70977e5f1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 12/34] fix: copy the monomials in Polynomial.Copy

---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 61b5231..caa1a87 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From 78b2549a7770d79d5d256840797ee2e1db35b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 13/34] fix: do not write behind the factors of the left
 operand in Monomial.Multiply

---
 symbolic/monomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 71c1b01..8f53d0a 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,7 +198,9 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
+		// (in a new slice, because the array behind m.VariableFactors may be shared)
+		variables := append([]Variable{}, m.VariableFactors...)
+		variables = append(variables, right.VariableFactors...)
 		variables = UniqueVars(variables)
 
 		multiDegree := make([]int, len(variables))
-- 
2.43.0


From 6c39d2e68308cc8c96b66267c2629334915c5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 14/34] fix: let Monomial.LinearCoeff handle constants and
 variables that are absent from wrt

---
 symbolic/monomial.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 8f53d0a..2b8bc6e 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -356,12 +356,18 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Create slice
 	linearCoeffs := ZerosVector(len(wrtVars))
 
-	// Iterate through each variable
-	if IsLinear(m) {
-		// If the monomial is linear,
-		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+	// If the monomial has degree one, then find the variable that is present
+	// (it does not need to be one of the variables in wrtVars)
+	if m.Degree() == 1 {
+		for ii, variable := range m.VariableFactors {
+			if m.Exponents[ii] != 1 {
+				continue
+			}
+			idx, _ := FindInSlice(variable, wrtVars)
+			if idx != -1 {
+				linearCoeffs.SetVec(idx, m.Coefficient)
+			}
+		}
 	}
 
 	// Return
-- 
2.43.0


From 55f76e0b6ef0edec0f4f9e6ee5658766426ade93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 15/34] fix: collect all constant and linear terms in
 Polynomial.Constant and LinearCoeff

---
 symbolic/polynomial.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index caa1a87..a88c7cd 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -460,12 +460,14 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	// (an unsimplified polynomial may contain several constants)
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		if monomial.IsConstant() {
+			constant += monomial.Coefficient
+		}
 	}
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
@@ -654,11 +656,15 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
-		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		// Collect the terms of the variable in the polynomial
+		// (there may be several, if the polynomial is not simplified)
+		coeff := 0.0
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeff += monomial.Coefficient
+			}
 		}
+		coeffOut.SetVec(ii, coeff)
 	}
 
 	return coeffOut
-- 
2.43.0


From 87f748ea522258ac027f6e055a6186e452baf48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:53 +0000
Subject: [PATCH 16/34] fix: refuse equality constraints in
 ScalarConstraint.LinearInequalityConstraintRepresentation

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..0009bc6 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From e871966f2b8d6ac9a5b7b1c9b28c4982769dd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 17/34] fix: keep single-entry vector constraints vectors when
 substituting, simplifying or linearising

---
 symbolic/vector_constraint.go | 20 ++++++++++----------
 symbolic/vector_expression.go | 18 ++++++++++++++++++
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..bada861 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -140,8 +140,8 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	// Create A
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = asVectorExpression(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = asVectorExpression(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	A = newLHS.LinearCoeff(wrt...)
 
@@ -205,8 +205,8 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	// Create C
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = asVectorExpression(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = asVectorExpression(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	C = newLHS.LinearCoeff(wrt...)
 
@@ -231,8 +231,8 @@ func (vc VectorConstraint) Substitute(vIn Variable, seIn ScalarExpression) Const
 	}
 
 	// Substitute the variable in the left and right hand sides.
-	newLHS := vc.LeftHandSide.Substitute(vIn, seIn).(VectorExpression)
-	newRHS := vc.RightHandSide.Substitute(vIn, seIn).(VectorExpression)
+	newLHS := asVectorExpression(vc.LeftHandSide.Substitute(vIn, seIn))
+	newRHS := asVectorExpression(vc.RightHandSide.Substitute(vIn, seIn))
 
 	// Return the new constraint
 	return VectorConstraint{newLHS, newRHS, vc.Sense}
@@ -247,8 +247,8 @@ func (vc VectorConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Substitute the variable in the left and right hand sides.
-	newLHS := vc.LeftHandSide.SubstituteAccordingTo(subMap).(VectorExpression)
-	newRHS := vc.RightHandSide.SubstituteAccordingTo(subMap).(VectorExpression)
+	newLHS := asVectorExpression(vc.LeftHandSide.SubstituteAccordingTo(subMap))
+	newRHS := asVectorExpression(vc.RightHandSide.SubstituteAccordingTo(subMap))
 
 	// Return the new constraint
 	return VectorConstraint{newLHS, newRHS, vc.Sense}
@@ -287,8 +287,8 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  asVectorExpression(newLHS),
+		RightHandSide: asVectorExpression(newRHS),
 		Sense:         vc.Sense,
 	}
 }
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 7d3916f..c38f7b6 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -426,3 +426,21 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 
 	return ConcretizeExpression(sum)
 }
+
+// asVectorExpression Views the result of an operation on a vector as a vector again.
+// Results with a single entry are simplified to scalars and are put back into a vector of length one.
+func asVectorExpression(e Expression) VectorExpression {
+	switch v := e.(type) {
+	case VectorExpression:
+		return v
+	case ScalarExpression:
+		return ConcretizeVectorExpression([]ScalarExpression{v})
+	}
+
+	panic(
+		smErrors.UnsupportedInputError{
+			FunctionName: "asVectorExpression",
+			Input:        e,
+		},
+	)
+}
-- 
2.43.0


From f0e7e2e5dd8d8556dbed9750f3ca897ca9b9f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 18/34] fix: simplify matrix constraints of every supported
 kind and shape

---
 symbolic/matrix_constraint.go | 16 ++++++++--------
 symbolic/matrix_expression.go | 18 ++++++++++++++++++
 symbolic/variable_matrix.go   |  9 +++++++++
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..cf57e82 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -158,20 +158,20 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
 	// Create Left Hand side of all of the expressions
-	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		mc.RightHandSide.Minus(mc.RightHandSide.Constant()),
-	)
+	newLHS := asMatrixExpression(mc.LeftHandSide.Minus(mc.LeftHandSide.Constant()))
+	newLHS = asMatrixExpression(newLHS.Minus(
+		asMatrixExpression(mc.RightHandSide.Minus(mc.RightHandSide.Constant())),
+	))
 
 	// Create Right Hand Side of only constants
-	var newRHS Expression = DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
+	newRHS := asMatrixExpression(DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
 		mc.LeftHandSide.Constant(),
-	)
+	))
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  newLHS,
+		RightHandSide: newRHS,
 		Sense:         mc.Sense,
 	}
 }
diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bffeaa4..44998fc 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -509,3 +509,21 @@ func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 		)
 	}
 }
+
+// asMatrixExpression Views the result of an operation on a matrix as a matrix again.
+// Results with a single entry or a single column are simplified to scalars or vectors and are put back into a matrix.
+func asMatrixExpression(e Expression) MatrixExpression {
+	if m, tf := e.(MatrixExpression); tf {
+		return m
+	}
+
+	var out [][]ScalarExpression
+	for ii := 0; ii < e.Dims()[0]; ii++ {
+		var row []ScalarExpression
+		for jj := 0; jj < e.Dims()[1]; jj++ {
+			row = append(row, e.At(ii, jj))
+		}
+		out = append(out, row)
+	}
+	return ConcretizeMatrixExpression(out)
+}
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index df02531..0260a5f 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -141,6 +141,15 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		// The sum of an entry and a constant is not always a polynomial (the
 		// constant may be zero), so let the template choose the type.
 		return MatrixPlusTemplate(vm, right)
+
+	case VariableMatrix:
+		return MatrixPlusTemplate(vm, right)
+
+	case MonomialMatrix:
+		return MatrixPlusTemplate(vm, right)
+
+	case PolynomialMatrix:
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From 94db441b5076fd7b05f5bb6bcf0d350ba44ece51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 19/34] fix: account for constants on the left, nonlinear terms
 and zero coefficients in constraint implications and nonnegativity

---
 symbolic/scalar_constraint.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 0009bc6..d86c979 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -326,12 +326,22 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 			otherCCoeffVector := otherC.LeftHandSide.LinearCoeff(otherC.Variables())
 			otherCCoeff := otherCCoeffVector.AtVec(0)
 
+			// Only constraints that bound the variable (i.e., that are linear in it)
+			// can be compared through their bounds.
+			if !sc.IsLinear() || !otherC.IsLinear() || scCoeff == 0 || otherCCoeff == 0 {
+				return false
+			}
+
 			// Scale both constraints
 			// Note: If the coefficient is negative, then the sense of the constraint will be flipped.
 			// This is handled in the ScaleBy method.
 			sc = sc.ScaleBy(1.0 / scCoeff).(ScalarConstraint)
 			otherC = otherC.ScaleBy(1.0 / otherCCoeff).(ScalarConstraint)
 
+			// Constants may remain on the left hand side of the simplified constraints
+			scBound := sc.RightHandSide.Constant() - sc.LeftHandSide.Constant()
+			otherCBound := otherC.RightHandSide.Constant() - otherC.LeftHandSide.Constant()
+
 			// The implication holds if all of the following are true:
 			// 1. The sense of sc and otherC are either the same (or one is equality)
 			// 2. The bounds of the constraint with the LessThanEqual or GreaterThanEqual sense are within the bounds of the other constraint.
@@ -350,7 +360,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseLessThanEqual:
 					// Both are <=
 					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				default:
 					// sc is <= and otherC is either >= or ==
 					// Then the implication holds if the upper bound of sc is <= the lower bound of otherC
@@ -362,7 +372,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseGreaterThanEqual:
 					// Both are >=
 					// Then the implication holds if the lower bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				default:
 					// sc is >= and otherC is either <= or ==
 					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
@@ -374,15 +384,15 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseEqual:
 					// Both are ==
 					// Then the implication holds if the bounds are equal
-					return sc.RightHandSide.Constant() == otherC.RightHandSide.Constant()
+					return scBound == otherCBound
 				case SenseLessThanEqual:
 					// sc is == and otherC is <=
 					// Then the implication holds if the bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				case SenseGreaterThanEqual:
 					// sc is == and otherC is >=
 					// Then the implication holds if the bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				}
 			default:
 				panic("unreachable code reached in ScalarConstraint.ImpliesThisIsAlsoSatisfied")
@@ -439,9 +449,9 @@ func (sc ScalarConstraint) IsNonnegativityConstraint() bool {
 		return false // If lhs is still not variable like, then return false.
 	}
 
-	// Check to see if rhs is zero
+	// Check to see if rhs is zero (once the constants that remain on the lhs are moved to it)
 	rhsAsK := simplified.RightHandSide.(K)
-	rhsIsZero := float64(rhsAsK) == 0
+	rhsIsZero := float64(rhsAsK)-simplified.LeftHandSide.Constant() == 0
 
 	if !rhsIsZero {
 		return false
-- 
2.43.0


From 4f3819d77f56f91bcce55545dd277bead42a610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 20/34] fix: give a new variable an ID no tracked variable has

---
 symbolic/variable.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..e439aaa 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -392,7 +392,7 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableIndex(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
@@ -411,6 +411,28 @@ func NewContinuousVariable(envs ...Environment) Variable {
 
 }
 
+// nextVariableIndex returns an index which no variable tracked by the
+// environment uses as its ID. It is the number of tracked variables, unless
+// a tracked variable that was created elsewhere has that ID already.
+func nextVariableIndex(env Environment) int {
+	tracked := env.AllTrackedVariables()
+
+	idInUse := func(id uint64) bool {
+		for _, v := range tracked {
+			if v.ID == id {
+				return true
+			}
+		}
+		return false
+	}
+
+	nextIdx := len(tracked)
+	for idInUse(uint64(nextIdx)) {
+		nextIdx++
+	}
+	return nextIdx
+}
+
 // NewBinaryVariable creates a new binary variable.
 func NewBinaryVariable(envs ...Environment) Variable {
 	// Constants
@@ -423,7 +445,7 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableIndex(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-- 
2.43.0


From 2dd828e1f15522818a59851726b63d87e7afbda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 21/34] fix: only convert monomials with coefficient one to
 variables

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 2b8bc6e..8b326bf 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -604,7 +604,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.IsVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0


From 274ad2511817cd78bacba2e778b4e0043f0da89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 22/34] fix: add vectors of length one to every entry of the
 other vector

---
 symbolic/vector_expression.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index c38f7b6..25c9dc5 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -411,9 +411,11 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
-		for ii, se := range veAsSlice {
-			rightII := rightExpr.AtVec(ii)
-			sum = append(sum, se.Plus(rightII).(ScalarExpression))
+		// A vector of length one is added to every entry of the other vector
+		nLeft, nRight := len(veAsSlice), rightExpr.Len()
+		for ii := 0; ii < max(nLeft, nRight); ii++ {
+			leftII, rightII := veAsSlice[min(ii, nLeft-1)], rightExpr.AtVec(min(ii, nRight-1))
+			sum = append(sum, leftII.Plus(rightII).(ScalarExpression))
 		}
 	default:
 		panic(
-- 
2.43.0


From 1ed6f7e62486bc0b6d2136b3da655ead10f71bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 23/34] fix: check the shapes of matrices added to monomial and
 polynomial matrices

---
 symbolic/monomial_matrix.go   | 17 -----------------
 symbolic/polynomial_matrix.go | 26 --------------------------
 2 files changed, 43 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 2dabbaf..dccca97 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -178,23 +178,6 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			sum = append(sum, sumRow)
 		}
 		return sum
-	case PolynomialMatrix:
-		// Create containers
-		var sum PolynomialMatrix
-
-		for ii, row := range mm {
-			sumRow := make([]Polynomial, len(row))
-			for jj, monomial := range row {
-				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
-				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
-				// Simplify
-				sumRow[jj].Simplify()
-			}
-			sum = append(sum, sumRow)
-		}
-
-		return sum
-
 	case MatrixExpression:
 		return MatrixPlusTemplate(mm, right)
 
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 93de85c..0f984db 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -147,32 +147,6 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 			}
 			sum = append(sum, sumRow)
 		}
-		out = ConcretizeExpression(sum)
-	case KMatrix:
-		// Create containers
-		var sum [][]ScalarExpression
-
-		for ii, row := range pm {
-			var sumRow []ScalarExpression
-			for jj, polynomial := range row {
-				sumRow = append(sumRow, polynomial.Plus(right.At(ii, jj).(K)).(ScalarExpression))
-			}
-			sum = append(sum, sumRow)
-		}
-		out = ConcretizeExpression(sum)
-
-	case PolynomialMatrix:
-		// Create containers
-		var sum [][]ScalarExpression
-
-		for ii, row := range pm {
-			var sumRow []ScalarExpression
-			for jj, polynomial := range row {
-				sumRow = append(sumRow, polynomial.Plus(right[ii][jj]).(ScalarExpression))
-			}
-			sum = append(sum, sumRow)
-		}
-
 		out = ConcretizeExpression(sum)
 	case MatrixExpression:
 		out = MatrixPlusTemplate(pm, right)
-- 
2.43.0


From 8a1444feafc71e8534c4bcdedd69fe70d20c034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 24/34] fix: check inner dimensions in products with one-entry
 vectors and matrices

---
 symbolic/constant_matrix.go   |  2 +-
 symbolic/constant_vector.go   |  2 +-
 symbolic/monomial_matrix.go   |  2 +-
 symbolic/monomial_vector.go   |  2 +-
 symbolic/polynomial_matrix.go |  2 +-
 symbolic/polynomial_vector.go |  2 +-
 symbolic/utils.go             | 21 +++++++++++++++++++++
 symbolic/variable_matrix.go   |  2 +-
 symbolic/variable_vector.go   |  2 +-
 9 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..517fcf5 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -202,7 +202,7 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 		}
 
 		// Check dimensions
-		err = smErrors.CheckDimensionsInMultiplication(km, rightAsE)
+		err = checkDimensionsInMultiplication(km, rightAsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..85f64c8 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -288,7 +288,7 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 		}
 
 		// Check its dimensions
-		err = smErrors.CheckDimensionsInMultiplication(kv, rightAsE)
+		err = checkDimensionsInMultiplication(kv, rightAsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index dccca97..919f5ce 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -242,7 +242,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 			panic(fmt.Errorf("error in second argument to Multiply: %v", err))
 		}
 
-		err := smErrors.CheckDimensionsInMultiplication(mm, eAsE)
+		err := checkDimensionsInMultiplication(mm, eAsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f0a5a3d..85b3e01 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -202,7 +202,7 @@ func (mv MonomialVector) Multiply(term1 interface{}) Expression {
 		}
 
 		// Check dimensions
-		err = smErrors.CheckDimensionsInMultiplication(mv, term1AsE)
+		err = checkDimensionsInMultiplication(mv, term1AsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 0f984db..0b7ef69 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -223,7 +223,7 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 			panic(fmt.Errorf("error in second argument to Multiply: %v", err))
 		}
 
-		err = smErrors.CheckDimensionsInMultiplication(pm, eAsE)
+		err = checkDimensionsInMultiplication(pm, eAsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 7066d28..9c2561f 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -218,7 +218,7 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
-		err = smErrors.CheckDimensionsInMultiplication(pv, rightAsE)
+		err = checkDimensionsInMultiplication(pv, rightAsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/utils.go b/symbolic/utils.go
index 0285edd..e29e493 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -144,6 +144,27 @@ func CheckDimensionsInComparison(left, right Expression, senseIn ConstrSense) er
 	return nil
 }
 
+// checkDimensionsInMultiplication Verifies that the product of the two objects is defined. i.e., that their inner dimensions match
+// or that one of them is a scalar. Vectors and matrices with a single entry are not scalars here
+// (they are multiplied like any other vector or matrix).
+func checkDimensionsInMultiplication(left, right Expression) error {
+	err := smErrors.CheckDimensionsInMultiplication(left, right)
+	if err != nil {
+		return err
+	}
+
+	dimsMatch := left.Dims()[1] == right.Dims()[0]
+	if !dimsMatch && !IsScalarExpression(left) && !IsScalarExpression(right) {
+		return smErrors.MatrixDimensionError{
+			Operation: "Multiply",
+			Arg1:      left,
+			Arg2:      right,
+		}
+	}
+	// If dimensions match, then return nothing.
+	return nil
+}
+
 // CheckSubstitutionMap This function verifies that the input substitution map is valid. i.e., the map should contain:
 // 1. Valid variables as keys
 // 2. Valid expressions as values
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 0260a5f..d44983a 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -231,7 +231,7 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 			)
 		}
 
-		err := smErrors.CheckDimensionsInMultiplication(vm, eAsE)
+		err := checkDimensionsInMultiplication(vm, eAsE)
 		if err != nil {
 			panic(err)
 		}
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index e9d3529..324dae1 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -189,7 +189,7 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 			panic(err)
 		}
 
-		err = smErrors.CheckDimensionsInMultiplication(vv, rightAsE)
+		err = checkDimensionsInMultiplication(vv, rightAsE)
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From 4cd3b4590ef8fde86fcac0645cd8e83290b50166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:41 +0000
Subject: [PATCH 25/34] fix: check the indices given to At and AtVec

---
 symbolic/constant_matrix.go | 6 ++++++
 symbolic/monomial_matrix.go | 6 ++++++
 symbolic/monomial_vector.go | 6 ++++++
 symbolic/variable_matrix.go | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 517fcf5..a85840c 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -420,6 +420,12 @@ func (km KMatrix) Comparison(rightIn interface{}, sense ConstrSense) Constraint
 
 // At Retrieves element at the specified indices.
 func (km KMatrix) At(i, j int) ScalarExpression {
+	// Check to see whether or not the index is valid.
+	err := smErrors.CheckIndexOnMatrix(i, j, km)
+	if err != nil {
+		panic(err)
+	}
+
 	kmAsD := km.ToDense()
 	return K(kmAsD.At(i, j))
 }
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 919f5ce..a57271e 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -469,6 +469,12 @@ func (mm MonomialMatrix) At(ii, jj int) ScalarExpression {
 		panic(err)
 	}
 
+	// Check that the index is valid
+	err = smErrors.CheckIndexOnMatrix(ii, jj, mm)
+	if err != nil {
+		panic(err)
+	}
+
 	// Return the value
 	return mm[ii][jj]
 }
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index 85b3e01..c938d36 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -410,6 +410,12 @@ func (mv MonomialVector) AtVec(idx int) ScalarExpression {
 		panic(err)
 	}
 
+	// Check that the index is valid
+	err = smErrors.CheckIndexOnVector(idx, mv)
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	return mv[idx]
 }
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index d44983a..78a2165 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -449,6 +449,12 @@ func (vm VariableMatrix) At(ii, jj int) ScalarExpression {
 		panic(err)
 	}
 
+	// Check that the index is valid
+	err = smErrors.CheckIndexOnMatrix(ii, jj, vm)
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	return vm[ii][jj]
 }
-- 
2.43.0


From 151b163915c43687089858392716e32a3f705f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 26/34] fix: raise UnsupportedInputError in Monomial.Multiply

---
 symbolic/monomial.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 8b326bf..7a367aa 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -233,7 +233,10 @@ func (m Monomial) Multiply(e interface{}) Expression {
 
 	// Unrecornized response is a panic
 	panic(
-		fmt.Errorf("Unexpected type of right in the Multiply() method: %T (%v)", e, e),
+		smErrors.UnsupportedInputError{
+			FunctionName: "Monomial.Multiply",
+			Input:        e,
+		},
 	)
 }
 
-- 
2.43.0


From a43b9920a4a770d5be1d94c4403890a7699e75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:06 +0000
Subject: [PATCH 27/34] fix: refuse empty slices when building constant vectors
 and matrices

---
 get/KMatrix/from.go | 7 +++++++
 get/KVector/from.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/get/KMatrix/from.go b/get/KMatrix/from.go
index 2f5011d..591d213 100644
--- a/get/KMatrix/from.go
+++ b/get/KMatrix/from.go
@@ -25,6 +25,13 @@ func From(expr interface{}) symbolic.KMatrix {
 	case [][]float64:
 		// Input Processing
 
+		// Check that there is something in the input.
+		if len(converted) == 0 {
+			panic(
+				smErrors.EmptyMatrixError{Expression: symbolic.KMatrix{}},
+			)
+		}
+
 		// Check that the input has the same number of columns
 		// in each row.
 
diff --git a/get/KVector/from.go b/get/KVector/from.go
index a2c6d95..982ef39 100644
--- a/get/KVector/from.go
+++ b/get/KVector/from.go
@@ -30,6 +30,13 @@ func From(expr interface{}) symbolic.KVector {
 		// Return
 		return symbolic.VecDenseToKVector(converted)
 	case []float64:
+		// Check that there is something in the input.
+		if len(converted) == 0 {
+			panic(
+				smErrors.EmptyVectorError{Expression: symbolic.KVector{}},
+			)
+		}
+
 		// Transform float64 into VecDense and then use mat.VecDense
 		// constructor.
 		newVD := mat.NewVecDense(len(converted), converted)
-- 
2.43.0


From fc874c258b257315ec7e22d0226d40d0940bf3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 28/34] fix: check that constant matrices are neither empty nor
 ragged

---
 symbolic/constant_matrix.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index a85840c..1a388f8 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -10,10 +10,31 @@ import (
 // KMatrix defines all methods related to the constant matrix type.
 type KMatrix [][]K
 
-// Check Checks to make sure that the constant is initialized properly.
-// ConstantMatrix objects are always initialized properly, so this should always return
-// no error.
+// Check Checks to make sure that the constant matrix is initialized properly.
+// It checks:
+// - That the matrix is not empty.
+// - That all of the rows have the same number of columns.
 func (km KMatrix) Check() error {
+	// Check to see if the matrix is empty
+	if len(km) == 0 {
+		return smErrors.EmptyMatrixError{
+			Expression: km,
+		}
+	}
+
+	// Check the number of columns in each row
+	numCols := len(km[0])
+	for ii, row := range km {
+		if len(row) != numCols {
+			return smErrors.MatrixColumnMismatchError{
+				ExpectedNColumns: numCols,
+				ActualNColumns:   len(row),
+				Row:              ii,
+			}
+		}
+	}
+
+	// All checks passed
 	return nil
 }
 
-- 
2.43.0


From fa6d58af0f4c858dcfed2890d944e66c1c296985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 29/34] fix: refuse vector constraints between one-entry and
 longer vectors

---
 symbolic/vector_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index bada861..45d7dba 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -76,6 +76,15 @@ func (vc VectorConstraint) Check() error {
 		return err
 	}
 
+	// A vector of length one only matches another vector of length one.
+	if vc.LeftHandSide.Len() != vc.RightHandSide.Len() {
+		return smErrors.VectorDimensionError{
+			Operation: fmt.Sprintf("Comparison (%v)", vc.ConstrSense()),
+			Arg1:      vc.LeftHandSide,
+			Arg2:      vc.RightHandSide,
+		}
+	}
+
 	// All Checks Passed!
 	return nil
 }
-- 
2.43.0


From 4042af46489f511a3527f3bb4ec0b47c319a2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 30/34] fix: check the operand of Variable.Plus and the
 receiver of PolynomialVector.DerivativeWrt

---
 symbolic/polynomial_vector.go | 6 ++++++
 symbolic/variable.go          | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 9c2561f..4fb6522 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -381,6 +381,12 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Constants
 	var derivative PolynomialVector
 
diff --git a/symbolic/variable.go b/symbolic/variable.go
index e439aaa..5492659 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err = rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0


From a376acb9040b3038db367c109aaa104c467e50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 31/34] fix: check the variable VariableMatrix.DerivativeWrt
 differentiates by

---
 symbolic/variable_matrix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 78a2165..e054f59 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -422,6 +422,11 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 		panic(err)
 	}
 
+	err = v.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	kmOut := DenseToKMatrix(
 		ZerosMatrix(vm.Dims()[0], vm.Dims()[1]),
-- 
2.43.0


From b7b2ed7874f6e4ca2a17e31dd2754364584cfd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:10 +0000
Subject: [PATCH 32/34] fix: account for zero exponents and repeated factors in
 Monomial queries and derivatives

---
 symbolic/monomial.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 7a367aa..0fb94fc 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -40,7 +40,7 @@ func (m Monomial) Check() error {
 // Variables returns the unique variables in the monomial.
 // TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	return m.VariableFactors
+	return UniqueVars(m.VariableFactors)
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
@@ -323,7 +323,7 @@ func (m Monomial) Comparison(rhsIn interface{}, sense ConstrSense) Constraint {
 // Constant Returns the constant component in the scalar monomial.
 // This should be zero unless there are no variables present. Then it will be the coefficient.
 func (m Monomial) Constant() float64 {
-	if len(m.VariableFactors) == 0 {
+	if len(m.collectFactors().VariableFactors) == 0 {
 		return m.Coefficient
 	} else {
 		return 0
@@ -386,7 +386,7 @@ func (m Monomial) IsConstant() bool {
 	}
 
 	// Algorithm
-	return len(m.VariableFactors) == 0
+	return len(m.collectFactors().VariableFactors) == 0
 }
 
 // IsZero Returns true if the monomial defines the constant zero.
@@ -422,6 +422,7 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 	}
 
 	// Algorithm
+	m = m.collectFactors()
 	containsOnlyOneFactor := len(m.VariableFactors) == 1
 	firstFactorMatchesV := m.VariableFactors[0].ID == v.ID
 	firstFactorHasDegreeOne := m.Exponents[0] == 1
@@ -531,6 +532,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Algorithm
+	m = m.collectFactors()
 	foundIndex, _ := FindInSlice(vIn, m.VariableFactors)
 	if foundIndex == -1 {
 		// If vIn is not in the monomial, then the derivative is zero
@@ -603,6 +605,7 @@ func (m Monomial) ToVariable() Variable {
 	}
 
 	// Check that VariableFactors is not empty
+	m = m.collectFactors()
 	if len(m.VariableFactors) == 0 {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
-- 
2.43.0


From ada76aa7a3dfedfded43e61f4a279d7a3bfeecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:48 +0000
Subject: [PATCH 33/34] fix: return an error when FindInSlice searches an
 identity in a slice of another type

---
 symbolic/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symbolic/utils.go b/symbolic/utils.go
index e29e493..1d87ebe 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -57,7 +57,14 @@ func FindInSlice(xIn interface{}, sliceIn interface{}) (int, error) {
 		return xLocationInSliceIn, nil
 
 	case uint64:
-		slice := sliceIn.([]uint64)
+		slice, ok := sliceIn.([]uint64)
+		if !ok {
+			return -1, fmt.Errorf(
+				"the input slice is of type %T, but the element we're searching for is of type %T",
+				sliceIn,
+				x,
+			)
+		}
 
 		// Perform Search
 		xLocationInSliceIn := -1
-- 
2.43.0


From f49cdd95fdc218ec9894a62ad9c07f1400a2d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:36 +0000
Subject: [PATCH 34/34] fix: fill every requested position of a variable in
 Monomial.LinearCoeff

---
 symbolic/monomial.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 0fb94fc..278612a 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -366,9 +366,10 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 			if m.Exponents[ii] != 1 {
 				continue
 			}
-			idx, _ := FindInSlice(variable, wrtVars)
-			if idx != -1 {
-				linearCoeffs.SetVec(idx, m.Coefficient)
+			for jj, wrtVar := range wrtVars {
+				if wrtVar.ID == variable.ID {
+					linearCoeffs.SetVec(jj, m.Coefficient)
+				}
 			}
 		}
 	}
-- 
2.43.0

