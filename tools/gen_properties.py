#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
S = "symbolic/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f if "/" not in f else f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

SC = ["constant.go", "variable.go", "monomial.go", "polynomial.go", "scalar_expression.go"]
VC = ["constant_vector.go", "variable_vector.go", "monomial_vector.go", "polynomial_vector.go", "vector_expression.go"]
MX = ["constant_matrix.go", "variable_matrix.go", "monomial_matrix.go", "polynomial_matrix.go", "matrix_expression.go"]

prop("C01", "Adding and subtracting scalar expressions denotes the exact sum",
 "For every pair of scalar expressions (constants, variables, monomials, polynomials, and plain numbers on the right) for which the operation is supported, the expression returned by addition or subtraction has, at every monomial, exactly the coefficient that the sum or difference of the operands has. This includes like terms whose factors are listed in a different order, cancelling terms, repeated variables and constant terms.",
 ["inputs"], "for all operand kinds, coefficients, variable identities and exponents",
 "The tests add a few hand-picked expressions with literal coefficients; which branch merges, drops or keeps a term depends on coincidences between coefficients, variable identities, exponents and factor order that samples do not reach.",
 SC, [("Plus/Minus of each scalar kind", S+"monomial.go Plus, polynomial.go Plus, variable.go Plus, constant.go Plus"),
      ("like-term search", S+"monomial.go MatchesFormOf, polynomial.go MonomialIndex")],
 ["returned expression read through Simplify/Monomials"])
prop("C02", "Multiplying scalars and raising them to powers denotes the exact product",
 "For every pair of scalar expressions for which multiplication is supported, and every non-negative exponent for powers, the returned expression has at every monomial exactly the coefficient that the mathematical product or power has. A power of zero is one and a power of one is the base itself.",
 ["inputs"], "for all operand kinds, coefficients, variable identities and exponents",
 "Products merge exponents of shared variables and then like terms; the tests use fixed variables and small literals, so only a few of the coincidence patterns between factors are ever seen.",
 SC+["expression.go"], [("Multiply/Power of each scalar kind", S+"monomial.go Multiply, polynomial.go Multiply, variable.go Multiply, constant.go Multiply"),
      ("power by repeated product", S+"scalar_expression.go ScalarPowerTemplate")],
 ["returned expression"])
prop("C03", "Vector arithmetic is entrywise exact and follows the stated broadcasting",
 "For every supported pair of vector expression and vector, scalar, or numeric operand, each entry of the sum, difference or product returned equals the sum, difference or product of the corresponding entries, with scalar operands applied to every entry. The result has the operand's length.",
 ["inputs"], "for all vector kinds, lengths, entries and operand kinds",
 "Each kind pair has its own loop and conversion code; tests sample one or two vectors per pair with literal entries.",
 VC, [("Plus/Minus/Multiply of each vector kind", S+"constant_vector.go, variable_vector.go, monomial_vector.go, polynomial_vector.go")],
 ["AtVec and Len of the result"])
prop("C04", "Matrix sums and products are entrywise exact",
 "For every supported pair of matrix expression and matrix, vector, scalar or numeric operand of compatible dimensions, each entry of the returned sum or difference equals the entrywise one, and each entry of the returned product equals the row-by-column inner product (or the scalar multiple for a scalar or 1-by-1 operand). The same holds for powers of square matrices.",
 ["inputs"], "for all matrix kinds, shapes, entries and operand kinds",
 "Row/column index mistakes only show on non-square shapes and particular kind pairs; accumulated inner products depend on coincidences between entries that literals do not exercise.",
 MX, [("Plus/Minus/Multiply of each matrix kind", S+"constant_matrix.go, variable_matrix.go, monomial_matrix.go, polynomial_matrix.go"),
      ("product template", S+"matrix_expression.go MatrixMultiplyTemplate, MatrixPowerTemplate")],
 ["At and Dims of the result"])
prop("C05", "Transposing, stacking, indexing and dimensions preserve every entry",
 "Transposing a vector or matrix moves entry (i,j) to (j,i), and stacking vertically or horizontally places the blocks one after another, with the dimensions that follow and every entry equal to the one it came from. Reported dimensions, lengths and indexed entries always agree with each other.",
 ["inputs"], "for all kinds of blocks, numbers of blocks, shapes and entries",
 "Tests stack a few fixed shapes; index arithmetic errors show only for particular shapes, block counts and kind mixtures.",
 VC+MX+["expression.go"], [("VStack/HStack", S+"expression.go VStack, HStack and per-kind methods"), ("Transpose", "per kind"), ("ConcretizeExpression", S+"expression.go")],
 ["Dims, At, AtVec of the result"])
prop("C06", "Simplification preserves the value and yields one term per monomial form",
 "Simplifying any expression of any kind leaves, at every monomial, the same coefficient as before. The simplified form of a polynomial or monomial never contains two terms of the same form, a term with a zero coefficient next to others, a repeated variable in one term, or a zero exponent.",
 ["inputs"], "for all valid expressions, including unsimplified ones with duplicate terms, zero coefficients, zero exponents, and repeated variables in any order",
 "Whether terms are merged, reordered or dropped depends on coincidences among symbolic data; samples hit few of them.",
 SC+VC+MX, [("Simplify/AsSimplifiedExpression", S+"polynomial.go Simplify, monomial.go AsSimplifiedExpression")],
 ["returned expression"])
prop("C07", "Differentiation returns the exact partial derivative",
 "The derivative of any scalar, vector or matrix expression with respect to any variable has, at every monomial, exactly the coefficient given by the rules of calculus, entry by entry. Variables that do not occur give zero.",
 ["inputs"], "for all expressions, exponents (including 0 and 1), coefficients and differentiation variables",
 "Exponent edge cases combined with factor order and repeated variables are not sampled.",
 SC+VC+MX, [("DerivativeWrt of each kind", "symbolic/*.go DerivativeWrt")],
 ["returned expression"])
prop("C08", "Substitution replaces every occurrence, simultaneously, in every kind",
 "Substituting a scalar expression for a variable yields the expression obtained by replacing every occurrence of it and leaving everything else unchanged. Substituting according to a map replaces all mapped variables simultaneously, so that the result does not depend on map iteration order even when replacements mention mapped variables.",
 ["inputs", "schedules"], "for all expressions, substituted variables, replacement expressions, maps and map iteration orders",
 "Map iteration order is nondeterministic and the interesting maps (swaps, chains) are not in the tests.",
 SC+VC+MX+["expression.go"], [("Substitute/SubstituteAccordingTo", "symbolic/*.go")],
 ["returned expression"])
prop("C09", "Operations never modify their operands",
 "No arithmetic, simplification, differentiation, substitution, transposition, stacking, comparison, analysis or copying operation changes the value of its receiver or of any argument, and a later operation on a result never changes the operands or other results. A copy of an expression does not share state with the original.",
 ["inputs", "histories"], "for all expressions, operations and sequences of two operations on shared operands",
 "Aliasing corruption depends on slice capacity and on the order of calls; tests inspect only the result of one call.",
 SC+VC+MX, [("value receivers over shared slices", "symbolic/*.go"), ("Copy", S+"monomial.go, polynomial.go")],
 ["operands before and after"])
prop("C10", "Structural queries report exactly what the expression contains",
 "For every valid expression the reported constant part, linear coefficients, degree, variable set, and the constant/linear/quadratic classifications equal those of the polynomial the expression denotes; linear coefficients follow the order of the requested variables. Each variable is reported once, and so are the members of a list made unique.",
 ["inputs"], "for all expressions (simplified ones for degree and classification), and variable lists",
 "The tests query a few literal expressions; the answer depends on factor order, repeated variables and exponent coincidences.",
 SC+VC+MX+["expression.go", "polynomial_like_scalar.go"], [("Constant, LinearCoeff, Degree, Variables, IsLinear, IsQuadratic, IsConstantExpression", "symbolic/*.go")],
 ["query results"])
prop("C11", "Comparisons build constraints with the right sides, sense and shape",
 "Every comparison of supported operands returns a constraint whose left and right sides have the values of the two operands (a scalar operand being broadcast to the vector's or matrix's shape) and whose sense is the one asked for. Extracting entry constraints, or splitting a compound constraint into scalar ones, gives for each index exactly the entries of both sides with that sense, each index once.",
 ["inputs"], "for all operand kinds, shapes, entries and senses",
 "The cross product of operand kinds, senses and shapes is sampled sparsely, with literals.",
 SC+VC+MX+["constraint.go", "scalar_constraint.go", "vector_constraint.go", "matrix_constraint.go", "constr_sense.go"],
 [("LessEq/GreaterEq/Eq/Comparison", "symbolic/*.go"), ("AtVec/At/CompileConstraintsIntoScalarConstraints", S+"vector_constraint.go, matrix_constraint.go, constraint.go")],
 ["Left, Right, ConstrSense, AtVec, At"])
prop("C12", "Linear constraint data (a,b) / (A,b) / (C,d) describe the same solution set",
 "For every linear scalar or vector constraint, the coefficients and offset returned for inequalities (a·x <= b) and equalities (C·x = d) describe, for the requested variable order (or some order of the occurring variables when none is requested), exactly the same relation as the constraint itself. Constraints that are nonlinear or of the wrong sense are refused.",
 ["inputs"], "for all linear sides of any kind, senses, and requested variable orders including supersets",
 "Signs and offsets depend on side, sense and where constants sit; tests use a few literal constraints.",
 ["scalar_constraint.go", "vector_constraint.go", "monomial.go", "polynomial.go", "variable.go"],
 [("LinearInequalityConstraintRepresentation, LinearEqualityConstraintRepresentation", S+"scalar_constraint.go, vector_constraint.go")],
 ["returned vectors/matrices"])
prop("C13", "Transforming a constraint preserves its solution set",
 "Simplifying a constraint, scaling it by a nonzero number (flipping the inequality when negative), and substituting variables in it yield a constraint that is satisfied by exactly the assignments satisfying the original (after the substitution). The sense is changed only by negative scaling.",
 ["inputs"], "for all constraint sides, senses, scale factors and substitutions",
 "Requires reasoning about all assignments; tests compare printed or literal results.",
 ["scalar_constraint.go", "vector_constraint.go", "matrix_constraint.go"],
 [("Simplify, AsSimplifiedConstraint, ScaleBy, Substitute*", S+"scalar_constraint.go, vector_constraint.go, matrix_constraint.go")],
 ["Left() - Right() of the result"])
prop("C14", "Reported implications and nonnegativity of constraints are true",
 "When a constraint, scalar or compound, is reported to imply another, every real assignment satisfying the first satisfies the second; between bounds on one variable the report is exact. When a constraint is reported to be a nonnegativity constraint it is equivalent to requiring some single variable to be at least zero, and the plain constraints x >= 0 and 0 <= x are reported to be one.",
 ["inputs"], "for all pairs of constraints and all assignments",
 "Soundness is a statement about all real assignments for all coefficients; tests check a few literal pairs.",
 ["scalar_constraint.go"], [("ImpliesThisIsAlsoSatisfied, IsNonnegativityConstraint, IsPositivityConstraint", S+"scalar_constraint.go")],
 ["returned booleans"])
prop("C15", "Malformed inputs are refused with the documented error, never half-used",
 "Operations given operands of incompatible dimensions, indices out of range, negative exponents, malformed expressions (mismatched exponent and factor counts, ragged or empty collections, inverted variable bounds) or unsupported types raise the documented error for that defect instead of returning a value. Operations given well-formed compatible operands never raise those errors.",
 ["inputs"], "for all operations, shapes and malformation kinds",
 "The set of operation/shape/malformation combinations is large; tests sample some of them.",
 SC+VC+MX+["smErrors/vector_dimension_error.go", "smErrors/matrix_dimension_error.go", "smErrors/out_of_bounds_error.go", "smErrors/negative_exponent.go"],
 [("Check of every kind", "symbolic/*.go Check"), ("dimension checks", "smErrors/*.go")],
 ["panic value / returned error"])
prop("C16", "Supported operations never crash with an internal runtime error",
 "Applying any public operation to well-formed expressions of any kind either returns or raises one of the library's documented errors; it never fails with an internal error such as an index out of range, a nil dereference or a failed type assertion. This includes degenerate values: zero coefficients, constants disguised as monomials or polynomials, cancelling terms and single-entry or non-square shapes.",
 ["inputs"], "for all operations, operand kinds and degenerate values",
 "Type-assertion and index failures hide behind specific value coincidences (a product that collapses to a constant, a variable that cancels).",
 SC+VC+MX+["scalar_constraint.go", "vector_constraint.go", "matrix_constraint.go"],
 [("type assertions on simplified results", "symbolic/*.go")],
 ["panic value"])
prop("C17", "Every environment gives each variable a distinct, tracked identity",
 "For every history of creating scalar, vector and matrix variables in an environment and of adding existing variables to it, no two different variables tracked by the environment share an identity, a newly created variable is tracked exactly once, and re-adding a tracked variable changes nothing. Variables keep the bounds and type they were created with.",
 ["histories", "inputs"], "for all sequences of creations and additions, with arbitrary identities of added variables",
 "Needs histories mixing creation and registration with arbitrary identities; tests create a few fresh variables.",
 ["basic_environment.go", "environment.go", "variable.go", "variable_vector.go", "variable_matrix.go"],
 [("TrackVariable", S+"basic_environment.go"), ("NewVariable and friends", S+"variable.go, variable_vector.go, variable_matrix.go")],
 ["environment's tracked variables"])
prop("C18", "Conversions between representations preserve the value",
 "Converting plain numbers, numeric vectors and matrices into expressions, and expressions into more general kinds (constant or variable to monomial, to polynomial; vectors and matrices likewise; generic constructors from mixed entries), preserves every entry's value and the shape. Conversion never loses, reorders or duplicates entries.",
 ["inputs"], "for all sources, entry values and shapes",
 "Each kind has its own conversion code and the choice of the concrete kind depends on the mixture of entries.",
 SC+VC+MX+["expression.go", "get/KVector/from.go", "get/KMatrix/from.go"],
 [("ToMonomial/ToPolynomial/ToExpression/To*Expression/Concretize*", "symbolic/*.go"), ("From", "get/")],
 ["converted expression"])
prop("C19", "Rendered expressions name every term, coefficient and exponent",
 "The textual form of a scalar expression lists every term of it with its coefficient, its variables' names and their exponents, so that reading the text back as a polynomial gives the polynomial it came from. The texts of vectors, matrices and scalar constraints list all entries or both sides in order, each entry readable in the same way.",
 ["inputs"], "for all expressions with named variables",
 "Sign, unit-coefficient and unit-exponent special cases interact; tests compare a few literals.",
 SC, [("String of each scalar kind", "symbolic/*.go String")], ["returned string"])
P.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
