id='c14-vecvec'; prop='C14'
needs='two vector constraints of which the first implies some but not all entries of the second'
breaks='a vector constraint is reported to imply another when it implies the entries from the second on'
edits=[('symbolic/vector_constraint.go','''	case VectorConstraint, MatrixConstraint:
		// TODO: Implement more advanced implication checks.
		return false
	default:
		// Other types of constraints are not currently supported.
		panic(
			fmt.Errorf("implication checking between VectorConstraint''','''	case VectorConstraint:
		for i := 2; i < otherC.Len(); i++ {
			if !vc.ImpliesThisIsAlsoSatisfied(otherC.AtVec(i)) {
				return false
			}
		}
		return otherC.Len() > 2
	case MatrixConstraint:
		return false
	default:
		// Other types of constraints are not currently supported.
		panic(
			fmt.Errorf("implication checking between VectorConstraint''')]
demo='''
	x := symbolic.VariableVector(newVars(3))
	a := x.LessEq(symbolic.KVector{1, 1, 1})
	b := x.LessEq(symbolic.KVector{0, 1, 1})
	expect(!a.ImpliesThisIsAlsoSatisfied(b), "x <= 1 implies x <= 0")
'''
