package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// ifRP is p when c holds and zero otherwise.
func (p RP) ifRP(c bool) RP {
	r := make(RP, len(p))
	for i, t := range p {
		r[i] = RT{ndIteF(c, t.c, 0), t.ids, t.es}
	}
	return r
}

// subst replaces the variables keys[k] by vals[k], all at once; the keys are
// different and the exponents of p are concrete numbers. No branching: each
// factor is the sum of the possible replacements, guarded by which key it is.
func (p RP) subst(keys []uint64, vals []RP) RP {
	var r RP
	for _, t := range p {
		q := rpK(t.c)
		for k, id := range t.ids {
			none := true
			var f RP
			for j := range keys {
				is := id == keys[j]
				none = ndAnd(none, ndNot(is))
				f = f.add(vals[j].pow(t.es[k]).ifRP(is))
			}
			f = f.add(RP{{1, []uint64{id}, []int{t.es[k]}}}.ifRP(none))
			q = q.mul(f)
		}
		r = r.add(q)
	}
	return r
}

// substX is subst for variables with concrete identifiers
func (p RP) substX(keys []uint64, vals []RP) RP {
	var r RP
	for _, t := range p {
		q := rpK(t.c)
		for k, id := range t.ids {
			f := RP{{1, []uint64{id}, []int{t.es[k]}}}
			for j := range keys {
				if id == keys[j] {
					f = vals[j].pow(t.es[k])
				}
			}
			q = q.mul(f)
		}
		r = r.add(q)
	}
	return r
}

// gMonoC: exponents are numbers 1..hi, one path each
func gMonoC(name string, n, hi int) symbolic.Monomial {
	m := symbolic.Monomial{Coefficient: ndFloat(name + ".c")}
	for k := 0; k < n; k++ {
		v := gVar(name + ".x" + dig(k))
		for _, o := range m.VariableFactors {
			ndAssume(o.ID != v.ID)
		}
		m.VariableFactors = append(m.VariableFactors, v)
		m.Exponents = append(m.Exponents, 1+ndChoose(name+".e"+dig(k), hi))
	}
	return m
}
func gPolyC(name string, hi int, ns ...int) symbolic.Polynomial {
	var p symbolic.Polynomial
	for k, n := range ns {
		p.Monomials = append(p.Monomials, gMonoC(name+dig(k), n, hi))
	}
	return p
}

// gRepl: the expressions substituted for variables
func gRepl(name string, k int) symbolic.ScalarExpression {
	switch k {
	case 0:
		return gK(name)
	case 1:
		return gVar(name)
	case 2:
		return gMonoC(name, 1, 1)
	case 3:
		return gPolyC(name, 1, 1, 0)
	case 4:
		return gMonoC(name, 2, 1)
	case 5:
		return gMonoC(name, 0, 1)
	case 6:
		return gMonoC(name, 1, 2)
	}
	return gPolyC(name, 1, 1, 1)
}

const nRepl = 8

func c08mono(name string, idx int) symbolic.Monomial {
	if gRich >= 0 && gRich != idx {
		return gMonoAt(name, 0, idx)
	}
	return gMonoC(name, 1, 1)
}
func c08poly(name string, idx int) symbolic.Polynomial {
	if gRich >= 0 && gRich != idx {
		return gPolyAt(name, 0, idx)
	}
	return gPolyC(name, 1, 1, 0)
}
func c08any(k, r, c int) symbolic.Expression {
	// small entries: a variable times a coefficient plus a constant; in the
	// quick tier only one of several is arbitrary
	chooseRich(r * c)
	switch k {
	case kMVec:
		var x symbolic.MonomialVector
		for i := 0; i < r; i++ {
			x = append(x, c08mono("a"+dig(i), i))
		}
		return x
	case kPVec:
		var x symbolic.PolynomialVector
		for i := 0; i < r; i++ {
			x = append(x, c08poly("a"+dig(i), i))
		}
		return x
	case kMMat:
		var x symbolic.MonomialMatrix
		for i := 0; i < r; i++ {
			var y []symbolic.Monomial
			for j := 0; j < c; j++ {
				y = append(y, c08mono("a"+dig(i)+dig(j), i*c+j))
			}
			x = append(x, y)
		}
		return x
	case kPMat:
		var x symbolic.PolynomialMatrix
		for i := 0; i < r; i++ {
			var y []symbolic.Polynomial
			for j := 0; j < c; j++ {
				y = append(y, c08poly("a"+dig(i)+dig(j), i*c+j))
			}
			x = append(x, y)
		}
		return x
	}
	return gAny(k, "a", r, c, 0).(symbolic.Expression)
}
