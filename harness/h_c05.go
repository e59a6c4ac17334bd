package main

import (
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

var c05shapes = [][2]int{{1, 2}, {2, 1}, {2, 3}, {3, 2}, {1, 1}, {2, 2}, {1, 3}, {3, 1}}

// Transpose

func H_C05_transpose_vector() {
	k := vectors[ndChoose("kind", len(vectors))]
	n := 1 + ndChoose("n", 3)
	v := gVariant(k, "a")
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", n, 1, v)
	want := refM(a).transpose()
	t := a.(symbolic.Expression).Transpose()
	same(t, want, "transpose of a vector")
	same(t.Transpose(), want.transpose(), "double transpose of a vector")
	ndReach("end")
}
func H_C05_transpose_matrix() {
	k := matrices[ndChoose("kind", len(matrices))]
	sh := c05shapes[ndChoose("shape", len(c05shapes))]
	v := gVariantN(k, "a", 1+2*ndTier())
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", sh[0], sh[1], v)
	want := refM(a).transpose()
	t := a.(symbolic.Expression).Transpose()
	same(t, want, "transpose of a matrix")
	same(t.Transpose(), want.transpose(), "double transpose of a matrix")
	ndReach("end")
}
func H_C05_transpose_scalar() {
	a := gScalar("a", ndChoose("sa", scalarShapes))
	want := refM(a)
	same(a.Transpose(), want, "transpose of a scalar")
	ndAssert(ref(a.At(0, 0)).eq(want.e[0][0]), "At(0,0) of a scalar")
	ndReach("end")
}

// Reported dimensions, lengths and indexed entries

func H_C05_index_vector() {
	k := vectors[ndChoose("kind", len(vectors))]
	n := 1 + ndChoose("n", 4)
	v := gVariant(k, "a")
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", n, 1, v)
	want := refM(a)
	x := a.(symbolic.VectorExpression)
	ndAssert(x.Len() == n, "Len of a vector")
	d := x.Dims()
	ndAssert(len(d) == 2 && d[0] == n && d[1] == 1, "Dims of a vector")
	s := x.ToScalarExpressions()
	ndAssert(len(s) == n, "ToScalarExpressions has another length")
	for i := 0; i < n; i++ {
		sameS(x.AtVec(i), want.e[i][0], "AtVec")
		sameS(x.At(i, 0), want.e[i][0], "At of a vector")
		sameS(s[i], want.e[i][0], "ToScalarExpressions")
	}
	ndReach("end")
}
func H_C05_index_matrix() {
	k := matrices[ndChoose("kind", len(matrices))]
	sh := c05shapes[ndChoose("shape", len(c05shapes))]
	v := gVariantN(k, "a", 1+2*ndTier())
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", sh[0], sh[1], v)
	want := refM(a)
	x := a.(symbolic.MatrixExpression)
	d := x.Dims()
	ndAssert(len(d) == 2 && d[0] == sh[0] && d[1] == sh[1], "Dims of a matrix")
	for i := 0; i < sh[0]; i++ {
		for j := 0; j < sh[1]; j++ {
			sameS(x.At(i, j), want.e[i][j], "At of a matrix")
		}
	}
	ndReach("end")
}

// Stacking

// rstack puts blocks below one another (or side by side).
func rstack(vertical bool, bs ...RM) RM {
	if !vertical {
		t := make([]RM, len(bs))
		for i := range bs {
			t[i] = bs[i].transpose()
		}
		return rstack(true, t...).transpose()
	}
	m := RM{c: bs[0].c}
	for _, b := range bs {
		m.r += b.r
		m.e = append(m.e, b.e...)
	}
	return m
}

var c05kinds = []int{kK, kVar, kMono, kPoly, kKVec, kVVec, kMVec, kPVec, kKMat, kVMat, kMMat, kPMat}

// c05block: a block of the kind with the given number of lines (rows when side
// by side, columns when on top of one another); ok is false when the kind
// cannot have it.
func c05block(k int, name string, vertical bool, common, other int) (any, bool) {
	r, c := other, common
	if !vertical {
		r, c = common, other
	}
	switch {
	case k < kKVec:
		if r != 1 || c != 1 {
			return nil, false
		}
	case isVecKind(k):
		if c != 1 {
			return nil, false
		}
	}
	v := gVariantN(k, name, 2+2*ndTier())
	return gAny(k, name, r, c, v), true
}

func c05stack(vertical bool, ka, kb int, common, oa, ob int) {
	gRich, gCoeff = 0, 1
	if ndTier() > 0 {
		gRich = -1
	}
	a, ok := c05block(ka, "a", vertical, common, oa)
	if !ok {
		return
	}
	b, ok := c05block(kb, "b", vertical, common, ob)
	if !ok {
		return
	}
	want := rstack(vertical, refM(a), refM(b))
	ea, eb := a.(symbolic.Expression), b.(symbolic.Expression)
	if vertical {
		same(symbolic.VStack(ea, eb), want, "VStack")
	} else {
		same(symbolic.HStack(ea, eb), want, "HStack")
	}
	ndReach("end")
}
func c05pair(vertical bool, ka int) {
	kb := c05kinds[ndChoose("kb", len(c05kinds))]
	common := 1 + ndChoose("common", 2)
	o := [][2]int{{1, 1}, {1, 2}, {2, 1}}[ndChoose("other", 3)]
	c05stack(vertical, ka, kb, common, o[0], o[1])
}
func H_C05_vstack_scalar() { c05pair(true, c05kinds[ndChoose("ka", 4)]) }
func H_C05_vstack_vector() { c05pair(true, c05kinds[4+ndChoose("ka", 4)]) }
func H_C05_vstack_matrix() { c05pair(true, c05kinds[8+ndChoose("ka", 4)]) }
func H_C05_hstack_scalar() { c05pair(false, c05kinds[ndChoose("ka", 4)]) }
func H_C05_hstack_vector() { c05pair(false, c05kinds[4+ndChoose("ka", 4)]) }
func H_C05_hstack_matrix() { c05pair(false, c05kinds[8+ndChoose("ka", 4)]) }

// one, three and four blocks of different widths
func H_C05_stack_many() {
	vertical := ndChoose("vertical", 2) == 0
	gRich, gCoeff = -1, 1
	n := []int{1, 3, 4}[ndChoose("n", 3)]
	k0 := ndChoose("k0", 4)
	kinds := []int{kVMat, kKMat, kMMat, kVMat, kKMat, kMMat, kVMat}
	if k0 == 3 {
		kinds = []int{kVar, kKMat, kVVec, kMono}
		k0 = 0
	}
	common := 1 + ndChoose("common", 2)
	var es []symbolic.Expression
	var rs []RM
	for i := 0; i < n; i++ {
		b, ok := c05block(kinds[k0+i], "b"+dig(i), vertical, common, 1+(i+k0)%2)
		if !ok {
			return
		}
		es = append(es, b.(symbolic.Expression))
		rs = append(rs, refM(b))
	}
	want := rstack(vertical, rs...)
	var ss []symbolic.Expression
	var qs []RM
	for _, e := range es {
		s := sibling(e).(symbolic.Expression)
		ss, qs = append(ss, s), append(qs, refM(s))
	}
	x, y := symbolic.Expression(nil), rstack(vertical, qs...)
	if vertical {
		x = symbolic.VStack(ss...)
	} else {
		x = symbolic.HStack(ss...)
	}
	defer func() { same(x, y, "stack, before another one") }()
	if vertical {
		same(symbolic.VStack(es...), want, "VStack of several blocks")
	} else {
		same(symbolic.HStack(es...), want, "HStack of several blocks")
	}
	ndReach("end")
}

// transposing turns vertical stacking into horizontal stacking
func H_C05_stack_transpose() {
	k := []int{kKVec, kVVec, kMVec}[ndChoose("k", 3)]
	n := 1 + ndChoose("n", 2)
	gRich, gCoeff = -1, 1
	a := gAny(k, "a", n, 1, 0)
	b := gAny(kVVec, "b", n, 1, 0)
	want := rstack(false, refM(a), refM(b))
	h := symbolic.HStack(a.(symbolic.Expression), b.(symbolic.Expression))
	same(h, want, "HStack of vectors")
	same(h.Transpose(), want.transpose(), "transpose of a stack")
	same(symbolic.VStack(a.(symbolic.Expression).Transpose(), b.(symbolic.Expression).Transpose()), want.transpose(), "stack of transposes")
	ndReach("end")
}

// large shapes: different entries at every place
func H_C05_big_transpose() {
	k := append(append([]int{}, vectors...), matrices...)[ndChoose("kind", 8)]
	sh := [][2]int{{4, 5}, {5, 4}, {1, 6}, {6, 1}, {4, 4}, {7, 2}}[ndChoose("shape", 6)]
	if isVecKind(k) {
		sh[1] = 1
	}
	a := bigAny(k, "a", sh[0], sh[1], sh[0]*sh[1]-2)
	want := refM(a).transpose()
	s := sibling(a).(symbolic.Expression)
	u := s.Transpose()
	t := a.Transpose()
	same(u, refM(s).transpose(), "transpose, before another one")
	same(t, want, "transpose")
	same(t.Transpose(), want.transpose(), "double transpose")
	for i := 0; i < sh[0]; i++ {
		for j := 0; j < sh[1]; j++ {
			sameS(a.At(i, j), want.e[j][i], "At")
			sameS(t.At(j, i), want.e[j][i], "At of the transpose")
		}
	}
	ndReach("end")
}
func H_C05_big_stack() {
	vertical := ndChoose("vertical", 2) == 0
	var es []symbolic.Expression
	var rs []RM
	common := 1 + ndChoose("common", 4)
	k0, step := ndChoose("k0", 4), 1+ndChoose("step", 3)
	for i := 0; i < 5; i++ {
		k := matrices[(k0+step*i)%4]
		o := []int{1, 2, 1, 3, 1}[i]
		if o == 1 && i > 0 {
			k = vectors[(k0+step*i)%4]
			if common == 1 && i == 2 {
				k = scalars[(k0+step*i)%4]
			}
		}
		var b symbolic.Expression
		switch {
		case vertical && isMatKind(k):
			b = bigAny(k, "b"+dig(i), o, common, 0)
		case vertical:
			b = bigAny(k, "b"+dig(i), common, 1, 0).Transpose()
		case isMatKind(k):
			b = bigAny(k, "b"+dig(i), common, o, 0)
		default:
			b = bigAny(k, "b"+dig(i), common, 1, 0)
		}
		es, rs = append(es, b), append(rs, refM(b))
	}
	want := rstack(vertical, rs...)
	if vertical {
		same(symbolic.VStack(es...), want, "VStack of five blocks")
	} else {
		same(symbolic.HStack(es...), want, "HStack of five blocks")
	}
	ndReach("end")
}

// many entries and many blocks
func H_C05_tall() {
	a := bigTall("a", chooseShaped("kind"))
	want := refM(a).transpose()
	t := a.Transpose()
	same(t, want, "transpose of many entries")
	same(t.Transpose(), want.transpose(), "double transpose of many entries")
	ndReach("end")
}
func H_C05_tall_stack() {
	vertical := ndChoose("vertical", 2) == 0
	n, step, k0 := []int{2, 3, 7, 11}[ndChoose("n", 4)], 1+2*ndChoose("step", 2), ndChoose("k0", 4)
	common := []int{1, 3, 5}[ndChoose("common", 3)]
	var es []symbolic.Expression
	var rs []RM
	for i := 0; i < n; i++ {
		k, o := matrices[(k0+step*i)%4], []int{1, 4, 2, 1, 5, 2, 1}[(i+k0)%7]
		if o == 1 {
			k = vectors[(k0+step*i)%4]
		}
		arb := -2
		if i == n-1 || i == 2 {
			arb = 0
		}
		var b symbolic.Expression
		switch {
		case !isMatKind(k):
			b = bigAny(k, "b"+dig(i), common, 1, arb)
			if vertical {
				b = b.Transpose()
			}
		case vertical:
			b = bigAny(k, "b"+dig(i), o, common, arb)
		default:
			b = bigAny(k, "b"+dig(i), common, o, arb)
		}
		es, rs = append(es, b), append(rs, refM(b))
	}
	if vertical {
		same(symbolic.VStack(es...), rstack(true, rs...), "VStack of many blocks")
	} else {
		same(symbolic.HStack(es...), rstack(false, rs...), "HStack of many blocks")
	}
	ndReach("end")
}
