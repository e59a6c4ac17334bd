package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a Go value in the interpreted program: native Go scalars when
// concrete, *Term when symbolic, *Rope for strings with symbolic parts.
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value
type Iface struct {
	t types.Type // nil for the nil interface
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type mapEntry struct {
	k, v Value
	dead bool
}
type Map struct {
	kt      types.Type
	entries []*mapEntry
	n       int
	last    []*mapEntry // the order of the last iteration
}
type bad struct{}

// Rope: string with symbolic parts.
type seg struct {
	s    string // literal when t == nil
	t    *Term
	verb string
	neg  bool
}
type Rope struct{ segs []seg }

func ropeOf(v Value) *Rope {
	switch x := v.(type) {
	case string:
		if x == "" {
			return &Rope{}
		}
		return &Rope{segs: []seg{{s: x}}}
	case *Rope:
		return x
	}
	panic(pathAbort{fmt.Sprintf("string value of type %T", v)})
}

func ropeCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	r := &Rope{}
	add := func(s seg) {
		if s.t == nil && s.s == "" {
			return
		}
		if n := len(r.segs); n > 0 && s.t == nil && r.segs[n-1].t == nil {
			r.segs[n-1].s += s.s
			return
		}
		r.segs = append(r.segs, s)
	}
	for _, s := range ropeOf(a).segs {
		add(s)
	}
	for _, s := range ropeOf(b).segs {
		add(s)
	}
	return ropeNorm(r)
}

func ropeNorm(r *Rope) Value {
	if len(r.segs) == 0 {
		return ""
	}
	if len(r.segs) == 1 && r.segs[0].t == nil {
		return r.segs[0].s
	}
	return r
}

func (r *Rope) String() string {
	var sb strings.Builder
	for _, s := range r.segs {
		if s.t == nil {
			sb.WriteString(s.s)
		} else {
			sb.WriteString("<sym>")
		}
	}
	return sb.String()
}

type iter interface{ next(i *Interp) Tuple }

type stringIter struct {
	s   string
	pos int
}

func (it *stringIter) next(i *Interp) Tuple {
	if it.pos >= len(it.s) {
		return Tuple{false, 0, rune(0)}
	}
	for k, r := range it.s[it.pos:] {
		_ = k
		p := it.pos
		n := 1
		for j := range it.s[it.pos:] {
			if j > 0 {
				n = j
				break
			}
			n = len(it.s) - it.pos
		}
		it.pos += n
		return Tuple{true, p, r}
	}
	panic("unreachable")
}

type mapIter struct {
	m    *Map
	hint []*mapEntry // iterate in this order first
	rest []*mapEntry
	n0   int
	step int
	rev  bool
}

func (it *mapIter) next(i *Interp) Tuple {
	for {
		// drop deleted
		live := it.rest[:0:0]
		for _, e := range it.rest {
			if !e.dead {
				live = append(live, e)
			}
		}
		it.rest = live
		if len(it.rest) == 0 {
			return Tuple{false, nil, nil}
		}
		k, hinted := 0, false
		for len(it.hint) > 0 && !hinted {
			for j, e := range it.rest {
				if e == it.hint[0] {
					k, hinted = j, true
				}
			}
			it.hint = it.hint[1:]
		}
		if len(it.rest) > 1 && !hinted {
			switch {
			case it.n0 <= 3:
				k = i.p.chooseOrder(len(it.rest))
			case it.step == 0:
				k = i.p.chooseOrder(len(it.rest))
			case it.step == 1:
				if i.p.chooseOrder(2) == 1 {
					it.rev = true
				}
			}
			if it.step > 0 && it.n0 > 3 && it.rev {
				k = len(it.rest) - 1
			}
		}
		it.step++
		e := it.rest[k]
		it.m.last = append(it.m.last, e)
		nr := append([]*mapEntry(nil), it.rest[:k]...)
		it.rest = append(nr, it.rest[k+1:]...)
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
}

// startRange prepares an iteration over m. The first iteration may have any
// order; later ones repeat the order of the one before, but the order changes
// up to maxOrderSwitches times on a path, at any of them. (Exploring a free
// order in every iteration would double the paths each time a map is merely
// checked.)
func (m *Map) startRange(i *Interp) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	for _, e := range m.entries {
		if !e.dead {
			it.rest = append(it.rest, e)
		}
	}
	it.n0 = len(it.rest)
	if it.n0 > 1 && i.p != nil {
		if len(m.last) > 0 {
			if i.p.orderSwitches < maxOrderSwitches && i.p.chooseOrder(2) == 1 {
				i.p.orderSwitches++
			} else {
				it.hint = append([]*mapEntry(nil), m.last...)
			}
		}
		m.last = nil
	}
	return it
}

const maxOrderSwitches = 1

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		y := make(Struct, len(x))
		for i, e := range x {
			y[i] = copyVal(e)
		}
		return y
	case Array:
		y := make(Array, len(x))
		for i, e := range x {
			y[i] = copyVal(e)
		}
		return y
	}
	return v
}

// storeInto copies v into *addr, preserving the identity of sub-cells of
// aggregates (pointers to fields stay valid).
func storeInto(addr *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*addr).(Struct); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
	case Array:
		if d, ok := (*addr).(Array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
	default:
		*addr = v
	}
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return false
		case types.Int, types.UntypedInt:
			return int(0)
		case types.Int8:
			return int8(0)
		case types.Int16:
			return int16(0)
		case types.Int32, types.UntypedRune:
			return int32(0)
		case types.Int64:
			return int64(0)
		case types.Uint:
			return uint(0)
		case types.Uint8:
			return uint8(0)
		case types.Uint16:
			return uint16(0)
		case types.Uint32:
			return uint32(0)
		case types.Uint64:
			return uint64(0)
		case types.Uintptr:
			return uintptr(0)
		case types.Float32:
			return float32(0)
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64:
			return complex64(0)
		case types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.String, types.UntypedString:
			return ""
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*chanVal)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(pathAbort{"type parameter"})
	}
	panic(pathAbort{fmt.Sprintf("zero of %v", t)})
}

type chanVal struct{}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(pathAbort{fmt.Sprintf("const of type %v", t)})
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return constant.BoolVal(c.Value)
	case types.String, types.UntypedString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case types.Float64, types.UntypedFloat:
		return c.Float64()
	case types.Float32:
		return float32(c.Float64())
	case types.Complex128, types.UntypedComplex:
		return c.Complex128()
	case types.Complex64:
		return complex64(c.Complex128())
	}
	if b.Info()&types.IsUnsigned != 0 {
		return mkInt(b.Kind(), new(big.Int).SetUint64(c.Uint64()))
	}
	return mkInt(b.Kind(), big.NewInt(c.Int64()))
}

func mkInt(k types.BasicKind, v *big.Int) Value {
	switch k {
	case types.Int, types.UntypedInt:
		return int(v.Int64())
	case types.Int8:
		return int8(v.Int64())
	case types.Int16:
		return int16(v.Int64())
	case types.Int32, types.UntypedRune:
		return int32(v.Int64())
	case types.Int64:
		return int64(v.Int64())
	case types.Uint:
		return uint(v.Uint64())
	case types.Uint8:
		return uint8(v.Uint64())
	case types.Uint16:
		return uint16(v.Uint64())
	case types.Uint32:
		return uint32(v.Uint64())
	case types.Uint64:
		return v.Uint64()
	case types.Uintptr:
		return uintptr(v.Uint64())
	}
	panic(pathAbort{"mkInt"})
}

func intInfo(b *types.Basic) (width int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func asInt64(v Value) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case uint:
		return int64(x), true
	case uint8:
		return int64(x), true
	case uint16:
		return int64(x), true
	case uint32:
		return int64(x), true
	case uint64:
		return int64(x), true
	case uintptr:
		return int64(x), true
	}
	return 0, false
}

func isUnsignedVal(v Value) bool {
	switch v.(type) {
	case uint, uint8, uint16, uint32, uint64, uintptr:
		return true
	}
	return false
}

func bigOf(v Value) *big.Int {
	i, _ := asInt64(v)
	if isUnsignedVal(v) {
		return new(big.Int).SetUint64(uint64(i))
	}
	return big.NewInt(i)
}

// toTerm lifts a concrete scalar to a term.
func (i *Interp) toTerm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return i.tc.Bool(x)
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			panic(pathAbort{"special float in term"})
		}
		return i.tc.Const(SReal, new(big.Rat).SetFloat64(x))
	case float32:
		return i.toTerm(float64(x))
	}
	if _, ok := asInt64(v); ok {
		return i.tc.Const(SInt, new(big.Rat).SetInt(bigOf(v)))
	}
	panic(pathAbort{fmt.Sprintf("toTerm %T", v)})
}

// lower turns a constant term back into a concrete value of the basic type.
func lower(t *Term, typ types.Type) Value {
	switch t.kind {
	case KTrue:
		return true
	case KFalse:
		return false
	case KConst:
		b, ok := typ.Underlying().(*types.Basic)
		if !ok {
			return t
		}
		if t.sort == SInt {
			return mkInt(b.Kind(), t.c.Num())
		}
		f, exact := t.c.Float64()
		if !exact {
			return t
		}
		if b.Kind() == types.Float32 {
			return float32(f)
		}
		if f == 0 {
			f = 0
		}
		return f
	}
	return t
}
