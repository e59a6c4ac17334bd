package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type icept = func(i *Interp, fr *frame, fn *ssa.Function, args []Value) Value

var intercepts map[string]icept

func str(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(pathAbort{"symbolic string in library call"})
	}
	return s
}

func strs(v Value) []string {
	var out []string
	for _, e := range v.([]Value) {
		out = append(out, str(e))
	}
	return out
}
func fromStrs(ss []string) Value {
	if ss == nil {
		return []Value(nil)
	}
	out := make([]Value, len(ss))
	for k, s := range ss {
		out[k] = s
	}
	return out
}

func (i *Interp) mkErr(msg Value) Iface {
	cell := new(Value)
	*cell = Struct{msg}
	return Iface{i.P.errStr, cell}
}

func init() {
	intercepts = map[string]icept{
		"fmt.Sprintf": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.sprintf(fr, a[0], a[1].([]Value))
		},
		"fmt.Sprint": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.sprint(fr, a[0].([]Value), false)
		},
		"fmt.Sprintln": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.sprint(fr, a[0].([]Value), true)
		},
		"fmt.Errorf": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			f := a[0]
			args := a[1].([]Value)
			if s, ok := f.(string); ok && strings.Contains(s, "%w") {
				for _, x := range args {
					if itf, ok := x.(Iface); ok && itf.t != nil && i.P.wrapErr != nil && types.Implements(itf.t, i.errIface()) {
						cell := new(Value)
						*cell = Struct{i.sprintf(fr, strings.ReplaceAll(s, "%w", "%v"), args), itf}
						return Iface{i.P.wrapErr, cell}
					}
				}
				f = strings.ReplaceAll(s, "%w", "%v")
			}
			return i.mkErr(i.sprintf(fr, f, args))
		},
		"fmt.Println": retPrint, "fmt.Printf": retPrint, "fmt.Print": retPrint,
		"fmt.Fprintf": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.fwrite(fr, a[0], i.sprintf(fr, a[1], a[2].([]Value)))
		},
		"fmt.Fprint": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.fwrite(fr, a[0], i.sprint(fr, a[1].([]Value), false))
		},
		"fmt.Fprintln": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.fwrite(fr, a[0], i.sprint(fr, a[1].([]Value), true))
		},
		"(*strings.Builder).WriteString": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			i.sbAppend(a[0], a[1])
			return Tuple{strLenOrZero(a[1]), Iface{}}
		},
		"(*strings.Builder).WriteByte": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			i.sbAppend(a[0], string([]byte{a[1].(uint8)}))
			return Iface{}
		},
		"(*strings.Builder).WriteRune": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			i.sbAppend(a[0], string(a[1].(int32)))
			return Tuple{utf8.RuneLen(a[1].(int32)), Iface{}}
		},
		"(*strings.Builder).Write": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			bs := a[1].([]Value)
			b := make([]byte, len(bs))
			for k := range bs {
				b[k] = bs[k].(uint8)
			}
			i.sbAppend(a[0], string(b))
			return Tuple{len(b), Iface{}}
		},
		"(*strings.Builder).String": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return sbGet(a[0]) },
		"(*strings.Builder).Len": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return len(str(sbGet(a[0])))
		},
		"(*strings.Builder).Grow": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*strings.Builder).Cap":  func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return 0 },
		"(*strings.Builder).Reset": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(*Value)
			(*p).(Struct)[1] = ""
			return nil
		},
		"strings.Join": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			var r Value = ""
			for k, e := range a[0].([]Value) {
				if k > 0 {
					r = ropeCat(r, a[1])
				}
				r = ropeCat(r, e)
			}
			return r
		},
		"strings.Repeat": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.Repeat(str(a[0]), i.index(a[1]))
		},
		"strings.Contains":   s2b(strings.Contains),
		"strings.HasPrefix":  s2b(strings.HasPrefix),
		"strings.HasSuffix":  s2b(strings.HasSuffix),
		"strings.EqualFold":  s2b(strings.EqualFold),
		"strings.TrimSuffix": s2s(strings.TrimSuffix),
		"strings.TrimPrefix": s2s(strings.TrimPrefix),
		"strings.Trim":       s2s(strings.Trim),
		"strings.TrimRight":  s2s(strings.TrimRight),
		"strings.TrimLeft":   s2s(strings.TrimLeft),
		"strings.TrimSpace": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.TrimSpace(str(a[0]))
		},
		"strings.ToLower": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return strings.ToLower(str(a[0])) },
		"strings.ToUpper": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return strings.ToUpper(str(a[0])) },
		"strings.Index": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.Index(str(a[0]), str(a[1]))
		},
		"strings.Count": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.Count(str(a[0]), str(a[1]))
		},
		"strings.LastIndex": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.LastIndex(str(a[0]), str(a[1]))
		},
		"strings.Split": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return fromStrs(strings.Split(str(a[0]), str(a[1])))
		},
		"strings.Fields": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return fromStrs(strings.Fields(str(a[0])))
		},
		"strings.Compare": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.Compare(str(a[0]), str(a[1]))
		},
		"strings.ReplaceAll": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.ReplaceAll(str(a[0]), str(a[1]), str(a[2]))
		},
		"strings.Replace": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strings.Replace(str(a[0]), str(a[1]), str(a[2]), i.index(a[3]))
		},
		"strconv.Itoa": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return i.symText(t, "%d")
			}
			return strconv.Itoa(a[0].(int))
		},
		"strconv.FormatInt": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok && a[1] == Value(10) {
				return i.symText(t, "%d")
			}
			return strconv.FormatInt(a[0].(int64), a[1].(int))
		},
		"strconv.FormatUint": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok && a[1] == Value(10) {
				return i.symText(t, "%d")
			}
			return strconv.FormatUint(a[0].(uint64), a[1].(int))
		},
		"strconv.FormatFloat": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				v, ok1 := a[1].(uint8)
				prec, ok2 := a[2].(int)
				switch {
				case !ok1 || !ok2:
					panic(pathAbort{"FormatFloat"})
				case prec == -1 && strings.IndexByte("eEfgG", v) >= 0:
					return i.symText(t, "%g")
				case prec == -1:
					panic(pathAbort{"FormatFloat"})
				}
				return i.symText(t, "%."+strconv.Itoa(prec)+string(rune(v)))
			}
			return strconv.FormatFloat(a[0].(float64), a[1].(uint8), a[2].(int), a[3].(int))
		},
		"strconv.Quote": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return strconv.Quote(str(a[0])) },
		"strconv.FormatBool": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return strconv.FormatBool(i.truth(a[0]))
		},

		"math.Abs": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				z := i.tc.Num(SReal, 0)
				return lower(i.tc.Ite(i.p.simp(i.tc.Lt(t, z)), i.tc.Neg(t), t), types.Typ[types.Float64])
			}
			return math.Abs(a[0].(float64))
		},
		"math.IsNaN": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if _, ok := a[0].(*Term); ok {
				return false
			}
			return math.IsNaN(a[0].(float64))
		},
		"math.IsInf": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if _, ok := a[0].(*Term); ok {
				return false
			}
			return math.IsInf(a[0].(float64), a[1].(int))
		},
		"math.Signbit": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return lower(i.tc.Lt(t, i.tc.Num(SReal, 0)), types.Typ[types.Bool])
			}
			return math.Signbit(a[0].(float64))
		},
		"math.Pow": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			t, ok := a[0].(*Term)
			e, ok2 := a[1].(float64)
			if et, is := a[1].(*Term); is {
				r := i.p.concretize(et)
				e, _ = r.Float64()
				ok2 = true
				a[1] = e
			}
			if ok && ok2 && e == math.Trunc(e) && e >= 0 && e <= 8 {
				r := i.tc.Num(SReal, 1)
				for k := 0; k < int(e); k++ {
					r = i.tc.Mul(r, t)
				}
				return lower(r, types.Typ[types.Float64])
			}
			if ok || !ok2 {
				panic(pathAbort{"math.Pow"})
			}
			return math.Pow(a[0].(float64), e)
		},
		"math.Max": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.minmax(false, types.Typ[types.Float64], a[0], a[1])
		},
		"math.Min": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.minmax(true, types.Typ[types.Float64], a[0], a[1])
		},
		"math.Trunc": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				return lower(i.tc.ToReal(i.tc.Trunc(t)), types.Typ[types.Float64])
			}
			return math.Trunc(a[0].(float64))
		},
		"math.Float64bits": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			f, ok := a[0].(float64)
			if !ok {
				panic(pathAbort{"Float64bits"})
			}
			return math.Float64bits(f)
		},
		"math.Float64frombits": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return math.Float64frombits(a[0].(uint64))
		},
		"math.Float32bits": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return math.Float32bits(a[0].(float32))
		},
		"math.Float32frombits": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return math.Float32frombits(a[0].(uint32))
		},
		"math.Sqrt": f1(math.Sqrt), "math.Floor": f1(math.Floor), "math.Ceil": f1(math.Ceil), "math.Round": f1(math.Round),
		"math.Exp": f1(math.Exp), "math.Log": f1(math.Log), "math.sqrt": f1(math.Sqrt),

		"gonum.org/v1/gonum/mat.offset":        sliceOffset,
		"gonum.org/v1/gonum/mat.offsetComplex": sliceOffset,
		"slices.overlaps": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].([]Value), a[1].([]Value)
			if len(x) == 0 || len(y) == 0 {
				return false
			}
			x0, x1 := uintptr(unsafe.Pointer(&x[0])), uintptr(unsafe.Pointer(&x[len(x)-1]))
			y0, y1 := uintptr(unsafe.Pointer(&y[0])), uintptr(unsafe.Pointer(&y[len(y)-1]))
			return x0 <= y1 && y0 <= x1
		},
		"slices.startIdx": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			h, n := a[0].([]Value), a[1].([]Value)
			for k := range h {
				if len(n) > 0 && &h[k] == &n[0] {
					return k
				}
			}
			panic(pathAbort{"slices.startIdx"})
		},
		"maps.Clone": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			m := a[0].(*Map)
			if m == nil {
				return m
			}
			c := &Map{kt: m.kt, n: m.n}
			for _, e := range m.entries {
				if !e.dead {
					c.entries = append(c.entries, &mapEntry{k: copyVal(e.k), v: copyVal(e.v)})
				}
			}
			return c
		},
		"encoding/binary.Size": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			// gonum/mat computes the size of its serialisation header in
			// its initialiser; nothing modelled depends on it
			if fr != nil && fr.fi.fn.Synthetic == "package initializer" {
				return -1
			}
			panic(pathAbort{"encoding/binary.Size"})
		},
		"(*sync.Pool).Get": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(*Value)
			s := (*p).(Struct)
			nw := s[len(s)-1]
			if isNilFunc(nw) {
				return Iface{}
			}
			return i.call(fr, nw, nil)
		},
		"(*sync.Pool).Put":        func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.Mutex).Lock":      func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.Mutex).Unlock":    func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.RWMutex).Lock":    func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.RWMutex).Unlock":  func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.RWMutex).RLock":   func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.RWMutex).RUnlock": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"(*sync.Once).Do": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(*Value)
			if i.onceDone(p) {
				return nil
			}
			i.call(fr, a[1], nil)
			return nil
		},
		"sort.Slice": sortSlice, "sort.SliceStable": sortSlice,
		"sort.SliceIsSorted": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Iface).v.([]Value)
			for k := 1; k < len(s); k++ {
				if i.truth(i.call(fr, a[1], []Value{k, k - 1})) {
					return false
				}
			}
			return true
		},
		"errors.Is": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return i.errorsIs(fr, a[0].(Iface), a[1].(Iface))
		},
		"errors.As": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			e := a[0].(Iface)
			tgt := a[1].(Iface)
			pt, ok := tgt.t.Underlying().(*types.Pointer)
			if !ok {
				panic(pathAbort{"errors.As target"})
			}
			for e.t != nil {
				if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
					if i.implements(e.t, it) {
						storeInto(tgt.v.(*Value), e)
						return true
					}
				} else if i.canon(pt.Elem()) == e.t {
					storeInto(tgt.v.(*Value), e.v)
					return true
				}
				e = i.unwrapErr(fr, e)
			}
			return false
		},
		"errors.Unwrap": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return i.unwrapErr(fr, a[0].(Iface)) },
		"reflect.DeepEqual": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.t != y.t {
				return false
			}
			if x.t == nil {
				return true
			}
			return i.deepEq(x.t, x.v, y.v, 0)
		},
		"os.Exit": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { panic(pathAbort{"os.Exit"}) },
		"time.Now": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			panic(pathAbort{"time.Now"})
		},
		"runtime.Gosched":   func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
		"runtime.KeepAlive": func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil },
	}
	for k, v := range ndIntercepts() {
		intercepts[k] = v
	}
}

func retPrint(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	return Tuple{0, Iface{}}
}

func strLenOrZero(v Value) int {
	if s, ok := v.(string); ok {
		return len(s)
	}
	return 0
}

func s2b(f func(a, b string) bool) icept {
	return func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return f(str(a[0]), str(a[1])) }
}
func s2s(f func(a, b string) string) icept {
	return func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return f(str(a[0]), str(a[1])) }
}
func f1(f func(float64) float64) icept {
	return func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok := a[0].(float64)
		if !ok {
			panic(pathAbort{"math function of a symbolic value"})
		}
		return f(x)
	}
}

func sliceOffset(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	x, y := a[0].([]Value), a[1].([]Value)
	x, y = x[:1], y[:1]
	if &x[0] == &y[0] {
		return 0
	}
	d := int64(uintptr(unsafe.Pointer(&y[0]))) - int64(uintptr(unsafe.Pointer(&x[0])))
	n := int(d / int64(unsafe.Sizeof(x[0])))
	// different arrays: any fixed distance will do, as long as it does not
	// depend on where the executor's memory happens to lie
	if n >= 0 && n >= cap(x) || n < 0 && -n >= cap(y) {
		return 1 << 40
	}
	return n
}

func sortSlice(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(Iface).v.([]Value)
	for k := 1; k < len(s); k++ {
		for j := k; j > 0; j-- {
			if !i.truth(i.call(fr, a[1], []Value{j, j - 1})) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeInto(&s[j], y)
			storeInto(&s[j-1], x)
		}
	}
	return nil
}

func (i *Interp) onceDone(p *Value) bool {
	if i.p == nil {
		return false
	}
	if i.p.once == nil {
		i.p.once = map[*Value]bool{}
	}
	if i.p.once[p] {
		return true
	}
	i.p.once[p] = true
	return false
}

func (i *Interp) errIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func (i *Interp) lookupM(t types.Type, name string) *ssa.Function {
	ms := i.P.prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			return i.P.prog.MethodValue(ms.At(k))
		}
	}
	return nil
}

func (i *Interp) unwrapErr(fr *frame, e Iface) Iface {
	if e.t == nil {
		return Iface{}
	}
	f := i.lookupM(e.t, "Unwrap")
	if f == nil || f.Signature.Results().Len() != 1 {
		return Iface{}
	}
	r, ok := i.callSSA(fr, f, []Value{e.v}, nil).(Iface)
	if !ok {
		return Iface{}
	}
	return r
}

func (i *Interp) errorsIs(fr *frame, e, target Iface) Value {
	for e.t != nil {
		if types.Comparable(e.t) && e.t == target.t {
			if i.truth(i.eq(e.t, e.v, target.v)) {
				return true
			}
		}
		if f := i.lookupM(e.t, "Is"); f != nil {
			if i.truth(i.callSSA(fr, f, []Value{e.v, target}, nil)) {
				return true
			}
		}
		e = i.unwrapErr(fr, e)
	}
	return target.t == nil
}

func (i *Interp) deepEq(t types.Type, x, y Value, d int) Value {
	if d > 30 {
		panic(pathAbort{"DeepEqual depth"})
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r Value = true
		for k := range a {
			r = i.and(r, i.deepEq(u.Elem(), a[k], b[k], d+1))
		}
		return r
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		var r Value = true
		for k := range a {
			r = i.and(r, i.deepEq(u.Field(k).Type(), a[k], b[k], d+1))
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		var r Value = true
		for k := range a {
			r = i.and(r, i.deepEq(u.Elem(), a[k], b[k], d+1))
		}
		return r
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t != b.t {
			return false
		}
		if a.t == nil {
			return true
		}
		return i.deepEq(a.t, a.v, b.v, d+1)
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return i.deepEq(u.Elem(), *a, *b, d+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil {
			return true
		}
		if a.n != b.n {
			return false
		}
		var r Value = true
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			f := i.mapFind(b, e.k)
			if f == nil {
				return false
			}
			r = i.and(r, i.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	}
	return i.eq(t, x, y)
}

func sbGet(p Value) Value {
	c := p.(*Value)
	if c == nil {
		panic(pathAbort{"nil builder"})
	}
	v := (*c).(Struct)[1]
	switch v.(type) {
	case string, *Rope:
		return v
	}
	return ""
}
func (i *Interp) sbAppend(p, s Value) {
	c := p.(*Value)
	if c == nil {
		rtPanic(i, "invalid memory address or nil pointer dereference")
	}
	(*c).(Struct)[1] = ropeCat(sbGet(p), s)
}

func (i *Interp) fwrite(fr *frame, w Value, s Value) Value {
	itf := w.(Iface)
	if itf.t != nil && itf.t.String() == "*strings.Builder" {
		i.sbAppend(itf.v, s)
		return Tuple{strLenOrZero(s), Iface{}}
	}
	if itf.t != nil && itf.t.String() == "*os.File" {
		return Tuple{0, Iface{}}
	}
	panic(pathAbort{"fmt.Fprint target"})
}

// ---- formatting ----

func (i *Interp) sprint(fr *frame, args []Value, ln bool) Value {
	var r Value = ""
	for k, a := range args {
		if k > 0 && (ln || (!isStrArg(a) && !isStrArg(args[k-1]))) {
			r = ropeCat(r, " ")
		}
		r = ropeCat(r, i.fmtVerb(fr, "%v", 'v', a))
	}
	if ln {
		r = ropeCat(r, "\n")
	}
	return r
}

func isStrArg(a Value) bool {
	itf, ok := a.(Iface)
	return ok && itf.t != nil && isStr(itf.v)
}

func (i *Interp) sprintf(fr *frame, format Value, args []Value) Value {
	if rp, ok := format.(*Rope); ok {
		// only literal segments are interpreted as format
		_ = rp
		panic(pathAbort{"symbolic format string"})
	}
	f := format.(string)
	var r Value = ""
	ai := 0
	for k := 0; k < len(f); {
		j := strings.IndexByte(f[k:], '%')
		if j < 0 {
			r = ropeCat(r, f[k:])
			break
		}
		r = ropeCat(r, f[k:k+j])
		k += j
		e := k + 1
		for e < len(f) && strings.IndexByte("+-# 0123456789.", f[e]) >= 0 {
			e++
		}
		if e >= len(f) {
			r = ropeCat(r, "%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(f[e:])
		spec := f[k : e+sz]
		k = e + sz
		if verb == '%' {
			r = ropeCat(r, "%")
			continue
		}
		if verb == '*' || verb == '[' {
			panic(pathAbort{"format " + spec})
		}
		if ai >= len(args) {
			r = ropeCat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		r = ropeCat(r, i.fmtVerb(fr, spec, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		r = ropeCat(r, "%!(EXTRA)")
	}
	return r
}

func (i *Interp) fmtVerb(fr *frame, spec string, verb rune, arg Value) Value {
	itf, ok := arg.(Iface)
	if !ok {
		panic(pathAbort{fmt.Sprintf("format argument %T", arg)})
	}
	if verb == 'T' {
		if itf.t == nil {
			return "<nil>"
		}
		return types.TypeString(itf.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'w' {
		verb, spec = 'v', "%v"
	}
	if itf.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	return i.fmtVal(fr, spec, verb, itf.t, itf.v, 0)
}

func (i *Interp) fmtVal(fr *frame, spec string, verb rune, t types.Type, v Value, depth int) Value {
	if depth > 12 {
		return "..."
	}
	if (verb == 'v' || verb == 's' || verb == 'q') && !strings.Contains(spec, "#") {
		for _, m := range []string{"Error", "String"} {
			if m == "Error" && !types.Implements(t, i.errIface()) {
				continue
			}
			f := i.lookupM(t, m)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if p, ok := v.(*Value); ok && p == nil {
				return "<nil>"
			}
			s := i.callString(fr, f, v)
			if verb == 'q' {
				return strconv.Quote(str(s))
			}
			return i.padStr(spec, s)
		}
	}
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			if i.truth(x) {
				return "true"
			}
			return "false"
		}
		if c := i.p.simp(x); c.IsConst() {
			if lv := lower(c, t); lv != Value(c) {
				return i.fmtVal(fr, spec, verb, t, lv, depth)
			}
		}
		return i.symText(x, spec)
	case *Rope, string:
		if s, ok := x.(string); ok {
			return fmt.Sprintf(spec, s)
		}
		return i.padStr(spec, x)
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, float32, float64, complex128, complex64:
		return fmt.Sprintf(spec, x)
	}
	rec := func(tt types.Type, vv Value) Value { return i.fmtVal(fr, spec, verb, tt, vv, depth+1) }
	switch u := t.Underlying().(type) {
	case *types.Interface:
		itf := v.(Iface)
		if itf.t == nil {
			return "<nil>"
		}
		return rec(itf.t, itf.v)
	case *types.Slice:
		var r Value = "["
		for k, e := range v.([]Value) {
			if k > 0 {
				r = ropeCat(r, " ")
			}
			r = ropeCat(r, rec(u.Elem(), e))
		}
		return ropeCat(r, "]")
	case *types.Array:
		var r Value = "["
		for k, e := range v.(Array) {
			if k > 0 {
				r = ropeCat(r, " ")
			}
			r = ropeCat(r, rec(u.Elem(), e))
		}
		return ropeCat(r, "]")
	case *types.Struct:
		var r Value = "{"
		for k, e := range v.(Struct) {
			if k > 0 {
				r = ropeCat(r, " ")
			}
			if !u.Field(k).Exported() {
				// fmt does not call methods on unexported fields
			}
			r = ropeCat(r, rec(u.Field(k).Type(), e))
		}
		return ropeCat(r, "}")
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return ropeCat("&", rec(u.Elem(), *p))
			}
		}
		return "0xc000000000"
	case *types.Map:
		m := v.(*Map)
		type kv struct {
			k string
			v Value
		}
		var kvs []kv
		if m != nil {
			for _, e := range m.entries {
				if !e.dead {
					k := rec(u.Key(), e.k)
					ks, ok := k.(string)
					if !ok {
						ks = "<sym>"
					}
					kvs = append(kvs, kv{ks, ropeCat(ropeCat(k, ":"), rec(u.Elem(), e.v))})
				}
			}
		}
		sort.SliceStable(kvs, func(a, b int) bool { return kvs[a].k < kvs[b].k })
		var r Value = "map["
		for k, e := range kvs {
			if k > 0 {
				r = ropeCat(r, " ")
			}
			r = ropeCat(r, e.v)
		}
		return ropeCat(r, "]")
	case *types.Signature, *types.Chan:
		return "0xc000000000"
	}
	panic(pathAbort{fmt.Sprintf("format %s of %v", spec, t)})
}

// callString calls an Error or String method the way package fmt does: a panic
// inside it becomes part of the text.
func (i *Interp) callString(fr *frame, f *ssa.Function, v Value) (res Value) {
	d := i.depth
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(goPanic); !ok {
				panic(e)
			}
			i.depth = d
			res = "%!v(PANIC=String method)"
		}
	}()
	return i.callSSA(fr, f, []Value{copyVal(v)}, nil)
}

func (i *Interp) padStr(spec string, s Value) Value {
	if x, ok := s.(string); ok {
		sp := strings.Replace(spec, "v", "s", 1)
		return fmt.Sprintf(sp, x)
	}
	if spec == "%v" || spec == "%s" || spec == "%+v" {
		return s
	}
	panic(pathAbort{"padding of symbolic string"})
}

var _ = big.NewInt

// symText is the text of a number that is not a constant: a segment of a rope
// or, where the harness reads the text (ndText), the number's sign followed by
// a token that stands for its absolute value. Zero and one are written out.
func (i *Interp) symText(t *Term, spec string) Value {
	if !i.p.text {
		return &Rope{segs: []seg{{t: t, verb: spec}}}
	}
	num := func(n int64) *Term { return i.tc.Num(t.sort, n) }
	konst := func(f float64) string {
		if t.sort == SInt {
			return fmt.Sprintf(spec, int(f))
		}
		return fmt.Sprintf(spec, f)
	}
	for _, c := range []int64{0, 1, -1} {
		if i.truth(lower(i.tc.Eq(t, num(c)), types.Typ[types.Bool])) {
			return konst(float64(c))
		}
	}
	lossless := spec == "%v" || spec == "%d" && t.sort == SInt || t.sort == SReal && (spec == "%g" || spec == "%G")
	if !lossless {
		// a number that a format of limited precision does not reproduce
		const w = 4096.0009765625
		if t.sort != SReal {
			panic(pathAbort{"format " + spec})
		}
		if i.truth(lower(i.tc.Eq(t, i.tc.Const(SReal, new(big.Rat).SetFloat64(w))), types.Typ[types.Bool])) {
			return konst(w)
		}
	}
	sign := ""
	if i.truth(lower(i.tc.Lt(t, num(0)), types.Typ[types.Bool])) {
		sign = "-"
		t = i.tc.Neg(t)
	}
	i.p.textNums = append(i.p.textNums, t)
	return fmt.Sprintf("%s\u27e6%d\u27e7", sign, len(i.p.textNums)-1)
}

// numText finds the number a text starts with: its length and value.
func (i *Interp) numText(s string) (int, Value) {
	const open, close = "\u27e6", "\u27e7"
	if strings.HasPrefix(s, open) {
		e := strings.Index(s, close)
		k, err := strconv.Atoi(s[len(open):max(e, len(open))])
		if e < 0 || err != nil || k >= len(i.p.textNums) {
			return 0, 0.0
		}
		t := i.p.textNums[k]
		if t.sort == SInt {
			t = i.tc.ToReal(t)
		}
		return e + len(close), lower(t, types.Typ[types.Float64])
	}
	n := numPrefix(s)
	if n == 0 {
		return 0, 0.0
	}
	f, err := strconv.ParseFloat(s[:n], 64)
	if err != nil {
		return 0, 0.0
	}
	return n, f
}

// numPrefix is the length of the unsigned decimal number that s starts with.
func numPrefix(s string) int {
	digits := func(k int) int {
		n := k
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		return n - k
	}
	n := digits(0)
	if n == 0 {
		return 0
	}
	if n < len(s) && s[n] == '.' {
		if d := digits(n + 1); d > 0 {
			n += 1 + d
		}
	}
	if n < len(s) && (s[n] == 'e' || s[n] == 'E') {
		k := n + 1
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		if d := digits(k); d > 0 {
			n = k + d
		}
	}
	return n
}
