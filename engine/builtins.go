package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// size classes of the Go 1.23 allocator (runtime/sizeclasses.go): append's
// capacity rule decides which results share storage, so it is modelled.
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int64, noscan bool) int64 {
	req := size
	if !noscan && req > 512 {
		req += 8
		for _, c := range sizeClasses {
			if c >= req {
				return c - 8
			}
		}
	} else {
		for _, c := range sizeClasses {
			if c >= req {
				return c
			}
		}
	}
	const page = 8192
	return (size + page - 1) / page * page
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

func (i *Interp) sizeof(t types.Type) int64 {
	if s, ok := i.sizeC[t]; ok {
		return s
	}
	s := i.P.sizes.Sizeof(t)
	i.sizeC[t] = s
	return s
}

func (i *Interp) grow(et types.Type, old []Value, newLen int) []Value {
	oldCap := cap(old)
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = doublecap
	} else {
		for {
			newcap += (newcap + 3*256) >> 2
			if newcap >= newLen {
				break
			}
		}
	}
	es := i.sizeof(et)
	if es > 0 {
		newcap = int(roundupsize(int64(newcap)*es, !hasPointers(et)) / es)
	}
	out := make([]Value, newcap)
	copy(out, old)
	for k := len(old); k < newcap; k++ {
		out[k] = zero(et)
	}
	return out[:len(old):newcap]
}

func (i *Interp) appendTo(et types.Type, dst, src []Value) []Value {
	if len(src) == 0 {
		return dst
	}
	n := len(dst)
	tmp := make([]Value, len(src))
	for k, v := range src {
		tmp[k] = copyVal(v)
	}
	if n+len(src) > cap(dst) {
		dst = i.grow(et, dst, n+len(src))
	}
	dst = dst[:n+len(src)]
	for k, v := range tmp {
		// overwrite cells in place: other slices may share them
		dst[n+k] = v
	}
	return dst
}

func (i *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, in *ssa.Call) Value {
	var argT func(k int) types.Type
	if in != nil {
		argT = func(k int) types.Type { return in.Call.Args[k].Type() }
	} else {
		argT = func(k int) types.Type { return b.Type().(*types.Signature).Params().At(k).Type() }
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return len(x)
		case []Value:
			return len(x)
		case Array:
			return len(x)
		case *Map:
			if x == nil {
				return 0
			}
			return x.n
		case *Value:
			if x == nil {
				return int(deref(argT(0)).Underlying().(*types.Array).Len())
			}
			return len((*x).(Array))
		case *Rope:
			panic(pathAbort{"length of symbolic string"})
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return cap(x)
		case Array:
			return len(x)
		case *Value:
			return len((*x).(Array))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		st := argT(0).Underlying()
		sl, ok := st.(*types.Slice)
		if !ok {
			break
		}
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		case string:
			for k := 0; k < len(s); k++ {
				src = append(src, s[k])
			}
		default:
			panic(pathAbort{"append source"})
		}
		return i.appendTo(sl.Elem(), args[0].([]Value), src)
	case "copy":
		dst := args[0].([]Value)
		switch s := args[1].(type) {
		case []Value:
			n := len(s)
			if len(dst) < n {
				n = len(dst)
			}
			tmp := make([]Value, n)
			for k := 0; k < n; k++ {
				tmp[k] = copyVal(s[k])
			}
			for k := 0; k < n; k++ {
				storeInto(&dst[k], tmp[k])
			}
			return n
		case string:
			n := len(s)
			if len(dst) < n {
				n = len(dst)
			}
			for k := 0; k < n; k++ {
				dst[k] = s[k]
			}
			return n
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			i.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.entries {
					e.dead = true
				}
				x.entries, x.n = nil, 0
			}
		case []Value:
			et := argT(0).Underlying().(*types.Slice).Elem()
			for k := range x {
				storeInto(&x[k], zero(et))
			}
		}
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
			c := fr.caller
			c.panicking = false
			gp, ok := c.panic.(goPanic)
			c.panic = nil
			if !ok {
				panic(pathAbort{"recover of engine panic"})
			}
			if itf, ok := gp.v.(Iface); ok {
				return itf
			}
			return Iface{}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = i.minmax(b.Name() == "min", argT(0), r, a)
		}
		return r
	case "real":
		if c, ok := args[0].(complex128); ok {
			return real(c)
		}
	case "imag":
		if c, ok := args[0].(complex128); ok {
			return imag(c)
		}
	case "complex":
		a, ok1 := args[0].(float64)
		bb, ok2 := args[1].(float64)
		if ok1 && ok2 {
			return complex(a, bb)
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			rtPanic(i, "value method called using nil pointer")
		}
		return args[0]
	}
	panic(pathAbort{fmt.Sprintf("builtin %s", b.Name())})
}

func (i *Interp) minmax(isMin bool, t types.Type, a, b Value) Value {
	_, sa := a.(*Term)
	_, sb := b.(*Term)
	if sa || sb {
		if f, ok := special(a); ok {
			if (f < 0) == isMin || math.IsNaN(f) {
				return a
			}
			return b
		}
		if f, ok := special(b); ok {
			if (f < 0) == isMin || math.IsNaN(f) {
				return b
			}
			return a
		}
		x, y := i.toTerm(a), i.toTerm(b)
		c := i.tc.Le(x, y)
		if isMin {
			return lower(i.tc.Ite(c, x, y), t)
		}
		return lower(i.tc.Ite(c, y, x), t)
	}
	switch x := a.(type) {
	case float64:
		if isMin {
			return math.Min(x, b.(float64))
		}
		return math.Max(x, b.(float64))
	case string:
		if (x < b.(string)) == isMin {
			return a
		}
		return b
	}
	if (bigOf(a).Cmp(bigOf(b)) <= 0) == isMin {
		return a
	}
	return b
}
