package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

const ndPkg = "github.com/MatProGo-dev/SymbolicMath.go/zzverif"

func ndIntercepts() map[string]icept {
	m := map[string]icept{}
	def := func(name string, f icept) { m[ndPkg+"."+name] = f }
	f64 := types.Typ[types.Float64]
	def("ndInt", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := a[1].(int), a[2].(int)
		if lo == hi {
			i.p.inputs = append(i.p.inputs, InputRec{Kind: "int", Name: str(a[0]), C: strconv.Itoa(lo)})
			return lo
		}
		t := i.p.newVar(SInt, str(a[0]), new(big.Rat).SetInt64(int64(lo)), new(big.Rat).SetInt64(int64(hi)))
		i.p.inputs = append(i.p.inputs, InputRec{Kind: "int", Name: str(a[0]), T: t})
		return t
	})
	def("ndID", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		_, hi := intRange(64, false)
		t := i.p.newVar(SInt, str(a[0]), ratZero, hi)
		i.p.inputs = append(i.p.inputs, InputRec{Kind: "u64", Name: str(a[0]), T: t})
		return t
	})
	def("ndFloat", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := i.p.newVar(SReal, str(a[0]), nil, nil)
		i.p.inputs = append(i.p.inputs, InputRec{Kind: "float", Name: str(a[0]), T: t})
		return t
	})
	def("ndBool", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := i.p.newVar(SBool, str(a[0]), nil, nil)
		i.p.inputs = append(i.p.inputs, InputRec{Kind: "bool", Name: str(a[0]), T: t})
		return t
	})
	def("ndChoose", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := a[1].(int)
		k := i.p.choose(n)
		i.p.inputs = append(i.p.inputs, InputRec{Kind: "choose", Name: str(a[0]), C: strconv.Itoa(k)})
		return k
	})
	def("ndTier", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return i.w.ex.tier })
	def("ndSymbolic", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return true })
	def("ndAssume", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { i.p.Assume(a[0]); return nil })
	def("ndAssert", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		msg := "assertion"
		switch s := a[1].(type) {
		case string:
			msg = s
		case *Rope:
			msg = s.String()
		}
		i.p.Assert(a[0], msg)
		return nil
	})
	def("ndIteF", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		return lower(i.tc.Ite(i.p.simp(a[0].(*Term)), i.toTerm(a[1]), i.toTerm(a[2])), f64)
	})
	def("ndIteI", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		return lower(i.tc.Ite(i.p.simp(a[0].(*Term)), i.toTerm(a[1]), i.toTerm(a[2])), types.Typ[types.Int])
	})
	bl := types.Typ[types.Bool]
	def("ndAnd", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return lower(i.tc.And(i.toTerm(a[0]), i.toTerm(a[1])), bl)
	})
	def("ndOr", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return lower(i.tc.Or(i.toTerm(a[0]), i.toTerm(a[1])), bl)
	})
	def("ndNot", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return i.not(a[0]) })
	def("ndConcretizeI", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return int(i.p.concretize(t).Num().Int64())
		}
		return a[0]
	})
	def("ndObserve", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		itf := a[1].(Iface)
		v := itf.v
		if t, ok := v.(*Term); ok {
			v = t
		}
		i.p.obs = append(i.p.obs, Obs{Label: str(a[0]), V: v})
		return nil
	})
	def("ndReach", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		i.p.reached[str(a[0])] = true
		return nil
	})
	def("ndKnown", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		id := str(a[0])
		if i.w.ex.knownIDs[id] {
			i.p.kconds = append(i.p.kconds, knownCond{id, i.toTerm(a[1])})
		}
		return nil
	})
	def("ndText", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		i.p.text = a[0].(bool)
		return nil
	})
	def("ndNumLen", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n, _ := i.numText(str(a[0]))
		return n
	})
	def("ndNumVal", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		_, v := i.numText(str(a[0]))
		return v
	})
	def("ndSameSlice", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return false
	})
	def("ndDebug", func(i *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if i.w.ex.debug {
			v := a[0].(Iface).v
			if t, ok := v.(*Term); ok {
				fmt.Println("DEBUG", i.tc.SMT(i.p.simp(t), false))
			} else {
				fmt.Println("DEBUG", v)
			}
		}
		return nil
	})
	return m
}
