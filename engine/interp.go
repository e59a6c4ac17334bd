package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// pathAbort ends the exploration of one path without a verdict.
type pathAbort struct{ why string }

// pathDead ends a path whose condition is unsatisfiable (assumption failed).
type pathDead struct{}

// goPanic is a Go panic in the interpreted program.
type goPanic struct{ v Value }

type opnd struct {
	reg int32
	val Value
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int32
	aux any
}

type fnInfo struct {
	fn     *ssa.Function
	blocks [][]cinstr
	nregs  int
	params []int32
	free   []int32
	inter  func(i *Interp, fr *frame, fn *ssa.Function, args []Value) Value
	inRepo bool
	cover  []bool
}

type deferred struct {
	fn   Value
	args []Value
	tail *deferred
}

type frame struct {
	i         *Interp
	caller    *frame
	fi        *fnInfo
	regs      []Value
	block     int
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panic     any
}

type Program struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	main    *ssa.Package
	modPath string
	sizes   types.Sizes
	rtErr   types.Type // runtime.errorString
	errStr  types.Type // *errors.errorString
	errStrS types.Type
	wrapErr types.Type
	hasher  typeutil.Hasher
	canonMu sync.Mutex
	canonM  typeutil.Map
}

// canon maps identical types to one representative.
func (p *Program) canon(t types.Type) types.Type {
	t = types.Unalias(t)
	p.canonMu.Lock()
	defer p.canonMu.Unlock()
	if c := p.canonM.At(t); c != nil {
		return c.(types.Type)
	}
	p.canonM.Set(t, t)
	return t
}

type Interp struct {
	P        *Program
	tc       *TermCtx
	p        *Path
	w        *Worker
	globals  map[*ssa.Global]*Value
	fns      map[*ssa.Function]*fnInfo
	methods  map[methodKey]*ssa.Function
	canonL   map[types.Type]types.Type
	inited   map[*ssa.Package]bool
	initing  bool
	depth    int
	implC    map[implKey]bool
	modGlob  []*ssa.Global
	sizeC    map[types.Type]int64
	pathInit map[*ssa.Package]bool
}

type methodKey struct {
	t  types.Type
	id string
}
type implKey struct {
	t types.Type
	i *types.Interface
}

func NewInterp(P *Program, tc *TermCtx, w *Worker) *Interp {
	i := &Interp{P: P, tc: tc, w: w,
		globals: map[*ssa.Global]*Value{}, fns: map[*ssa.Function]*fnInfo{},
		methods: map[methodKey]*ssa.Function{}, canonL: map[types.Type]types.Type{},
		inited: map[*ssa.Package]bool{}, implC: map[implKey]bool{}, sizeC: map[types.Type]int64{}}
	for _, pk := range P.prog.AllPackages() {
		if !i.isModule(pk) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				i.global(g)
			}
		}
	}
	return i
}

func (i *Interp) canon(t types.Type) types.Type {
	if c, ok := i.canonL[t]; ok {
		return c
	}
	c := i.P.canon(t)
	i.canonL[t] = c
	return c
}

func (i *Interp) isModule(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	pp := p.Pkg.Path()
	return pp == i.P.modPath || strings.HasPrefix(pp, i.P.modPath+"/")
}

// resetGlobals re-initialises every global of the module under test, so that
// each path starts from a fresh program state.
func (i *Interp) resetGlobals() {
	for _, g := range i.modGlob {
		*i.globals[g] = zero(deref(g.Type()))
	}
	i.pathInit = map[*ssa.Package]bool{}
	i.runModInit(i.P.main)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (i *Interp) runModInit(p *ssa.Package) {
	if i.pathInit[p] || !i.isModule(p) {
		return
	}
	i.pathInit[p] = true
	for _, imp := range p.Pkg.Imports() {
		if q := i.P.prog.Package(imp); q != nil {
			i.runModInit(q)
		}
	}
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		i.callSSA(nil, f, nil, nil)
	}
}

func (i *Interp) global(g *ssa.Global) *Value {
	if v, ok := i.globals[g]; ok {
		return v
	}
	cell := new(Value)
	*cell = zero(deref(g.Type()))
	i.globals[g] = cell
	if i.isModule(g.Pkg) {
		i.modGlob = append(i.modGlob, g)
		// (globals of the module are initialised by resetGlobals; make
		// sure a late-discovered global gets its initial value)
		if i.pathInit != nil && i.pathInit[g.Pkg] && !strings.HasSuffix(g.Name(), "$guard") && !i.initing {
			panic(pathRestart{})
		}
		return cell
	}
	i.lazyInit(g.Pkg)
	return cell
}

type pathRestart struct{}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/poll": true,
	"time": true, "internal/godebug": true, "internal/cpu": true, "sync": true, "internal/reflectlite": true, "unicode": true,
	"internal/godebugs": true, "internal/testlog": true, "fmt": true, "io/fs": true, "math/rand": true, "math/rand/v2": true, "log": true}

func (i *Interp) lazyInit(p *ssa.Package) {
	if p == nil || i.inited[p] || noInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "runtime/") {
		return
	}
	i.inited[p] = true
	// not counted as steps: it happens once per worker, not once per path
	if i.p != nil {
		defer func(pp *Path, n int) { pp.steps = n }(i.p, i.p.steps)
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case goPanic, pathAbort:
				if os.Getenv("SYMGO_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "initialisation of %s: %v\n", p.Pkg.Path(), e)
				}
				return
			}
			panic(e)
		}
	}()
	i.callSSA(nil, f, nil, nil)
}

func (i *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := i.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn}
	i.fns[fn] = fi
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intercepts[name]; ok {
		fi.inter = f
		return fi
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && pk != nil && fn.Signature.Recv() == nil && fn.Parent() == nil {
		// nested initialisers are run by lazyInit / runModInit only
	}
	fi.inRepo = i.isModule(pk) && pk != i.P.main
	if pk == nil && fn.Synthetic != "" {
		fi.inRepo = false
	}
	if fn.Blocks == nil {
		fi.inter = func(i *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			panic(pathAbort{"no body: " + fn.String()})
		}
		return fi
	}
	i.compile(fi)
	return fi
}

func (i *Interp) compile(fi *fnInfo) {
	fn := fi.fn
	reg := map[ssa.Value]int32{}
	n := int32(0)
	alloc := func(v ssa.Value) int32 {
		reg[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	fi.nregs = int(n)
	fi.cover = make([]bool, len(fn.Blocks))
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	var buf []*ssa.Value
	for bi, b := range fn.Blocks {
		cis := make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			buf = in.Operands(buf[:0])
			for _, op := range buf {
				ci.ops = append(ci.ops, i.operand(*op, reg))
			}
			cis = append(cis, ci)
		}
		fi.blocks[bi] = cis
	}
}

func (i *Interp) operand(v ssa.Value, reg map[ssa.Value]int32) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{reg: -1}
	case *ssa.Const:
		return opnd{reg: -1, val: constValue(v)}
	case *ssa.Function:
		return opnd{reg: -1, val: v}
	case *ssa.Builtin:
		return opnd{reg: -1, val: v}
	case *ssa.Global:
		return opnd{reg: -2, val: v} // resolved lazily
	}
	r, ok := reg[v]
	if !ok {
		panic(pathAbort{fmt.Sprintf("operand %T %v", v, v)})
	}
	return opnd{reg: r}
}

func (fr *frame) get(ci *cinstr, k int) Value {
	o := &ci.ops[k]
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -2 {
		return fr.i.global(o.val.(*ssa.Global))
	}
	return o.val
}

func rtPanic(i *Interp, msg string) {
	if os.Getenv("SYMGO_TRACE") != "" {
		println("rtpanic", msg)
	}
	panic(goPanic{Iface{i.P.rtErr, msg}})
}

// call applies any function value.
func (i *Interp) call(caller *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		return i.callSSA(caller, f, args, nil)
	case *Closure:
		if f == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		return i.callSSA(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return i.builtin(caller, f, args, nil)
	}
	panic(pathAbort{fmt.Sprintf("call of %T", fn)})
}

const maxDepth = 600

func (i *Interp) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := i.info(fn)
	if fi.inter != nil {
		return fi.inter(i, caller, fn, args)
	}
	if fn.Synthetic == "package initializer" {
		pk := fn.Pkg
		if caller != nil { // nested initialiser
			if i.isModule(pk) {
				i.runModInit(pk)
			}
			return nil
		}
	}
	i.depth++
	if i.depth > maxDepth {
		i.depth = 0
		panic(pathAbort{"call depth"})
	}
	d := i.depth
	if os.Getenv("SYMGO_UNWIND") != "" {
		defer func() {
			if r := recover(); r != nil {
				println("unwind", fn.String())
				panic(r)
			}
		}()
	}
	fr := &frame{i: i, caller: caller, fi: fi, regs: make([]Value, fi.nregs)}
	for k, r := range fi.params {
		fr.regs[r] = args[k]
	}
	for k, r := range fi.free {
		fr.regs[r] = env[k]
	}
	fr.block = 0
	if fn.Recover != nil || hasDefer(fi) {
		for fr.block >= 0 {
			i.runDeferFrame(fr)
		}
	} else {
		i.run(fr)
	}
	i.depth = d - 1
	return fr.result
}

func hasDefer(fi *fnInfo) bool {
	for _, b := range fi.blocks {
		for k := range b {
			if _, ok := b[k].in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (i *Interp) runDeferFrame(fr *frame) {
	d := i.depth
	defer func() {
		if fr.block < 0 {
			return
		}
		e := recover()
		if e == nil {
			return
		}
		if _, ok := e.(goPanic); !ok {
			panic(e)
		}
		i.depth = d
		fr.panicking = true
		fr.panic = e
		i.runDefers(fr)
		if fr.fi.fn.Recover == nil {
			// function has no named results: return zero values
			fr.result = zeroResult(fr.fi.fn)
			fr.block = -1
			return
		}
		fr.block = fr.fi.fn.Recover.Index
		fr.prev = nil
	}()
	i.run(fr)
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (i *Interp) runDefers(fr *frame) {
	for d := fr.defers; d != nil; d = d.tail {
		fr.defers = d.tail
		i.runOneDefer(fr, d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panic)
	}
}

func (i *Interp) runOneDefer(fr *frame, d *deferred) {
	dp := i.depth
	ok := false
	defer func() {
		if !ok {
			e := recover()
			if _, is := e.(goPanic); !is {
				panic(e)
			}
			i.depth = dp
			fr.panicking = true
			fr.panic = e
		}
	}()
	i.call(fr, d.fn, d.args)
	ok = true
}

func (i *Interp) run(fr *frame) {
	p := i.p
	for {
		blk := fr.fi.blocks[fr.block]
		fr.fi.cover[fr.block] = true
		cur := fr.fi.fn.Blocks[fr.block]
		jumped := false
		for k := 0; k < len(blk); k++ {
			ci := &blk[k]
			if p != nil {
				p.steps++
				if p.steps > p.maxSteps {
					panic(pathAbort{"step budget"})
				}
			}
			switch in := ci.in.(type) {
			case *ssa.Phi:
				// evaluate all phis of the block in parallel
				var vals []Value
				j := k
				pi := 0
				for pi = range cur.Preds {
					if cur.Preds[pi] == fr.prev {
						break
					}
				}
				for ; j < len(blk); j++ {
					if _, ok := blk[j].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(&blk[j], pi))
				}
				for q := k; q < j; q++ {
					fr.regs[blk[q].dst] = vals[q-k]
				}
				k = j - 1
			case *ssa.Jump:
				fr.prev = cur
				fr.block = cur.Succs[0].Index
				jumped = true
			case *ssa.If:
				succ := 1
				if i.truth(fr.get(ci, 0)) {
					succ = 0
				}
				fr.prev = cur
				fr.block = cur.Succs[succ].Index
				jumped = true
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(ci, 0)
				default:
					r := make(Tuple, len(ci.ops))
					for q := range r {
						r[q] = fr.get(ci, q)
					}
					fr.result = r
				}
				fr.block = -1
				return
			default:
				i.exec(fr, ci, in)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(pathAbort{"fell off block"})
		}
	}
}

func (i *Interp) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return i.p.Branch(x)
	}
	panic(pathAbort{fmt.Sprintf("truth of %T", v)})
}

func (i *Interp) index(v Value) int {
	switch x := v.(type) {
	case *Term:
		return int(i.p.concretize(x).Num().Int64())
	}
	n, ok := asInt64(v)
	if !ok {
		panic(pathAbort{fmt.Sprintf("index %T", v)})
	}
	if isUnsignedVal(v) && n < 0 {
		return math.MaxInt64
	}
	return int(n)
}

func (i *Interp) exec(fr *frame, ci *cinstr, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.Alloc:
		cell := new(Value)
		*cell = zero(deref(in.Type()))
		fr.regs[ci.dst] = cell
	case *ssa.UnOp:
		fr.regs[ci.dst] = i.unop(in, fr.get(ci, 0))
	case *ssa.BinOp:
		fr.regs[ci.dst] = i.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(ci, 0), fr.get(ci, 1))
	case *ssa.Call:
		fn, args := i.prepareCall(fr, ci, &in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.regs[ci.dst] = i.builtin(fr, b, args, in)
		} else {
			fr.regs[ci.dst] = i.call(fr, fn, args)
		}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(ci, 0)
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(ci, 0)
	case *ssa.Convert:
		fr.regs[ci.dst] = i.conv(in.Type(), in.X.Type(), fr.get(ci, 0))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = i.conv(in.Type(), in.X.Type(), fr.get(ci, 0))
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{i.canon(in.X.Type()), copyVal(fr.get(ci, 0))}
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for k := range in.Bindings {
			c.env = append(c.env, fr.get(ci, k+1))
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeMap:
		fr.regs[ci.dst] = &Map{kt: in.Type().Underlying().(*types.Map).Key()}
	case *ssa.MakeSlice:
		n, c := i.index(fr.get(ci, 0)), i.index(fr.get(ci, 1))
		if n < 0 || n > 1<<24 {
			rtPanic(i, "makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			rtPanic(i, "makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, c)
		for k := range s {
			s[k] = zero(et)
		}
		fr.regs[ci.dst] = s[:n:c]
	case *ssa.FieldAddr:
		p := fr.get(ci, 0).(*Value)
		if p == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(pathAbort{fmt.Sprintf("field address of %T", *p)})
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		fr.regs[ci.dst] = copyVal(fr.get(ci, 0).(Struct)[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(ci, 0)
		idx := i.index(fr.get(ci, 1))
		switch x := x.(type) {
		case []Value:
			if idx < 0 || idx >= len(x) {
				rtPanic(i, fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.regs[ci.dst] = &x[idx]
		case *Value:
			if x == nil {
				rtPanic(i, "invalid memory address or nil pointer dereference")
			}
			a := (*x).(Array)
			if idx < 0 || idx >= len(a) {
				rtPanic(i, fmt.Sprintf("index out of range [%d] with length %d", idx, len(a)))
			}
			fr.regs[ci.dst] = &a[idx]
		default:
			panic(pathAbort{fmt.Sprintf("IndexAddr %T", x)})
		}
	case *ssa.Index:
		x := fr.get(ci, 0)
		idx := i.index(fr.get(ci, 1))
		switch x := x.(type) {
		case Array:
			if idx < 0 || idx >= len(x) {
				rtPanic(i, fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.regs[ci.dst] = copyVal(x[idx])
		case string:
			if idx < 0 || idx >= len(x) {
				rtPanic(i, fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.regs[ci.dst] = x[idx]
		default:
			panic(pathAbort{fmt.Sprintf("Index %T", x)})
		}
	case *ssa.Lookup:
		x := fr.get(ci, 0)
		switch x := x.(type) {
		case string:
			idx := i.index(fr.get(ci, 1))
			if idx < 0 || idx >= len(x) {
				rtPanic(i, fmt.Sprintf("index out of range [%d] with length %d", idx, len(x)))
			}
			fr.regs[ci.dst] = x[idx]
		case *Map:
			e := i.mapFind(x, fr.get(ci, 1))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, e != nil}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			panic(pathAbort{fmt.Sprintf("Lookup %T", x)})
		}
	case *ssa.MapUpdate:
		m := fr.get(ci, 0).(*Map)
		if m == nil {
			panic(goPanic{Iface{i.P.rtErr, "assignment to entry in nil map"}})
		}
		i.mapSet(m, fr.get(ci, 1), fr.get(ci, 2))
	case *ssa.Range:
		switch x := fr.get(ci, 0).(type) {
		case string:
			fr.regs[ci.dst] = &stringIter{s: x}
		case *Map:
			it := x.startRange(i)
			fr.regs[ci.dst] = it
		default:
			panic(pathAbort{fmt.Sprintf("Range %T", x)})
		}
	case *ssa.Next:
		t := fr.get(ci, 0).(iter).next(i)
		if in.IsString {
			// keep
		}
		fr.regs[ci.dst] = t
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(ci, 0).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = i.slice(fr, ci, in)
	case *ssa.SliceToArrayPointer:
		s := fr.get(ci, 0).([]Value)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			rtPanic(i, "cannot convert slice to array pointer: length mismatch")
		}
		cell := new(Value)
		*cell = Array(s[:n:n])
		fr.regs[ci.dst] = cell
	case *ssa.Store:
		p := fr.get(ci, 0).(*Value)
		if p == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		storeInto(p, fr.get(ci, 1))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = i.typeAssert(in, fr.get(ci, 0))
	case *ssa.Panic:
		panic(goPanic{fr.get(ci, 0)})
	case *ssa.Defer:
		fn, args := i.prepareCall(fr, ci, &in.Call)
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
	case *ssa.RunDefers:
		i.runDefers(fr)
	default:
		panic(pathAbort{fmt.Sprintf("instruction %T in %s", in, fr.fi.fn)})
	}
}

func (i *Interp) prepareCall(fr *frame, ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	fnv := fr.get(ci, 0)
	n := len(c.Args)
	if c.IsInvoke() {
		recv, ok := fnv.(Iface)
		if !ok {
			panic(pathAbort{fmt.Sprintf("invoke on %T", fnv)})
		}
		if recv.t == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		f := i.findMethod(recv.t, c.Method)
		args := make([]Value, 0, n+1)
		args = append(args, copyVal(recv.v))
		for k := 0; k < n; k++ {
			args = append(args, fr.get(ci, k+1))
		}
		return f, args
	}
	args := make([]Value, n)
	for k := 0; k < n; k++ {
		args[k] = fr.get(ci, k+1)
	}
	return fnv, args
}

func (i *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	key := methodKey{t, m.Id()}
	if f, ok := i.methods[key]; ok {
		return f
	}
	f := i.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(pathAbort{fmt.Sprintf("method %s not found on %s", m, t)})
	}
	i.methods[key] = f
	return f
}

func (i *Interp) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := i.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	i.implC[k] = r
	return r
}

func (i *Interp) typeAssert(in *ssa.TypeAssert, x Value) Value {
	itf, ok := x.(Iface)
	if !ok {
		panic(pathAbort{fmt.Sprintf("typeassert on %T", x)})
	}
	var v Value
	good := false
	msg := ""
	if target, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if itf.t != nil && i.implements(itf.t, target) {
			v, good = itf, true
		} else {
			v = Iface{}
			msg = fmt.Sprintf("interface conversion: %v is not %v", itf.t, in.AssertedType)
		}
	} else {
		if itf.t != nil && i.canon(in.AssertedType) == itf.t {
			v, good = copyVal(itf.v), true
		} else {
			v = zero(in.AssertedType)
			msg = fmt.Sprintf("interface conversion: interface is %v, not %v", itf.t, in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, good}
	}
	if !good {
		rtPanic(i, msg)
	}
	return v
}

func (i *Interp) slice(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	x := fr.get(ci, 0)
	k := 1
	nextIdx := func(v ssa.Value, def int) int {
		defer func() { k++ }()
		if v == nil {
			return def
		}
		return i.index(fr.get(ci, k))
	}
	var n, c int
	switch s := x.(type) {
	case string:
		n, c = len(s), len(s)
	case []Value:
		n, c = len(s), cap(s)
	case *Value:
		if s == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		n = len((*s).(Array))
		c = n
	default:
		panic(pathAbort{fmt.Sprintf("slice of %T", x)})
	}
	lo := nextIdx(in.Low, 0)
	hi := nextIdx(in.High, n)
	mx := nextIdx(in.Max, c)
	lim := c
	if lo < 0 || hi < lo || mx < hi || mx > lim {
		rtPanic(i, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, lim))
	}
	switch s := x.(type) {
	case string:
		return s[lo:hi]
	case []Value:
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *Value:
		return []Value((*s).(Array))[lo:hi:mx]
	}
	panic("unreachable")
}

func (i *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	// exact hits first: a syntactically equal key needs no fork
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		r := i.eq(m.kt, e.k, k)
		if b, ok := r.(bool); ok {
			if b {
				return e
			}
			continue
		}
		if t, ok := r.(*Term); ok && i.p.isKnown(t) == 1 {
			return e
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if i.truth(i.eq(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (i *Interp) mapSet(m *Map, k, v Value) {
	if e := i.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	m.entries = append(m.entries, &mapEntry{k: copyVal(k), v: copyVal(v)})
	m.n++
}

func (i *Interp) mapDelete(m *Map, k Value) {
	if e := i.mapFind(m, k); e != nil {
		e.dead = true
		m.n--
		out := m.entries[:0:0]
		for _, x := range m.entries {
			if !x.dead {
				out = append(out, x)
			}
		}
		m.entries = out
	}
}

func (i *Interp) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	t := i.tc.And(a.(*Term), b.(*Term))
	return lower(t, types.Typ[types.Bool])
}

func (i *Interp) not(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return lower(i.tc.Not(a.(*Term)), types.Typ[types.Bool])
}

// eq compares two values of type t without forking.
func (i *Interp) eq(t types.Type, x, y Value) Value {
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		_, sx := x.(*Term)
		_, sy := y.(*Term)
		if sx || sy {
			if f, ok := x.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
				return false
			}
			if f, ok := y.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
				return false
			}
			return lower(i.tc.Eq(i.toTerm(x), i.toTerm(y)), types.Typ[types.Bool])
		}
		_, rx := x.(*Rope)
		_, ry := y.(*Rope)
		if rx || ry {
			return i.ropeEq(ropeOf(x), ropeOf(y))
		}
		return x == y
	case *types.Struct:
		xs, ys := x.(Struct), y.(Struct)
		var r Value = true
		for k := range xs {
			f := ut.Field(k)
			if f.Name() == "_" {
				continue
			}
			r = i.and(r, i.eq(f.Type(), xs[k], ys[k]))
			if b, ok := r.(bool); ok && !b {
				return false
			}
		}
		return r
	case *types.Array:
		xs, ys := x.(Array), y.(Array)
		var r Value = true
		for k := range xs {
			r = i.and(r, i.eq(ut.Elem(), xs[k], ys[k]))
		}
		return r
	case *types.Interface:
		xi, ok1 := x.(Iface)
		yi, ok2 := y.(Iface)
		if !ok1 || !ok2 {
			panic(pathAbort{fmt.Sprintf("iface eq %T %T", x, y)})
		}
		if xi.t != yi.t {
			return false
		}
		if xi.t == nil {
			return true
		}
		if !types.Comparable(xi.t) {
			rtPanic(i, "comparing uncomparable type "+xi.t.String())
		}
		return i.eq(xi.t, xi.v, yi.v)
	case *types.Pointer:
		return x.(*Value) == y.(*Value)
	case *types.Map:
		return x.(*Map) == y.(*Map)
	case *types.Slice:
		xs, ys := x.([]Value), y.([]Value)
		return xs == nil && ys == nil
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	case *types.Chan:
		return x == y
	}
	panic(pathAbort{fmt.Sprintf("eq on %v", t)})
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	}
	return false
}

func (i *Interp) ropeEq(a, b *Rope) Value {
	// strip common literal prefixes/suffixes; equal shapes compare segmentwise
	if len(a.segs) == len(b.segs) {
		var r Value = true
		same := true
		for k := range a.segs {
			x, y := a.segs[k], b.segs[k]
			if (x.t == nil) != (y.t == nil) || (x.t == nil && x.s != y.s) || (x.t != nil && (x.verb != y.verb || x.t.sort != y.t.sort)) {
				same = false
				break
			}
			if x.t != nil {
				r = i.and(r, lower(i.tc.Eq(x.t, y.t), types.Typ[types.Bool]))
			}
		}
		if same {
			// a literal between two symbolic parts could be absorbed by them
			// only if it consisted of digits; that is checked here
			for k := range a.segs {
				if a.segs[k].t == nil && k > 0 && k < len(a.segs)-1 && strings.Trim(a.segs[k].s, "0123456789.+-e") == "" {
					panic(pathAbort{"ambiguous symbolic string comparison"})
				}
			}
			return r
		}
	}
	// different literal heads or tails decide inequality
	if h1, h2 := head(a), head(b); h1 != "" && h2 != "" {
		n := len(h1)
		if len(h2) < n {
			n = len(h2)
		}
		if h1[:n] != h2[:n] {
			return false
		}
	}
	if len(a.segs) == 0 || len(b.segs) == 0 {
		return len(a.segs) == len(b.segs) // a symbolic number never renders empty
	}
	if r, ok := i.tokenEq(a, b); ok {
		return r
	}
	panic(pathAbort{"symbolic string comparison"})
}

// A rope whose symbolic parts are nonnegative integers in decimal, none next
// to a literal digit, is a sequence of numbers and other text.
type ropeTok struct {
	s string // text, or the digits of a literal number
	t *Term
	n bool
}

func ropeTokens(r *Rope) ([]ropeTok, bool) {
	var out []ropeTok
	for _, s := range r.segs {
		if s.t != nil {
			if s.t.sort != SInt || s.t.lo == nil || s.t.lo.Sign() < 0 || (s.verb != "%v" && s.verb != "%d") {
				return nil, false
			}
			if n := len(out); n > 0 && out[n-1].n {
				return nil, false
			}
			out = append(out, ropeTok{t: s.t, n: true})
			continue
		}
		for k := 0; k < len(s.s); k++ {
			d := s.s[k] >= '0' && s.s[k] <= '9'
			n := len(out)
			if n > 0 && out[n-1].n == d {
				if out[n-1].t != nil {
					return nil, false
				}
				out[n-1].s += s.s[k : k+1]
				continue
			}
			out = append(out, ropeTok{s: s.s[k : k+1], n: d})
		}
	}
	return out, true
}

func (i *Interp) tokenEq(a, b *Rope) (Value, bool) {
	x, ok1 := ropeTokens(a)
	y, ok2 := ropeTokens(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	if len(x) != len(y) {
		return false, true
	}
	var r Value = true
	for k := range x {
		p, q := x[k], y[k]
		if p.n != q.n {
			return false, true
		}
		if p.t == nil && q.t == nil {
			if p.s != q.s {
				return false, true
			}
			continue
		}
		if p.t == nil {
			p, q = q, p
		}
		qt := q.t
		if qt == nil {
			if len(q.s) > 1 && q.s[0] == '0' {
				return false, true
			}
			v, ok := new(big.Rat).SetString(q.s)
			if !ok {
				return nil, false
			}
			qt = i.tc.Const(SInt, v)
		}
		r = i.and(r, lower(i.tc.Eq(p.t, qt), types.Typ[types.Bool]))
	}
	return r, true
}

func head(r *Rope) string {
	if len(r.segs) > 0 && r.segs[0].t == nil {
		return r.segs[0].s
	}
	return ""
}

func (i *Interp) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(*Value)
		if !ok {
			panic(pathAbort{fmt.Sprintf("deref %T", x)})
		}
		if p == nil {
			rtPanic(i, "invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case token.NOT:
		return i.not(x)
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			t := i.tc.Neg(v)
			if v.sort == SInt {
				return i.wrapTo(t, in.Type())
			}
			return lower(t, in.Type())
		case float64:
			return -v
		case float32:
			return -v
		case complex128:
			return -v
		}
		return i.binop(token.SUB, in.Type(), in.Type(), zero(in.Type()), x)
	case token.XOR:
		if _, ok := x.(*Term); ok {
			panic(pathAbort{"symbolic complement"})
		}
		b := in.Type().Underlying().(*types.Basic)
		w, s, _ := intInfo(b)
		t := i.tc.Wrap(i.tc.Const(SInt, new(big.Rat).SetInt(new(big.Int).Not(bigOf(x)))), w, s)
		return lower(t, in.Type())
	}
	panic(pathAbort{fmt.Sprintf("unop %v", in.Op)})
}

func (i *Interp) wrapTo(t *Term, typ types.Type) Value {
	b := typ.Underlying().(*types.Basic)
	w, s, ok := intInfo(b)
	if !ok {
		panic(pathAbort{"wrapTo"})
	}
	return lower(i.tc.Wrap(t, w, s), typ)
}

func (i *Interp) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return i.eq(eqType(tx, ty), x, y)
	case token.NEQ:
		return i.not(i.eq(eqType(tx, ty), x, y))
	}
	xs, sx := x.(*Term)
	ys, sy := y.(*Term)
	if sx || sy {
		return i.symBinop(op, tx, x, y, xs, ys)
	}
	if isStr(x) {
		return i.strBinop(op, x, y)
	}
	switch a := x.(type) {
	case int:
		if b, ok := y.(int); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case float32:
		b := y.(float32)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case bool:
		b := y.(bool)
		switch op {
		case token.AND:
			return a && b
		case token.OR:
			return a || b
		}
	}
	// generic integers
	bt, ok := tx.Underlying().(*types.Basic)
	if !ok {
		panic(pathAbort{fmt.Sprintf("binop %v on %v", op, tx)})
	}
	w, signed, ok := intInfo(bt)
	if !ok {
		panic(pathAbort{fmt.Sprintf("binop %v on %v", op, tx)})
	}
	a, b := bigOf(x), bigOf(y)
	r := new(big.Int)
	switch op {
	case token.ADD:
		r.Add(a, b)
	case token.SUB:
		r.Sub(a, b)
	case token.MUL:
		r.Mul(a, b)
	case token.QUO:
		if b.Sign() == 0 {
			rtPanic(i, "integer divide by zero")
		}
		r.Quo(a, b)
	case token.REM:
		if b.Sign() == 0 {
			rtPanic(i, "integer divide by zero")
		}
		r.Rem(a, b)
	case token.AND:
		r.And(a, b)
	case token.OR:
		r.Or(a, b)
	case token.XOR:
		r.Xor(a, b)
	case token.AND_NOT:
		r.AndNot(a, b)
	case token.SHL:
		if b.Sign() < 0 {
			rtPanic(i, "negative shift amount")
		}
		if b.Cmp(big.NewInt(256)) > 0 {
			b = big.NewInt(256)
		}
		r.Lsh(a, uint(b.Uint64()))
	case token.SHR:
		if b.Sign() < 0 {
			rtPanic(i, "negative shift amount")
		}
		if b.Cmp(big.NewInt(256)) > 0 {
			b = big.NewInt(256)
		}
		r.Rsh(a, uint(b.Uint64()))
	case token.LSS:
		return a.Cmp(b) < 0
	case token.LEQ:
		return a.Cmp(b) <= 0
	case token.GTR:
		return a.Cmp(b) > 0
	case token.GEQ:
		return a.Cmp(b) >= 0
	default:
		panic(pathAbort{fmt.Sprintf("binop %v", op)})
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r.Mod(r, m)
	if signed && r.Bit(w-1) == 1 {
		r.Sub(r, m)
	}
	return mkInt(bt.Kind(), r)
}

func eqType(tx, ty types.Type) types.Type {
	// comparing an interface with a nil constant etc.
	if b, ok := tx.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return ty
	}
	return tx
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *Rope:
		return true
	}
	return false
}

func (i *Interp) strBinop(op token.Token, x, y Value) Value {
	if op == token.ADD {
		return ropeCat(x, y)
	}
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if !ok1 || !ok2 {
		panic(pathAbort{"ordering of symbolic strings"})
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(pathAbort{"string op"})
}

func special(v Value) (float64, bool) {
	if f, ok := v.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
		return f, true
	}
	return 0, false
}

func (i *Interp) symBinop(op token.Token, typ types.Type, x, y Value, xs, ys *Term) Value {
	tc := i.tc
	bt := types.Typ[types.Bool]
	// infinities and NaN against a finite symbolic value
	if f, ok := special(x); ok {
		return i.specialOp(op, f, ys, true)
	}
	if f, ok := special(y); ok {
		return i.specialOp(op, f, xs, false)
	}
	a, b := i.toTerm(x), i.toTerm(y)
	switch op {
	case token.LSS:
		return lower(tc.Lt(a, b), bt)
	case token.LEQ:
		return lower(tc.Le(a, b), bt)
	case token.GTR:
		return lower(tc.Lt(b, a), bt)
	case token.GEQ:
		return lower(tc.Le(b, a), bt)
	}
	if a.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return lower(tc.And(a, b), bt)
		case token.OR, token.LOR:
			return lower(tc.Or(a, b), bt)
		}
		panic(pathAbort{"bool op"})
	}
	if a.sort == SReal {
		switch op {
		case token.ADD:
			return lower(tc.Add(a, b), typ)
		case token.SUB:
			return lower(tc.Sub(a, b), typ)
		case token.MUL:
			return lower(tc.Mul(a, b), typ)
		case token.QUO:
			if i.p.Branch(tc.eq0(b)) {
				if i.p.Branch(tc.eq0(a)) {
					return math.NaN()
				}
				if i.p.Branch(tc.le0(a, true)) {
					return math.Inf(-1)
				}
				return math.Inf(1)
			}
			return lower(tc.Div(i.p.simp(a), i.p.simp(b)), typ)
		}
		panic(pathAbort{"float op"})
	}
	switch op {
	case token.ADD:
		return i.wrapTo(tc.Add(a, b), typ)
	case token.SUB:
		return i.wrapTo(tc.Sub(a, b), typ)
	case token.MUL:
		return i.wrapTo(tc.Mul(a, b), typ)
	case token.QUO, token.REM:
		if i.p.Branch(tc.eq0(b)) {
			rtPanic(i, "integer divide by zero")
		}
		if op == token.QUO {
			return i.wrapTo(tc.IDiv(a, b), typ)
		}
		return i.wrapTo(tc.IMod(a, b), typ)
	case token.SHL, token.SHR:
		if b.IsConst() && b.c.Sign() >= 0 && b.c.Num().Cmp(big.NewInt(62)) <= 0 {
			m := tc.Const(SInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(b.c.Num().Uint64()))))
			if op == token.SHL {
				return i.wrapTo(tc.Mul(a, m), typ)
			}
			if a.lo != nil && a.lo.Sign() >= 0 {
				return i.wrapTo(tc.IDiv(a, m), typ)
			}
		}
	case token.AND:
		// x & (2^k - 1) for non-negative x
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			if pr[1].IsConst() && pr[0].lo != nil && pr[0].lo.Sign() >= 0 {
				m := new(big.Int).Add(pr[1].c.Num(), big.NewInt(1))
				if m.Sign() > 0 && new(big.Int).And(m, pr[1].c.Num()).Sign() == 0 {
					return i.wrapTo(tc.IMod(pr[0], tc.Const(SInt, new(big.Rat).SetInt(m))), typ)
				}
			}
		}
	}
	// fall back to concretisation by forking
	av, bv := i.p.concretize(a), i.p.concretize(b)
	return i.binop(op, typ, typ, lower(tc.Const(SInt, av), typ), lower(tc.Const(SInt, bv), typ))
}

func (i *Interp) specialOp(op token.Token, f float64, t *Term, left bool) Value {
	if math.IsNaN(f) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return false
		}
		return f
	}
	pos := f > 0
	switch op {
	case token.LSS, token.LEQ: // f < t (left) : true iff f is -inf
		return left != pos
	case token.GTR, token.GEQ:
		return left == pos
	case token.ADD:
		return f
	case token.SUB:
		if left {
			return f
		}
		return -f
	case token.MUL:
		if i.p.Branch(i.tc.eq0(t)) {
			return math.NaN()
		}
		if i.p.Branch(i.tc.le0(t, true)) {
			return -f
		}
		return f
	case token.QUO:
		if !left {
			return 0.0
		}
		if i.p.Branch(i.tc.le0(t, true)) {
			return -f
		}
		return f
	}
	panic(pathAbort{"special op"})
}

func (i *Interp) conv(tdst, tsrc types.Type, x Value) Value {
	ud, us := tdst.Underlying(), tsrc.Underlying()
	switch d := ud.(type) {
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			return x
		}
		if d.Info()&types.IsString != 0 {
			switch s := us.(type) {
			case *types.Slice:
				xs := x.([]Value)
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					bs := make([]byte, len(xs))
					for k, e := range xs {
						bb, ok := e.(uint8)
						if !ok {
							panic(pathAbort{"symbolic bytes"})
						}
						bs[k] = bb
					}
					return string(bs)
				}
				rs := make([]rune, len(xs))
				for k, e := range xs {
					rs[k] = e.(int32)
				}
				return string(rs)
			case *types.Basic:
				if s.Info()&types.IsInteger != 0 {
					n, ok := asInt64(x)
					if !ok {
						panic(pathAbort{"symbolic rune"})
					}
					return string(rune(n))
				}
				return x
			}
		}
		s, ok := us.(*types.Basic)
		if !ok {
			break
		}
		if t, ok := x.(*Term); ok {
			switch {
			case t.sort == SBool:
				return t
			case d.Info()&types.IsFloat != 0:
				if d.Kind() == types.Float32 {
					panic(pathAbort{"float32 conversion"})
				}
				return lower(i.tc.ToReal(t), tdst)
			case d.Info()&types.IsInteger != 0:
				if t.sort == SReal {
					t = i.tc.Trunc(t)
					w, sg, _ := intInfo(d)
					lo, hi := intRange(w, sg)
					// out-of-range float conversions are implementation defined
					in := i.tc.And(i.tc.Le(i.tc.Const(SInt, lo), t), i.tc.Le(t, i.tc.Const(SInt, hi)))
					if !i.p.Branch(in) {
						panic(pathAbort{"float to int conversion out of range"})
					}
					return lower(t, tdst)
				}
				return i.wrapTo(t, tdst)
			}
			panic(pathAbort{"conv of term"})
		}
		if s.Info()&types.IsComplex != 0 {
			c, _ := x.(complex128)
			if d.Kind() == types.Complex64 {
				return complex64(c)
			}
			return c
		}
		var f float64
		isF := false
		switch v := x.(type) {
		case float64:
			f, isF = v, true
		case float32:
			f, isF = float64(v), true
		}
		if isF {
			switch {
			case d.Kind() == types.Float32:
				return float32(f)
			case d.Info()&types.IsFloat != 0:
				return f
			case d.Info()&types.IsInteger != 0:
				w, sg, _ := intInfo(d)
				if !sg && w == 64 {
					return mkInt(d.Kind(), new(big.Int).SetUint64(uint64(f)))
				}
				return mkInt(d.Kind(), big.NewInt(int64(f)))
			}
		}
		if _, ok := asInt64(x); ok {
			v := bigOf(x)
			if d.Info()&types.IsFloat != 0 {
				fv, _ := new(big.Float).SetInt(v).Float64()
				if d.Kind() == types.Float32 {
					return float32(fv)
				}
				return fv
			}
			w, sg, ok := intInfo(d)
			if ok {
				t := i.tc.Wrap(i.tc.Const(SInt, new(big.Rat).SetInt(v)), w, sg)
				return mkInt(d.Kind(), t.c.Num())
			}
		}
	case *types.Slice:
		s, ok := x.(string)
		if !ok {
			if _, r := x.(*Rope); r {
				panic(pathAbort{"symbolic string to slice"})
			}
			return x
		}
		b := d.Elem().Underlying().(*types.Basic)
		var out []Value
		if b.Kind() == types.Uint8 {
			out = make([]Value, len(s))
			for k := 0; k < len(s); k++ {
				out[k] = s[k]
			}
		} else {
			for _, r := range s {
				out = append(out, r)
			}
		}
		if out == nil {
			out = []Value{}
		}
		return out
	case *types.Pointer:
		return x
	case *types.Array:
		if s, ok := x.([]Value); ok {
			if int64(len(s)) < d.Len() {
				rtPanic(i, "cannot convert slice to array")
			}
			return copyVal(Array(s[:d.Len()]))
		}
	}
	panic(pathAbort{fmt.Sprintf("conversion %v -> %v", tsrc, tdst)})
}
