package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type WorkItem struct {
	h      *HarnessRun
	prefix []Decision
	model  map[string]*big.Rat
}

type Violation struct {
	Harness   string   `json:"harness"`
	Msg       string   `json:"msg"`
	Inputs    []NatVal `json:"inputs"`
	Tier      int      `json:"tier"`
	Native    string   `json:"native_output"`
	Confirmed bool     `json:"confirmed"`
	Readable  string   `json:"readable"`
}

type HarnessRun struct {
	name  string
	fn    *ssa.Function
	ex    *Explorer
	stack []*WorkItem
	// statistics
	paths, dead, aborted, complete int
	oblig, obligSyn                int
	steps                          int64
	decisions                      int64
	abortWhy                       map[string]int
	reached                        map[string]int
	unknown                        int
	used                           time.Duration
	active                         int
	dropped                        int
	validated, valMismatch         int
	mismatch                       []string
	fallbackRuns                   int
	unconfirmed                    []Violation
	sample                         []string
	doneAt                         float64
}

type Explorer struct {
	P         *Program
	mu        sync.Mutex
	cond      *sync.Cond
	hs        []*HarnessRun
	deadline  time.Time
	maxPaths  int
	maxSteps  int
	workers   int
	solverBin string
	qTimeout  int
	nat       *Native
	tier      int
	valPer    int
	stop      bool
	viol      []Violation
	known     map[string][]Violation // known finding id -> hits
	knownIDs  map[string]bool
	cover     map[*ssa.Function][]bool
	solverQ   int
	solverT   time.Duration
	solverUnk int
	start     time.Time
	debug     bool
	valWG     sync.WaitGroup
	valSem    chan struct{}
	idle      int
}

type Worker struct {
	ex     *Explorer
	id     int
	tc     *TermCtx
	in     *Interp
	lin    *Solver
	exact  *Solver
	item   *WorkItem
	cur    *HarnessRun
	linQ   int
	exactQ int
}

func (ex *Explorer) Run() {
	ex.start = time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.known = map[string][]Violation{}
	ex.cover = map[*ssa.Function][]bool{}
	ex.valSem = make(chan struct{}, ex.workers)
	for _, h := range ex.hs {
		h.stack = []*WorkItem{{h: h, model: map[string]*big.Rat{}}}
		h.abortWhy = map[string]int{}
		h.reached = map[string]int{}
	}
	var wg sync.WaitGroup
	for k := 0; k < ex.workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &Worker{ex: ex, id: k}
			w.loop()
		}(k)
	}
	// wake sleepers at the deadline
	t := time.AfterFunc(time.Until(ex.deadline), func() { ex.mu.Lock(); ex.cond.Broadcast(); ex.mu.Unlock() })
	wg.Wait()
	t.Stop()
	ex.valWG.Wait()
}

func (w *Worker) reset() {
	if w.lin != nil {
		w.closeSolvers()
	}
	w.tc = NewTermCtx()
	if w.in == nil {
		w.in = NewInterp(w.ex.P, w.tc, w)
	}
	w.in.tc = w.tc
	w.lin = NewSolver(w.tc, true, w.ex.qTimeout, w.ex.solverBin)
	w.exact = NewSolver(w.tc, false, w.ex.qTimeout, w.ex.solverBin)
}

func (w *Worker) closeSolvers() {
	w.ex.mu.Lock()
	for _, s := range []*Solver{w.lin, w.exact} {
		w.ex.solverQ += s.Q
		w.ex.solverT += s.T
		w.ex.solverUnk += s.Unk
	}
	w.ex.mu.Unlock()
	w.lin.Close()
	w.exact.Close()
}

// pick chooses the next work item: stay with the current harness for solver
// locality unless another one is far behind in time used.
func (w *Worker) pick() *WorkItem {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) {
			return nil
		}
		var best *HarnessRun
		for _, h := range ex.hs {
			if len(h.stack) == 0 {
				continue
			}
			if best == nil || h.used < best.used {
				best = h
			}
		}
		if best != nil {
			if w.cur != nil && len(w.cur.stack) > 0 && w.cur.used < best.used+3*time.Second {
				best = w.cur
			}
			n := len(best.stack)
			it := best.stack[n-1]
			best.stack = best.stack[:n-1]
			best.active++
			w.cur = best
			return it
		}
		busy := false
		for _, h := range ex.hs {
			if h.active > 0 {
				busy = true
			}
		}
		if !busy {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (w *Worker) push(it *WorkItem) {
	w.ex.mu.Lock()
	defer w.ex.mu.Unlock()
	if len(it.h.stack) > 200000 || it.h.paths > w.ex.maxPaths {
		it.h.dropped++
		return
	}
	it.h.stack = append(it.h.stack, it)
	w.ex.cond.Signal()
}

func (w *Worker) loop() {
	w.reset()
	defer func() {
		w.closeSolvers()
		w.ex.mu.Lock()
		for fn, fi := range w.in.fns {
			if fi.inRepo && fi.cover != nil {
				c := w.ex.cover[fn]
				if c == nil {
					c = make([]bool, len(fi.cover))
					w.ex.cover[fn] = c
				}
				for k, b := range fi.cover {
					c[k] = c[k] || b
				}
			}
		}
		w.ex.mu.Unlock()
	}()
	for {
		it := w.pick()
		if it == nil {
			return
		}
		if w.tc.n > 400000 {
			w.reset()
		}
		t0 := time.Now()
		w.runItem(it)
		w.ex.mu.Lock()
		it.h.used += time.Since(t0)
		it.h.active--
		if it.h.active == 0 && len(it.h.stack) == 0 {
			it.h.doneAt = time.Since(w.ex.start).Seconds()
		}
		w.ex.cond.Broadcast()
		w.ex.mu.Unlock()
	}
}

func (w *Worker) newPath(it *WorkItem) *Path {
	p := &Path{i: w.in, w: w, tc: w.tc, h: it.h, prefix: it.prefix, known: map[*Term]bool{}, subst: map[*Term]*Term{}, memo: map[*Term]*Term{},
		maxSteps: w.ex.maxSteps, reached: map[string]bool{}}
	if it.model != nil {
		p.model, p.modelOK = Model{}, true
	}
	return p
}

func (w *Worker) runItem(it *WorkItem) {
	w.item = it
	for try := 0; try < 20; try++ {
		if !w.runOnce(it) {
			return
		}
	}
	w.ex.mu.Lock()
	it.h.aborted++
	it.h.abortWhy["restart limit"]++
	w.ex.mu.Unlock()
}

func (w *Worker) runOnce(it *WorkItem) (restart bool) {
	p := w.newPath(it)
	w.in.p = p
	w.in.depth = 0
	h := it.h
	status := "complete"
	why := ""
	func() {
		defer func() {
			e := recover()
			switch x := e.(type) {
			case nil:
			case pathAbort:
				status, why = "aborted", x.why
			case pathDead:
				status = "dead"
			case pathRestart:
				status = "restart"
			case goPanic:
				if w.in.initing {
					status, why = "aborted", "panic in package initialisation"
					return
				}
				status = "panic"
				why = w.panicText(x)
			default:
				status, why = "aborted", fmt.Sprintf("engine: %v", e)
				if w.ex.debug {
					fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\n%s\n", e, debug.Stack())
				}
			}
		}()
		w.in.initing = true
		w.in.resetGlobals()
		w.in.initing = false
		w.in.callSSA(nil, h.fn, nil, nil)
	}()
	w.in.initing = false
	if status == "restart" {
		return true
	}
	if status == "panic" {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(pathDead); ok {
						return
					}
					if a, ok := e.(pathAbort); ok {
						why = a.why
						return
					}
					panic(e)
				}
			}()
			w.countObligation(p, false)
			w.uncaught(p, why)
		}()
	}
	w.ex.mu.Lock()
	h.paths++
	h.steps += int64(p.steps)
	h.decisions += int64(len(p.trace) - len(p.prefix) + 1)
	switch status {
	case "dead":
		h.dead++
	case "aborted":
		h.aborted++
		h.abortWhy[why]++
	default:
		h.complete++
	}
	for r := range p.reached {
		h.reached[r]++
	}
	nval := h.validated
	np := h.complete
	w.ex.mu.Unlock()
	if status == "complete" && !w.ex.stop && (nval < w.ex.valPer/2 || (nval < w.ex.valPer && np%7 == 3)) {
		w.validate(p)
	}
	if status == "aborted" && !w.ex.stop {
		w.fallback(p, why)
	}
	return false
}

func (w *Worker) panicText(x goPanic) string {
	itf, ok := x.v.(Iface)
	if !ok || itf.t == nil {
		return "panic"
	}
	defer func() { recover() }()
	return "panic(" + itf.t.String() + ")"
}

func (w *Worker) addUnknown(p *Path) {
	w.ex.mu.Lock()
	p.h.unknown++
	w.ex.mu.Unlock()
}

func (w *Worker) countObligation(p *Path, syn bool) {
	w.ex.mu.Lock()
	p.h.oblig++
	if syn {
		p.h.obligSyn++
	}
	w.ex.mu.Unlock()
}

func anyNonlinear(ts ...[]*Term) bool {
	for _, l := range ts {
		for _, t := range l {
			if t.nonlinear() {
				return true
			}
		}
	}
	return false
}

// solve decides pc && lits.
func (w *Worker) solve(p *Path, lits []*Term, raw []string) (SatRes, Model) {
	var m Model
	want := func(mm Model) []*Term { m = mm; return p.vars }
	nonlin := anyNonlinear(p.pc, lits)
	r := w.lin.CheckRaw(p.pc, lits, raw, want)
	if r == Unsat {
		return Unsat, nil
	}
	if r == Sat && !nonlin {
		return Sat, m
	}
	if r == Sat && m != nil && p.holdsInModel(m, lits...) {
		return Sat, m
	}
	m = nil
	if nonlin {
		r = w.exact.CheckRaw(p.pc, lits, raw, want)
	}
	if r == Sat {
		if m != nil && !p.holdsInModel(m, lits...) {
			m = nil // algebraic values
		}
		return Sat, m
	}
	if r == Unsat {
		return Unsat, nil
	}
	return Unknown, nil
}

// nice constrains every real variable to a value exactly representable and
// small, so that floating-point replay is exact.
func (w *Worker) nice(p *Path, den int64, bound int64) []string {
	var raw []string
	for _, v := range p.vars {
		if v.sort != SReal {
			continue
		}
		k := "k_" + v.name
		for _, s := range []*Solver{w.lin, w.exact} {
			if !s.decl[k] {
				s.decl[k] = true
				s.send("(declare-const " + k + " Int)\n")
			}
			s.declareVar(v)
		}
		raw = append(raw, fmt.Sprintf("(assert (and (= %s (* (to_real %s) (/ 1.0 %d.0))) (<= (- %d) %s) (<= %s %d)))", v.name, k, den, bound, k, k, bound))
	}
	return raw
}

func (w *Worker) niceModel(p *Path, lits []*Term, quick bool) (Model, bool) {
	type att struct{ den, bound int64 }
	atts := []att{{1, 12}, {1, 1 << 16}, {4, 1 << 12}, {1 << 30, 1 << 45}}
	if quick {
		atts = atts[:3]
	}
	hasReal := false
	for _, v := range p.vars {
		if v.sort == SReal {
			hasReal = true
		}
	}
	if !hasReal {
		atts = atts[:1]
	}
	for _, a := range atts {
		r, m := w.solve(p, lits, w.nice(p, a.den, a.bound))
		if r == Sat && m != nil {
			return m, true
		}
	}
	return nil, false
}

func (w *Worker) inputsOf(p *Path, m Model) ([]NatVal, string, bool) {
	var out []NatVal
	var rd []string
	for _, in := range p.inputs {
		if in.T == nil {
			out = append(out, NatVal{Kind: in.Kind, Name: in.Name, V: in.C})
			if in.Kind != "choose" || in.C != "0" {
				rd = append(rd, in.Name+"="+in.C)
			}
			continue
		}
		v, ok := w.tc.Eval(in.T, m)
		if !ok {
			return nil, "", false
		}
		s := ""
		switch in.Kind {
		case "float":
			f, _ := v.Float64()
			s = fmt.Sprintf("%b", f)
			s = fmt.Sprintf("%x", f)
			rd = append(rd, fmt.Sprintf("%s=%v", in.Name, f))
		case "bool":
			s = "false"
			if v.Sign() != 0 {
				s = "true"
			}
			rd = append(rd, in.Name+"="+s)
		default:
			s = v.Num().String()
			rd = append(rd, in.Name+"="+s)
		}
		out = append(out, NatVal{Kind: in.Kind, Name: in.Name, V: s})
	}
	return out, strings.Join(rd, " "), true
}

func (w *Worker) candidate(p *Path, m Model, msg string, repeat int) (Violation, bool) {
	ins, rd, ok := w.inputsOf(p, m)
	if !ok {
		return Violation{}, false
	}
	v := Violation{Harness: p.h.name, Msg: msg, Inputs: ins, Tier: w.ex.tier, Readable: rd}
	res := w.ex.nat.Run(p.h.name, ins, w.ex.tier, repeat)
	v.Native = res.Status + ": " + res.Msg
	v.Confirmed = res.Status == "assert" || res.Status == "panic"
	if v.Confirmed && res.Msg != "" {
		v.Msg = res.Msg
	}
	return v, v.Confirmed
}

// violation handles a satisfiable negated assertion: build a representable
// model, replay natively, report only what reproduces.
func (w *Worker) violation(p *Path, goal *Term, m Model, msg string) {
	w.confirm(p, goal, m, msg, true)
}

func (w *Worker) tryUnknown(p *Path, goal *Term, msg string) { w.confirm(p, goal, nil, msg, false) }

func (w *Worker) uncaught(p *Path, why string) {
	// known findings may list crashes, too
	goal := w.tc.T
	if len(p.kconds) > 0 {
		var ks []*Term
		for _, k := range p.kconds {
			ks = append(ks, k.c)
		}
		goal = p.simp(w.tc.Not(w.tc.Or(ks...)))
	}
	r := Unsat
	var m Model
	if !goal.IsFalse() {
		r, m = w.solve(p, []*Term{goal}, nil)
	}
	if r != Unsat {
		w.confirm(p, goal, m, "uncaught "+why, r == Sat)
		return
	}
	if len(p.kconds) > 0 {
		if p.modelOK {
			m = p.model
		}
		var ids []string
		for _, k := range p.kconds {
			ids = append(ids, k.id)
		}
		w.knownHit(p, w.tc.T, m, ids, "uncaught "+why)
	}
}

func (w *Worker) confirm(p *Path, goal *Term, m Model, msg string, definite bool) {
	if os.Getenv("SYMGO_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "CANDIDATE %s: %s\n  goal %s\n", p.h.name, msg, w.tc.SMT(goal, false))
		for _, c := range p.pc {
			fmt.Fprintf(os.Stderr, "   pc %s\n", w.tc.SMT(c, false))
		}
	}
	w.ex.mu.Lock()
	n := len(p.h.unconfirmed)
	w.ex.mu.Unlock()
	if n > 12 {
		return
	}
	var last Violation
	var got bool
	tried := map[string]bool{}
	try := func(mm Model) bool {
		if mm == nil {
			return false
		}
		_, rd, ok := w.inputsOf(p, mm)
		if !ok || tried[rd] {
			return false
		}
		tried[rd] = true
		v, ok := w.candidate(p, mm, msg, 60)
		last, got = v, true
		if ok {
			w.report(v)
		}
		return ok
	}
	type att struct{ den, bound int64 }
	for _, a := range []att{{1, 12}, {1, 1 << 16}, {4, 1 << 12}, {1 << 30, 1 << 45}} {
		r, mm := w.solve(p, []*Term{goal}, w.nice(p, a.den, a.bound))
		if r == Sat && try(mm) {
			return
		}
	}
	if try(m) {
		return
	}
	if p.modelOK && m == nil && goal.IsTrue() && try(p.model) {
		return
	}
	if definite {
		if traceBranches {
			fmt.Fprintln(os.Stderr, "UNCONFIRMED "+last.Readable+"\n  "+strings.Join(p.log, "\n  "))
		}
		w.ex.mu.Lock()
		if !got {
			last = Violation{Harness: p.h.name, Msg: msg + " (no representable model)"}
		}
		p.h.unconfirmed = append(p.h.unconfirmed, last)
		w.ex.mu.Unlock()
	}
}

func (w *Worker) report(v Violation) {
	w.ex.mu.Lock()
	defer w.ex.mu.Unlock()
	w.ex.viol = append(w.ex.viol, v)
	if !collectAll || len(w.ex.viol) > 400 {
		w.ex.stop = true
	}
	if collectAll {
		n := 0
		for _, x := range w.ex.viol {
			if x.Harness == v.Harness {
				n++
			}
		}
		if n > 3 {
			for _, h := range w.ex.hs {
				if h.name == v.Harness {
					h.stack = nil
				}
			}
		}
	}
	w.ex.cond.Broadcast()
}

var collectAll bool

func (w *Worker) knownHit(p *Path, goal *Term, m Model, ids []string, msg string) {
	w.ex.mu.Lock()
	todo := false
	for _, id := range ids {
		if len(w.ex.known[id]) == 0 {
			todo = true
		}
	}
	w.ex.mu.Unlock()
	if !todo {
		return
	}
	mm, ok := w.niceModel(p, []*Term{goal}, false)
	if !ok {
		mm = m
	}
	if mm == nil {
		return
	}
	v, ok := w.candidate(p, mm, msg, 60)
	if !ok {
		return
	}
	w.ex.mu.Lock()
	for _, id := range ids {
		w.ex.known[id] = append(w.ex.known[id], v)
	}
	w.ex.mu.Unlock()
}

// validate replays a model of a completed path natively and compares every
// observed value (translator validation).
func (w *Worker) validate(p *Path) {
	m, ok := w.niceModel(p, nil, true)
	if !ok {
		return
	}
	ins, rd, ok := w.inputsOf(p, m)
	if !ok {
		return
	}
	type exp struct{ label, val string }
	var want []exp
	for _, o := range p.obs {
		s, ok := w.obsString(o, m)
		if !ok {
			return
		}
		want = append(want, exp{o.Label, s})
	}
	isKnown := false
	for _, k := range p.kconds {
		if v, ok := w.tc.Eval(k.c, m); !ok || v.Sign() != 0 {
			isKnown = true
		}
	}
	w.ex.valWG.Add(1)
	w.ex.valSem <- struct{}{}
	h := p.h
	go func() {
		defer w.ex.valWG.Done()
		defer func() { <-w.ex.valSem }()
		res := w.ex.nat.Run(h.name, ins, w.ex.tier, 1)
		v := Violation{Harness: h.name, Msg: res.Msg, Inputs: ins, Tier: w.ex.tier, Readable: rd, Native: res.Status + ": " + res.Msg, Confirmed: true}
		bad := ""
		switch res.Status {
		case "ok":
			if len(res.Obs) != len(want) {
				bad = fmt.Sprintf("observed %d values, expected %d", len(res.Obs), len(want))
			} else {
				for k, o := range res.Obs {
					if o != want[k].label+"="+want[k].val {
						bad = fmt.Sprintf("native %s, symbolic %s=%s", o, want[k].label, want[k].val)
						break
					}
				}
			}
		case "assert", "panic":
			if !isKnown {
				w.report(v)
			}
			return
		default:
			bad = "native status " + res.Status + " " + res.Msg
		}
		w.ex.mu.Lock()
		defer w.ex.mu.Unlock()
		h.validated++
		if len(h.sample) < 2 {
			h.sample = append(h.sample, rd)
		}
		if bad != "" {
			h.valMismatch++
			if len(h.mismatch) < 5 {
				h.mismatch = append(h.mismatch, bad+" ["+rd+"]")
			}
		}
	}()
}

// fallback: a path the encoder could not finish is at least executed natively
// on one model of its prefix.
func (w *Worker) fallback(p *Path, why string) {
	w.ex.mu.Lock()
	if p.h.fallbackRuns > 40 {
		w.ex.mu.Unlock()
		return
	}
	p.h.fallbackRuns++
	w.ex.mu.Unlock()
	m, ok := w.niceModel(p, nil, true)
	if !ok {
		return
	}
	for _, k := range p.kconds {
		if v, ok := w.tc.Eval(k.c, m); !ok || v.Sign() != 0 {
			return
		}
	}
	v, ok := w.candidate(p, m, "native run on a path outside the encoding", 3)
	if ok {
		w.report(v)
	}
}

func (w *Worker) obsString(o Obs, m Model) (string, bool) {
	switch x := o.V.(type) {
	case *Term:
		r, ok := w.tc.Eval(x, m)
		if !ok {
			return "", false
		}
		switch x.sort {
		case SBool:
			return fmt.Sprint(r.Sign() != 0), true
		case SInt:
			return r.Num().String(), true
		}
		f, exact := r.Float64()
		if !exact {
			return "", false
		}
		return fmtFloat(f), true
	case float64:
		return fmtFloat(x), true
	case *Rope:
		s := ""
		for _, sg := range x.segs {
			if sg.t == nil {
				s += sg.s
				continue
			}
			r, ok := w.tc.Eval(sg.t, m)
			if !ok {
				return "", false
			}
			verb := sg.verb
			if !strings.HasPrefix(verb, "%") {
				verb = "%" + verb
			}
			if sg.t.sort == SInt {
				s += fmt.Sprintf(verb, r.Num())
			} else {
				f, _ := r.Float64()
				if f == 0 {
					f = 0
				}
				s += fmt.Sprintf(verb, f)
			}
		}
		return s, true
	}
	return fmt.Sprint(o.V), true
}

func fmtFloat(f float64) string {
	if f == 0 {
		f = 0 // drop the sign of zero
		return "0"
	}
	return fmt.Sprintf("%v", f)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
