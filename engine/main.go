package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type KnownFile struct {
	Findings []struct {
		ID       string `json:"id"`
		Property string `json:"property"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

var harnessRe = regexp.MustCompile(`(?m)^func (H_(C\d\d)_\w+)\(\)`)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"symgo: error:"}, a...)...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository under test")
	verif := flag.String("verif", "/verif", "this framework")
	only := flag.String("only", "", "regexp of harnesses")
	secs := flag.Float64("secs", 0, "time budget")
	workers := flag.Int("workers", 8, "workers")
	maxPaths := flag.Int("maxpaths", 400000, "paths per harness")
	all := flag.Bool("all", false, "collect violations instead of stopping at the first")
	debug := flag.Bool("debug", false, "debug")
	solver := flag.String("solver", "z3-new", "solver binary")
	replay := flag.String("replay", "", "replay file")
	go123 := flag.String("go123", "/opt/veriftools/go1.23.12/bin", "")
	noEv := flag.Bool("noev", false, "do not write evidence")
	coverFile := flag.String("cover", "", "write the basic blocks that were and were not reached to this file")
	verbose := flag.Bool("v", false, "per-harness report")
	flag.Parse()
	collectAll = *all
	debugSolver = *debug
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	// ---- harness sources (virtual package /repo/zzverif) ----
	hdir := filepath.Join(*verif, "harness")
	ents, err := os.ReadDir(hdir)
	if err != nil {
		fatal(err)
	}
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal(err)
	}
	cleanup := func() { os.RemoveAll(scratch) }
	exit := func(c int) { cleanup(); os.Exit(c) }
	die := func(a ...any) {
		cleanup()
		fatal(a...)
	}
	files := map[string]string{}
	overlay := map[string][]byte{}
	var names []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		p := filepath.Join(hdir, e.Name())
		src, err := os.ReadFile(p)
		if err != nil {
			die(err)
		}
		ms := harnessRe.FindAllSubmatch(src, -1)
		// only the common files and the files of this property are compiled in
		mine := len(ms) == 0
		for _, m := range ms {
			if *prop == "" || string(m[2]) == *prop {
				mine = true
				names = append(names, string(m[1]))
			}
		}
		if !mine && *replay == "" {
			continue
		}
		if *replay != "" {
			for _, m := range ms {
				if *prop != "" && string(m[2]) != *prop {
					names = append(names, string(m[1]))
				}
			}
		}
		files[e.Name()] = p
		overlay[filepath.Join(*repo, "zzverif", e.Name())] = src
	}
	sort.Strings(names)
	reg := "package main\n\nvar harnessTable = map[string]func(){\n"
	for _, n := range names {
		reg += fmt.Sprintf("\t%q: %s,\n", n, n)
	}
	reg += "}\n"
	regf := filepath.Join(scratch, "zz_registry.go")
	os.WriteFile(regf, []byte(reg), 0o644)
	files["zz_registry.go"] = regf
	overlay[filepath.Join(*repo, "zzverif", "zz_registry.go")] = []byte(reg)

	type nb struct {
		n   *Native
		err error
	}
	nch := make(chan nb, 1)
	go func() {
		n, err := buildNative(*repo, *go123, files, scratch)
		nch <- nb{n, err}
	}()

	if *replay != "" {
		r := <-nch
		if r.err != nil {
			die(r.err)
		}
		b, err := os.ReadFile(*replay)
		if err != nil {
			die(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			die(err)
		}
		res := r.n.Run(v.Harness, v.Inputs, v.Tier, 200)
		fmt.Printf("%s: %s: %s\n  inputs: %s\n", v.Harness, res.Status, res.Msg, v.Readable)
		if res.Status == "assert" || res.Status == "panic" {
			exit(1)
		}
		exit(0)
	}

	// ---- load and build SSA from the current source ----
	os.Setenv("PATH", *go123+":"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repo, Env: goEnv(*go123), BuildFlags: []string{"-tags=noasm"}, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./zzverif")
	if err != nil {
		die(err)
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		die("load errors")
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: sp, main: sp[0], modPath: "github.com/MatProGo-dev/SymbolicMath.go", sizes: types.SizesFor("gc", "amd64")}
	P.canonM.SetHasher(typeutil.MakeHasher())
	P.rtErr = P.canon(prog.ImportedPackage("runtime").Type("errorString").Type())
	if ep := prog.ImportedPackage("errors"); ep != nil {
		P.errStr = P.canon(types.NewPointer(ep.Type("errorString").Type()))
	}
	if fp := prog.ImportedPackage("fmt"); fp != nil && fp.Type("wrapError") != nil {
		P.wrapErr = P.canon(types.NewPointer(fp.Type("wrapError").Type()))
	}
	tLoad := time.Since(t0)

	r := <-nch
	if r.err != nil {
		die(r.err)
	}

	// ---- explore ----
	budget := *secs
	ti := 0
	if *tier == "thorough" {
		ti = 1
	}
	if budget == 0 {
		budget = 260
		if ti == 1 {
			budget = 720
		}
	}
	ex := &Explorer{P: P, deadline: time.Now().Add(time.Duration(budget * float64(time.Second))), maxPaths: *maxPaths, maxSteps: 20_000_000,
		workers: *workers, solverBin: *solver, qTimeout: 4000, nat: r.n, tier: ti, valPer: 8, debug: *debug, knownIDs: map[string]bool{}}
	if ti == 1 {
		ex.valPer = 40
		ex.qTimeout = 15000
	}
	var kf KnownFile
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			die("known_findings.json", err)
		}
	}
	for _, k := range kf.Findings {
		ex.knownIDs[k.ID] = true
	}
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	for _, n := range names {
		if onlyRe != nil && !onlyRe.MatchString(n) {
			continue
		}
		f := sp[0].Func(n)
		if f == nil {
			die("harness not found", n)
		}
		ex.hs = append(ex.hs, &HarnessRun{name: n, fn: f, ex: ex})
	}
	if len(ex.hs) == 0 {
		die("no harness for", *prop)
	}
	ex.Run()

	// ---- report ----
	var oblig, syn, paths, complete, aborted, dead, unk, valid, mism, left, unconf int
	var steps, decs int64
	abortWhy := map[string]int{}
	var harn []map[string]any
	var samples []any
	var vacuous []string
	for _, h := range ex.hs {
		oblig += h.oblig
		syn += h.obligSyn
		paths += h.paths
		complete += h.complete
		aborted += h.aborted
		dead += h.dead
		unk += h.unknown
		valid += h.validated
		mism += h.valMismatch
		left += len(h.stack) + h.dropped
		unconf += len(h.unconfirmed)
		steps += h.steps
		decs += h.decisions
		for k, v := range h.abortWhy {
			abortWhy[h.name+": "+k] += v
		}
		if h.reached["end"] == 0 && !ex.stop {
			vacuous = append(vacuous, h.name)
		}
		hm := map[string]any{"name": h.name, "paths": h.paths, "infeasible": h.dead, "incomplete": h.aborted, "obligations": h.oblig,
			"syntactic": h.obligSyn, "unexplored": len(h.stack) + h.dropped, "validated": h.validated, "reached": h.reached}
		if h.unknown > 0 {
			hm["inconclusive_queries"] = h.unknown
		}
		harn = append(harn, hm)
		for _, s := range h.sample {
			if len(samples) < 12 {
				samples = append(samples, h.name+": "+s)
			}
		}
		if *verbose {
			fmt.Printf("%-44s paths %6d dead %5d abort %5d oblig %6d (syn %6d) unk %d left %d valid %d/%d mism %d used %.1fs done@%.1fs reach %v\n", h.name, h.paths, h.dead, h.aborted, h.oblig, h.obligSyn, h.unknown,
				len(h.stack)+h.dropped, h.validated-h.valMismatch, h.validated, h.valMismatch, h.used.Seconds(), h.doneAt, h.reached)
			for k, v := range h.abortWhy {
				fmt.Printf("      abort %d x %s\n", v, k)
			}
			for _, m := range h.mismatch {
				fmt.Println("      MISMATCH", m)
			}
			for _, u := range h.unconfirmed {
				fmt.Println("      UNCONFIRMED", u.Msg, u.Readable, u.Native)
			}
		}
	}
	var funcs []string
	nb1, nb2 := 0, 0
	for f, c := range ex.cover {
		hit := 0
		for _, b := range c {
			if b {
				hit++
			}
		}
		if hit > 0 {
			funcs = append(funcs, strings.ReplaceAll(f.String(), P.modPath+"/", ""))
			nb1 += hit
			nb2 += len(c)
		}
	}
	if *coverFile != "" {
		writeCover(*coverFile, ex.cover)
	}
	sort.Strings(funcs)
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	wall := time.Since(t0).Seconds()
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{
		"states": decs, "transitions": steps, "traces_validated_against_impl": valid - mism, "samples": samples,
		"paths": paths, "paths_complete": complete, "paths_infeasible": dead, "paths_incomplete": aborted, "incomplete_reasons": abortWhy,
		"paths_unexplored": left, "obligations": oblig, "obligations_closed_by_normal_form": syn,
		"solver_queries": ex.solverQ, "solver_time_s": math.Round(ex.solverT.Seconds()*100) / 100, "solver_unknown": ex.solverUnk,
		"inconclusive": unk, "unconfirmed_counterexamples": unconf, "native_runs": r.n.runs, "translation_mismatches": mism,
		"functions_encoded": funcs, "basic_blocks_encoded": nb1, "basic_blocks_of_those_functions": nb2,
		"harnesses": harn, "load_and_translate_s": math.Round(tLoad.Seconds()*100) / 100,
		"exhaustive_within_bounds": left == 0 && aborted == 0 && unk == 0 && !ex.stop,
		"unreached_witnesses":      vacuous,
		"rule":                     "states = decision points of the symbolic execution tree, transitions = SSA instructions executed symbolically; every obligation is decided for all values on its path",
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": math.Round(wall*100) / 100,
		"violations": len(ex.viol), "assumptions": assumptions}
	if !*noEv && *prop != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644); err != nil {
			die(err)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d infeasible, %d incomplete, %d unexplored), %d obligations (%d by normal form), %d queries %.1fs solver, %d inconclusive, %d validated (%d mismatches), %d unconfirmed, %.1fs\n",
		*prop, *tier, len(ex.hs), paths, dead, aborted, left, oblig, syn, ex.solverQ, ex.solverT.Seconds(), unk, valid, mism, unconf, wall)
	for _, n := range vacuous {
		fmt.Println("note: reachability witness not reached in", n)
	}
	for _, k := range kf.Findings {
		if k.Property == *prop {
			if hits := ex.known[k.ID]; len(hits) > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			}
		}
	}
	if len(ex.viol) > 0 {
		sort.Slice(ex.viol, func(a, b int) bool { return ex.viol[a].Harness < ex.viol[b].Harness })
		for k, v := range ex.viol {
			if k > 0 && !*all {
				break
			}
			path := filepath.Join(*verif, "evidence", fmt.Sprintf("%s-replay-%d.json", *prop, k))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("  %s: %s\n    inputs: %s\n    native: %s\n", v.Harness, v.Msg, v.Readable, v.Native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
		exit(1)
	}
	exit(0)
}

var assumptions = []string{
	"go/ssa (x/tools v0.52.0, built with -tags=noasm so gonum's pure-Go kernels are the ones encoded) translates the source faithfully; the executor's semantics are checked against native runs of the compiled code on solver models (traces_validated_against_impl)",
	"float64 values are encoded as exact reals: results hold for every input on which the float64 operations performed incur no rounding, overflow, NaN or infinity; rounding is outside the claim",
	"machine integers are encoded as mathematical integers with an explicit wrap wherever the interval analysis cannot exclude overflow",
	"expression sizes, lengths and shapes are bounded as listed per harness in DESIGN.md; coefficients, exponents and variable identities are symbolic within their declared ranges",
	"fmt/strings/strconv/sort/sync helpers are modelled by the executor; append capacity follows the Go 1.23 runtime's growth rule",
	"map iteration order: the first iteration over a map explores every order for up to 3 entries (rotations and reversal for larger ones); later iterations over it repeat that order, with one change of order at any point of a path",
}

// writeCover lists every basic block of the functions that were encoded: its
// function, the line of its first instruction with a position, and whether it
// was reached.
func writeCover(file string, cover map[*ssa.Function][]bool) {
	var lines []string
	for f, c := range cover {
		for i, hit := range c {
			pos := ""
			for _, in := range f.Blocks[i].Instrs {
				if in.Pos().IsValid() {
					pos = f.Prog.Fset.Position(in.Pos()).String()
					break
				}
			}
			lines = append(lines, fmt.Sprintf("%s\t%d\t%v\t%s", f.String(), i, hit, pos))
		}
	}
	sort.Strings(lines)
	os.WriteFile(file, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
}
