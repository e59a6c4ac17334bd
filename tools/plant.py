#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<id>/ from a specification and confirm it.

A specification is a python file defining
  id, prop, needs, breaks, edits = [(file, old, new)...], demo = go source of main()
The change is confirmed in a scratch copy of /repo: the demonstration passes without
it, and with it the module builds, the stable tests pass and the demonstration fails.
The checks never read /verif/seeded.
"""
import json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero when it is broken
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/goenv.sh
exec go run -overlay <(printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$d") ./zzdemo
'''
PRELUDE = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

var _ = fmt.Sprint
var _ = math.Abs
var _ smErrors.NegativeExponentError
var _ symbolic.K
var _ mat.Dense

// expect ends the demonstration when the property is seen broken
func expect(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf("BROKEN: "+format+"\\n", args...)
		os.Exit(1)
	}
}

// newVars makes n variables with the identities 0, 1, ...
func newVars(n int) []symbolic.Variable {
	out := []symbolic.Variable{}
	for i := 0; i < n; i++ {
		v := symbolic.NewVariable()
		v.ID = uint64(i)
		v.Name = fmt.Sprintf("x%d", i)
		out = append(out, v)
	}
	return out
}

// ev evaluates a scalar expression at a point, without using the library
func ev(e any, pt ...float64) float64 {
	switch x := e.(type) {
	case float64:
		return x
	case symbolic.K:
		return float64(x)
	case symbolic.Variable:
		return pt[x.ID]
	case symbolic.Monomial:
		r := x.Coefficient
		for i, v := range x.VariableFactors {
			r *= math.Pow(pt[v.ID], float64(x.Exponents[i]))
		}
		return r
	case symbolic.Polynomial:
		r := 0.0
		for _, m := range x.Monomials {
			r += ev(m, pt...)
		}
		return r
	}
	panic(fmt.Sprintf("ev: %T", e))
}

// ents lists the entries of an expression, without using the library
func ents(e any) [][]any {
	out := [][]any{}
	switch x := e.(type) {
	case symbolic.KVector:
		for _, y := range x {
			out = append(out, []any{y})
		}
	case symbolic.VariableVector:
		for _, y := range x {
			out = append(out, []any{y})
		}
	case symbolic.MonomialVector:
		for _, y := range x {
			out = append(out, []any{y})
		}
	case symbolic.PolynomialVector:
		for _, y := range x {
			out = append(out, []any{y})
		}
	case symbolic.KMatrix:
		for _, r := range x {
			row := []any{}
			for _, y := range r {
				row = append(row, y)
			}
			out = append(out, row)
		}
	case symbolic.VariableMatrix:
		for _, r := range x {
			row := []any{}
			for _, y := range r {
				row = append(row, y)
			}
			out = append(out, row)
		}
	case symbolic.MonomialMatrix:
		for _, r := range x {
			row := []any{}
			for _, y := range r {
				row = append(row, y)
			}
			out = append(out, row)
		}
	case symbolic.PolynomialMatrix:
		for _, r := range x {
			row := []any{}
			for _, y := range r {
				row = append(row, y)
			}
			out = append(out, row)
		}
	default:
		out = append(out, []any{e})
	}
	return out
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9*(1+math.Abs(a)+math.Abs(b)) }

// raised runs f and returns what it panicked with
func raised(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func mono(c float64, fs []symbolic.Variable, es ...int) symbolic.Monomial {
	return symbolic.Monomial{Coefficient: c, VariableFactors: fs, Exponents: es}
}

func poly(ms ...symbolic.Monomial) symbolic.Polynomial {
	return symbolic.Polynomial{Monomials: ms}
}

type V = []symbolic.Variable

'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def main():
    base = json.load(open('/opt/vp/BASELINE.json')) if os.path.exists('/opt/vp/BASELINE.json') else None
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        d = os.path.join(SEED, ns['id'])
        os.makedirs(d, exist_ok=True)
        scratch = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
        r = os.path.join(scratch, 'repo')
        try:
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            demo = PRELUDE + 'func main() {' + ns['demo'] + '}\n'
            open(d + '/main.go', 'w').write(demo)
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            sh('gofmt -w %s/main.go' % d, '/')
            x = sh(d + '/demo.sh', r)
            if x.returncode != 0:
                print(ns['id'], 'DEMO FAILS ON THE UNCHANGED TREE\n', x.stdout[-1500:], x.stderr[-1500:]); continue
            for f, old, new in ns['edits']:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(ns['id'], 'EDIT MATCHES %d TIMES in %s: %r' % (s.count(old), f, old)); break
                open(p, 'w').write(s.replace(old, new))
            else:
                b = sh('. /opt/vp/goenv.sh; go build ./... && go vet ./symbolic/ 2>/dev/null; go build ./...', r)
                if b.returncode: print(ns['id'], 'DOES NOT BUILD', b.stderr[-2000:]); continue
                t = sh('. /opt/vp/goenv.sh; go test -vet=off -count=1 -timeout 10m ./... 2>&1', r)
                if t.returncode: print(ns['id'], 'TESTS FAIL', '\n'.join(l for l in t.stdout.splitlines() if 'FAIL' in l or '_test.go' in l or 'panic' in l)[:2500]); continue
                x = sh(d + '/demo.sh', r)
                if x.returncode == 0: print(ns['id'], 'DEMO PASSES WITH THE CHANGE'); continue
                diff = sh('git diff', r).stdout
                open(d + '/patch.diff', 'w').write(diff)
                json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
                          open(d + '/meta.json', 'w'), indent=1)
                print(ns['id'], 'OK:', (x.stdout + x.stderr).strip().splitlines()[0][:150])
        finally:
            shutil.rmtree(scratch)
main()
