// Package main is compiled into the virtual directory /repo/zzverif: once by
// the symbolic executor (which replaces the nd* functions by symbolic values)
// and once natively (where they read the values of a counterexample).
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
)

type ndVal struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	V    string `json:"v"`
}
type ndReq struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Inputs  []ndVal `json:"inputs"`
	Repeat  int     `json:"repeat"`
}
type ndRes struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}
type ndStop struct{ status, msg string }

var ndR ndReq
var ndPos int
var ndObs []string

func ndNext(kind, name string) string {
	if ndPos >= len(ndR.Inputs) {
		panic(ndStop{"mismatch", "no value for " + name})
	}
	v := ndR.Inputs[ndPos]
	ndPos++
	if v.Kind != kind || v.Name != name {
		panic(ndStop{"mismatch", fmt.Sprintf("expected %s %s, have %s %s", kind, name, v.Kind, v.Name)})
	}
	return v.V
}

// ndInt is any int in [lo,hi].
func ndInt(name string, lo, hi int) int {
	n, err := strconv.Atoi(ndNext("int", name))
	if err != nil || n < lo || n > hi {
		panic(ndStop{"mismatch", "value of " + name})
	}
	return n
}

// ndID is any uint64.
func ndID(name string) uint64 {
	n, err := strconv.ParseUint(ndNext("u64", name), 10, 64)
	if err != nil {
		panic(ndStop{"mismatch", "value of " + name})
	}
	return n
}

// ndFloat is any (finite) float64.
func ndFloat(name string) float64 {
	f, err := strconv.ParseFloat(ndNext("float", name), 64)
	if err != nil {
		panic(ndStop{"mismatch", "value of " + name})
	}
	return f
}
func ndBool(name string) bool { return ndNext("bool", name) == "true" }

// ndChoose enumerates 0..n-1.
func ndChoose(name string, n int) int {
	k, err := strconv.Atoi(ndNext("choose", name))
	if err != nil || k < 0 || k >= n {
		panic(ndStop{"mismatch", "value of " + name})
	}
	return k
}
func ndTier() int { return ndR.Tier }
func ndAssume(c bool) {
	if !c {
		panic(ndStop{"assume", ""})
	}
}
func ndAssert(c bool, msg string) {
	if !c {
		panic(ndStop{"assert", msg})
	}
}

// fork-free connectives and conditionals
func ndIteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func ndIteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func ndAnd(a, b bool) bool { return a && b }
func ndOr(a, b bool) bool  { return a || b }
func ndNot(a bool) bool    { return !a }

// ndConcretizeI forks until the value is concrete.
func ndConcretizeI(a int) int { return a }

func ndObserve(label string, v any) {
	s := fmt.Sprint(v)
	if f, ok := v.(float64); ok && f == 0 {
		s = "0"
	}
	ndObs = append(ndObs, label+"="+s)
}

// ndText: from now on the harness reads the texts that are made, so that the
// numbers in them must be recognisable.
func ndText(on bool) {}

// ndNumLen is the length of the unsigned number a text starts with, and
// ndNumVal its value.
func ndNumLen(s string) int {
	digits := func(k int) int {
		n := k
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		return n - k
	}
	n := digits(0)
	if n == 0 {
		return 0
	}
	if n < len(s) && s[n] == '.' {
		if d := digits(n + 1); d > 0 {
			n += 1 + d
		}
	}
	if n < len(s) && (s[n] == 'e' || s[n] == 'E') {
		k := n + 1
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		if d := digits(k); d > 0 {
			n = k + d
		}
	}
	return n
}
func ndNumVal(s string) float64 {
	f, _ := strconv.ParseFloat(s[:ndNumLen(s)], 64)
	return f
}
func ndReach(label string)         {}
func ndKnown(id string, cond bool) {}
func ndDebug(v any)                {}

func ndRunOnce() (res ndRes) {
	ndPos, ndObs = 0, nil
	defer func() {
		res.Obs = ndObs
		switch r := recover().(type) {
		case nil:
			res.Status = "ok"
		case ndStop:
			res.Status, res.Msg = r.status, r.msg
		case runtime.Error:
			res.Status, res.Msg = "panic", "runtime error: "+r.Error()
		case error:
			res.Status, res.Msg = "panic", ndErrText(r)
		default:
			res.Status, res.Msg = "panic", fmt.Sprint(r)
		}
	}()
	f := harnessTable[ndR.Harness]
	if f == nil {
		panic(ndStop{"mismatch", "unknown harness"})
	}
	f()
	return
}

func ndErrText(e error) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("%T", e)
		}
	}()
	return fmt.Sprintf("%T: %s", e, e.Error())
}

func main() {
	os.Stderr = nil
	out := os.Stdout
	if err := json.NewDecoder(os.Stdin).Decode(&ndR); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var res ndRes
	for k := 0; k == 0 || k < ndR.Repeat; k++ {
		res = ndRunOnce()
		if res.Status != "ok" {
			break
		}
	}
	b, _ := json.Marshal(res)
	fmt.Fprintln(out, string(b))
}
