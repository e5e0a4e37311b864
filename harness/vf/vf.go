// Package vf is the harness library. A harness is an ordinary Go function that
// calls the real code on inputs obtained from this package. The symbolic engine
// interprets the harness with these functions as intrinsics (inputs become solver
// variables, Assert becomes a verification condition); compiled natively, the same
// harness reads concrete inputs from a model file and replays one execution.
package vf

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
)

var model map[string]string
var missing int

type failure struct{ label string }
type assumption struct{ what string }

var fails []string

func lookup(name string) (string, bool) {
	s, ok := model[name]
	return s, ok
}

func parse(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("vf: bad model value " + s)
	}
	return f
}

// Float is an arbitrary finite number in [lo,hi].
func Float(name string, lo, hi float64) float64 {
	if s, ok := lookup(name); ok {
		return parse(s)
	}
	missing++
	switch {
	case lo == hi:
		return lo
	case math.IsInf(lo, 0) && math.IsInf(hi, 0):
		return 0.5
	case math.IsInf(lo, 0):
		return hi - 0.5
	case math.IsInf(hi, 0):
		return lo + 0.5
	}
	return lo + (hi-lo)*0.375
}

// Float32 is an arbitrary float32 (any bit pattern in FP mode).
func Float32(name string, lo, hi float64) float32 { return float32(Float(name, lo, hi)) }

// FloatAny is an arbitrary float64 including NaN, infinities and signed zeros.
func FloatAny(name string) float64 {
	if s, ok := lookup(name); ok {
		return parse(s)
	}
	return 0.5
}

// Angle is an arbitrary angle in radians; the engine represents it by its sine and cosine.
func Angle(name string) float64 {
	if s, ok := lookup(name); ok {
		return parse(s)
	}
	return 0.5
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	if s, ok := lookup(name); ok {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic("vf: bad model value " + s)
		}
		return n
	}
	return lo
}

// Byte is an arbitrary byte.
func Byte(name string) byte {
	if s, ok := lookup(name); ok {
		n, _ := strconv.Atoi(s)
		return byte(n)
	}
	return 0
}

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	s, ok := lookup(name)
	return ok && s == "true"
}

// Unit3 is an arbitrary vector of unit length.
func Unit3(name string) (x, y, z float64) {
	s, ok := lookup(name + ".x")
	if !ok {
		return 0.36, 0.48, 0.8
	}
	x = parse(s)
	y = parse(model[name+".y"])
	z = parse(model[name+".z"])
	l := math.Sqrt(x*x + y*y + z*z)
	if l == 0 {
		return 0.36, 0.48, 0.8
	}
	return x / l, y / l, z / l
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumption{"Assume"})
	}
}

// AssumeEq restricts the inputs to a==b (up to rounding when replayed).
func AssumeEq(a, b float64) {
	if !Eq(a, b) {
		panic(assumption{"AssumeEq"})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		fails = append(fails, label)
	}
}

const tol = 1e-6

// Eq is equality; exact for the solver, tolerant of rounding in replay.
func Eq(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

// Near is |a-b| <= tol.
func Near(a, b, tol float64) bool { return a == b || math.Abs(a-b) <= tol }

// Le is a<=b; exact for the solver, tolerant of rounding in replay.
func Le(a, b float64) bool {
	return a <= b || a <= b+tol*(1+math.Abs(a)+math.Abs(b))
}

// Lt is a<b; exact for the solver, tolerant of rounding in replay.
func Lt(a, b float64) bool {
	return a < b || a < b+tol*(1+math.Abs(a)+math.Abs(b))
}

// And, Or and Imp combine conditions without branching.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Imp(a, b bool) bool { return !a || b }

// IteF is c ? a : b without branching.
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// Finite reports that x is neither NaN nor infinite.
func Finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Observe records a value; witnesses of explored paths are replayed natively and
// the observed values compared with the solver's model.
func Observe(name string, x float64)  { obs[name] = x }
func ObserveInt(name string, x int)   { obs[name] = float64(x) }
func ObserveBool(name string, x bool) { obs[name] = b2f(x) }
func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// Reach marks a program point whose reachability is reported.
func Reach(label string) {}

// Symbolic reports whether the harness runs in the symbolic engine.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// FltTok and IntTok render a number as text.
func FltTok(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
func IntTok(x int) string     { return strconv.Itoa(x) }

// Conc splits cases on the value of x.
func Conc(x int) int { return x }

// Yield is a scheduling point.
func Yield() {}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(assumption); ok {
				panic(a)
			}
			p = true
		}
	}()
	f()
	return false
}

var obs = map[string]float64{}

type result struct {
	Fails      []string
	Panic      string
	AssumeFail string
	Obs        map[string]string
	Done       bool
	Missing    int
}

// Main runs the harness named by VF_HARNESS on the model in VF_MODEL.
func Main(hs map[string]func()) {
	name := os.Getenv("VF_HARNESS")
	h, ok := hs[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness", name)
		os.Exit(3)
	}
	if f := os.Getenv("VF_MODEL"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &model)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	res := run(h)
	b, _ := json.Marshal(res)
	out := os.Getenv("VF_OUT")
	if out != "" {
		os.WriteFile(out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	if len(res.Fails) > 0 || res.Panic != "" {
		os.Exit(1)
	}
}

func run(h func()) (res result) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(assumption); ok {
				res.AssumeFail = a.what
			} else {
				res.Panic = fmt.Sprint(e)
			}
		}
		res.Fails = fails
		res.Missing = missing
		res.Obs = map[string]string{}
		for k, v := range obs {
			res.Obs[k] = fmt.Sprintf("%.17g", v)
		}
	}()
	h()
	res.Done = true
	return
}
