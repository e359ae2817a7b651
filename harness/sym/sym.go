// Package sym is the interface between a harness and the machinery that runs it.
//
// The engine gives every function here a symbolic meaning (fresh solver
// variables, assumptions, assertions). Compiled natively the same harness runs
// the real code on one concrete assignment of those variables; that is how
// counterexamples are replayed and explored paths are validated.
package sym

import (
	"fmt"
	"math"
)

// Rec is one input value.
type Rec struct {
	N string `json:"n"`
	K string `json:"k"`
	V uint64 `json:"v"`
}

type (
	AssertFailed struct{ Msg string }
	Skipped      struct{}
	Diverged     struct{ Msg string }
)

var (
	input  []Rec
	pos    int
	params map[string]int
	obs    []string
)

// Reset installs an assignment (native runs only).
func Reset(in []Rec, p map[string]int) { input, pos, params, obs = in, 0, p, nil }

// Observed returns what the harness observed (native runs only).
func Observed() []string { return obs }

func next(k, n string) (uint64, bool) {
	if pos >= len(input) {
		return 0, false
	}
	r := input[pos]
	pos++
	if r.K != k || r.N != n {
		panic(Diverged{fmt.Sprintf("input %d is %s %s in the assignment, %s %s natively", pos-1, r.K, r.N, k, n)})
	}
	return r.V, true
}

func v(k, n string) uint64 { x, _ := next(k, n); return x }

func Bool(n string) bool   { return v("Bool", n) != 0 }
func U8(n string) uint8    { return uint8(v("U8", n)) }
func U16(n string) uint16  { return uint16(v("U16", n)) }
func U32(n string) uint32  { return uint32(v("U32", n)) }
func U64(n string) uint64  { return v("U64", n) }
func Uint(n string) uint   { return uint(v("Uint", n)) }
func I8(n string) int8     { return int8(v("I8", n)) }
func I16(n string) int16   { return int16(v("I16", n)) }
func I32(n string) int32   { return int32(v("I32", n)) }
func I64(n string) int64   { return int64(v("I64", n)) }
func Int(n string) int     { return int(v("Int", n)) }
func F32(n string) float32 { return math.Float32frombits(uint32(v("F32", n))) }
func F64(n string) float64 { return math.Float64frombits(v("F64", n)) }

// Range is a symbolic integer between lo and hi.
func Range(n string, lo, hi int) int {
	x, ok := next("Range", n)
	if !ok {
		return lo
	}
	return int(int64(x))
}

// Choose is an integer in [0,n), explored one value at a time.
func Choose(n string, k int) int { return int(v("Choose", n)) }

// Bytes is n symbolic bytes.
func Bytes(n string, k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = U8(fmt.Sprintf("%s[%d]", n, i))
	}
	return b
}

// String is a string of n symbolic bytes.
func String(n string, k int) string { return string(Bytes(n, k)) }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Skipped{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFailed{msg})
	}
}

func Fail(msg string) { panic(AssertFailed{msg}) }
func Skip()           { panic(Skipped{}) }

// Reach records that a point was reached (guards against vacuous runs).
func Reach(label string) {}

// Observe records a value that must agree between the symbolic and the native run.
func Observe(label string, x any) {
	s := ""
	switch x := x.(type) {
	case nil:
		s = "<nil>"
	case string:
		s = fmt.Sprintf("%q", x)
	case float64:
		s = fmt.Sprint(math.Float64bits(x))
	case float32:
		s = fmt.Sprint(math.Float32bits(x))
	default:
		s = fmt.Sprintf("%d", x)
		if b, ok := x.(bool); ok {
			s = fmt.Sprint(b)
		}
	}
	obs = append(obs, label+"="+s)
}

// Symbolic tells whether the harness is executed symbolically.
func Symbolic() bool { return false }

// Param is a bound of the run.
func Param(n string, def int) int {
	if x, ok := params[n]; ok {
		return x
	}
	return def
}

// Conc forks over the feasible values of x; ConcStr over those of a string.
func Conc(x int) int          { return x }
func ConcStr(x string) string { return x }

// And and Or do not short-circuit (no path fork).
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Try runs f and returns the panic message, or "" if it did not panic.
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertFailed, Skipped, Diverged:
				panic(r)
			}
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}
