// Package sym is the harness vocabulary. Under gosym every function here is an
// intrinsic; compiled natively it replays the concrete inputs of one path.
package sym

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Input is one recorded input.
type Input struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  string `json:"val"`
}

// Outcome of a native replay.
type Outcome struct {
	Failed   []string // labels of failed assertions
	Assumed  bool     // an assumption did not hold
	Mismatch string   // inputs requested in another order than recorded
	Reached  []string
	Obs      []string
}

type stop struct{}

var (
	inputs []Input
	pos    int
	out    *Outcome
	deep   bool
	where  string
)

// Start begins a native replay.
func Start(in []Input, deepBounds bool) *Outcome {
	inputs, pos = in, 0
	deep, where = deepBounds, ""
	out = &Outcome{}
	return out
}

// IsStop reports whether a recovered value ends a replay.
func IsStop(r any) bool { _, ok := r.(stop); return ok }

func next(kind, name string) *big.Int {
	if plain(name) && kind != "choice" {
		return big.NewInt(1)
	}
	if pos >= len(inputs) {
		out.Mismatch = "no input left for " + kind + " " + name
		panic(stop{})
	}
	in := inputs[pos]
	pos++
	if in.Kind != kind || in.Name != name {
		out.Mismatch = fmt.Sprintf("want %s %s, recorded %s %s", kind, name, in.Kind, in.Name)
		panic(stop{})
	}
	v, _ := new(big.Int).SetString(in.Val, 10)
	return v
}

// Plain is the prefix of the names of fixed inputs: scalars with such a name are 1
// (true), texts are as long as possible and consist of the letter a.
const Plain = "="

func plain(name string) bool { return strings.Contains(name, Plain) }

func Bool(name string) bool     { return next("bool", name).Sign() != 0 }
func Int(name string) int       { return int(next("i64", name).Uint64()) }
func Int64(name string) int64   { return int64(next("i64", name).Uint64()) }
func Int32(name string) int32   { return int32(uint32(next("i32", name).Uint64())) }
func Int16(name string) int16   { return int16(uint16(next("i16", name).Uint64())) }
func Int8(name string) int8     { return int8(uint8(next("i8", name).Uint64())) }
func Uint64(name string) uint64 { return next("i64", name).Uint64() }
func Uint32(name string) uint32 { return uint32(next("i32", name).Uint64()) }
func Uint8(name string) uint8   { return uint8(next("i8", name).Uint64()) }
func Float64(name string) float64 {
	if plain(name) {
		return 1
	}
	return math.Float64frombits(next("i64", name).Uint64())
}
func Float32(name string) float32 {
	if plain(name) {
		return 1
	}
	return math.Float32frombits(uint32(next("i32", name).Uint64()))
}

// Choice forks over 0..n-1.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next("choice", name).Uint64())
}

// String is an arbitrary string of min..max bytes; every byte is arbitrary ASCII.
func String(name string, min, max int) string {
	if plain(name) {
		return string(strings.Repeat("a", max))
	}
	n := min + Choice(name+".len", max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("ascii", name).Uint64())
	}
	return string(b)
}

// Bytes is an arbitrary byte slice of min..max bytes.
func Bytes(name string, min, max int) []byte {
	if plain(name) {
		return []byte(strings.Repeat("a", max))
	}
	n := min + Choice(name+".len", max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("i8", name).Uint64())
	}
	return b
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		out.Assumed = true
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		out.Failed = append(out.Failed, where+"|"+label)
		panic(stop{})
	}
}

// Case names the case being checked; it becomes part of every failure label.
func Case(name string) { where = name }

// Where returns the current case.
func Where() string { return where }

// Deep reports whether the larger (thorough) bounds apply.
func Deep() bool { return deep }

// Reach is a reachability witness.
func Reach(label string) { out.Reached = append(out.Reached, label) }

// Observe records a value for the differential validation of the executor.
func Observe(label string, v any) {
	s := ""
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case nil:
		s = "<nil>"
	default:
		s = fmt.Sprint(x)
	}
	out.Obs = append(out.Obs, label+"="+s)
}

// LastPanic is the text of the panic caught last (native replay only).
var LastPanic string

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if IsStop(r) {
				panic(r)
			}
			LastPanic = fmt.Sprint(r)
			panicked = true
		}
	}()
	f()
	return false
}

// And, Or, Not, Implies and Ite combine conditions without forking the path.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// MapOrder makes the iteration order of maps in the code under test arbitrary
// (all permutations up to 3 entries; first/last choices above).
func MapOrder(on bool) {}

// Symbolic reports whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

// SameShape reports whether two values are structurally equal (deep, nil and
// empty slices distinguished), without forking the path under gosym.
func DeepEqual(a, b any) bool { return deepEqual(a, b) }

// Parse makes the symbolic execution parse type texts by the parser under test instead of
// by the host's copy of it.
func Parse() {}
