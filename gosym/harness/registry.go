// Package harness holds the property harnesses. Every harness is an ordinary Go
// function over the public API of substrait-go; gosym executes it symbolically
// and replays counterexamples by calling it natively.
package harness

import (
	"reflect"
	"runtime"
	"strings"
)

// H describes one harness.
type H struct {
	F      func()
	Bounds string   // what is symbolic, within which bounds
	Reach  []string // witnesses that must be reached on the unchanged tree
	Quick  int      // seconds allowed in the quick tier (0: default)
	Deep   int      // seconds allowed in the thorough tier
	NoQ    bool     // thorough tier only
	Order  bool     // replay repeatedly: the outcome depends on map iteration order
	Steps  int      // interpreted instructions per path (0: default)
}

// Name of the harness function.
func (h H) Name() string {
	n := runtime.FuncForPC(reflect.ValueOf(h.F).Pointer()).Name()
	return n[strings.LastIndex(n, ".")+1:]
}

// All maps property ids to their harnesses.
var All = map[string][]H{}

func reg(prop string, h ...H) bool {
	All[prop] = append(All[prop], h...)
	return true
}
