package engine

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Input is one harness input of a path, in creation order.
type Input struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  string `json:"val"`
}

type inputRec struct {
	kind, name string
	t          *Term  // scalar
	conc       uint64 // concrete (choice, length)
	isConc     bool
}

// Failure is a candidate violation found on a path.
type Failure struct {
	Case   string
	Label  string
	Func   string // innermost repository function of a panic
	Detail string
	Inputs []Input
	Site   string
	Stack  []string
}

type decision struct {
	v int32
}

// Path is one execution.
type Path struct {
	x        *Explorer
	w        *worker
	c        *Ctx
	s        *Solver
	prefix   []int32
	pos      int
	trace    []int32
	pc       []*Term
	model    Model // satisfies pc when modelOK
	modelOK  bool
	synced   int
	globals  map[*ssa.Global]*Value
	initDone map[*ssa.Package]bool
	inputs   []inputRec
	steps    int
	depth    int
	mapOrder bool
	catch    int
	reached  []string
	observed []obsRec
	where    string // current case
	incompl  string
	freshN   int
	natMemo  map[any]Value
	parsing  bool // types are parsed by their parser, not by the host
	initing  int
	branches int
	rng      ranges
	curFrame *frame
}

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

// task is a queued prefix.
type task struct {
	prefix []int32
	model  Model
}

// know adds a condition to the path condition.
func (p *Path) know(t *Term) {
	p.pc = append(p.pc, t)
	p.rng.learn(t, false)
}

func (p *Path) addPC(t *Term) {
	if t == p.c.True {
		return
	}
	p.know(t)
	if p.modelOK && !p.evalBool(t) {
		p.modelOK = false
	}
}

func (p *Path) evalBool(t *Term) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(errEval); ok {
				r = false
				p.modelOK = false
				return
			}
			panic(e)
		}
	}()
	return newEval(p.model).bool(t)
}

func (p *Path) sync() {
	for ; p.synced < len(p.pc); p.synced++ {
		p.s.Assert(p.pc[p.synced])
	}
}

// check decides pc && t.
func (p *Path) check(t *Term) (Result, Model) {
	if t == p.c.False {
		return Unsat, nil
	}
	if p.modelOK && (t == nil || p.evalBool(t)) && p.modelOK {
		return Sat, p.model
	}
	p.sync()
	return p.s.Check(t)
}

// ensureModel makes sure the path condition is satisfiable.
func (p *Path) ensureModel() {
	if p.modelOK {
		return
	}
	p.sync()
	r, m := p.s.Check(nil)
	switch r {
	case Sat:
		p.model, p.modelOK = m, true
	case Unsat:
		panic(abort{"infeasible", ""})
	default:
		panic(abort{"unknown", "solver could not decide the path condition"})
	}
}

// branchV branches on a bool value.
func (p *Path) branchV(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branch(v)
	}
	panic(fmt.Sprintf("branch on %T", v))
}

func (p *Path) branch(t *Term) bool {
	if t == p.c.True {
		return true
	}
	if t == p.c.False {
		return false
	}
	if d := p.rng.decide(t); d != 0 {
		return d > 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if d == 1 {
			p.know(t)
			return true
		}
		p.know(p.c.Not(t))
		return false
	}
	p.pos++
	p.branches++
	if !p.modelOK {
		p.checkResumeModel()
		p.ensureModel()
	}
	nt := p.c.Not(t)
	here := p.evalBool(t)
	if !p.modelOK {
		p.ensureModel()
	}
	var mine, other *Term
	if here {
		mine, other = t, nt
	} else {
		mine, other = nt, t
	}
	p.sync()
	r, m := p.s.Check(other)
	dv := int32(0)
	if here {
		dv = 1
	}
	if r == Sat {
		np := append(append(make([]int32, 0, len(p.trace)+1), p.trace...), 1-dv)
		p.x.push(task{np, m})
	} else if r == Unknown {
		p.x.Unknown.Add(1)
		np := append(append(make([]int32, 0, len(p.trace)+1), p.trace...), 1-dv)
		p.x.push(task{np, nil})
	}
	p.trace = append(p.trace, dv)
	p.know(mine)
	return here
}

// checkResumeModel validates the model handed over with the prefix.
func (p *Path) checkResumeModel() {
	if p.model == nil {
		return
	}
	e := newEval(p.model)
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(errEval); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for _, t := range p.pc {
			if !e.bool(t) {
				ok = false
				return
			}
		}
	}()
	p.modelOK = ok
}

// choose forks over 0..n-1 without consulting the solver.
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		return int(d)
	}
	p.pos++
	p.branches++
	for i := n - 1; i >= 1; i-- {
		np := append(append(make([]int32, 0, len(p.trace)+1), p.trace...), int32(i))
		m := p.model
		if !p.modelOK {
			m = nil
		}
		p.x.push(task{np, m})
	}
	p.trace = append(p.trace, 0)
	return 0
}

func (p *Path) assume(v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(abort{"assume", ""})
		}
	case *Term:
		if v == p.c.False {
			panic(abort{"assume", ""})
		}
		p.addPC(v)
		if p.pos >= len(p.prefix) && !p.modelOK {
			p.checkResumeModel()
			if !p.modelOK {
				p.sync()
				r, m := p.s.Check(nil)
				if r == Unsat {
					panic(abort{"assume", ""})
				}
				if r == Sat {
					p.model, p.modelOK = m, true
				} else {
					p.x.Unknown.Add(1)
					panic(abort{"unknown", "assumption undecided"})
				}
			}
		}
	}
}

// assertV checks that v holds for every value on this path.
func (p *Path) assertV(v Value, label string) {
	p.w.asserts++
	switch v := v.(type) {
	case bool:
		if v {
			if p.pos >= len(p.prefix) {
				p.w.trivial++
			}
			return
		}
		p.fail(label, "", "", nil, nil)
		panic(abort{"failed", label})
	case *Term:
		if v == p.c.True {
			return
		}
		if p.pos < len(p.prefix) {
			// already decided on the path that pushed this prefix
			p.know(v)
			return
		}
		if !p.modelOK {
			p.checkResumeModel()
			p.ensureModel()
		}
		nt := p.c.Not(v)
		var r Result
		var m Model
		if p.evalBool(nt) && p.modelOK {
			r, m = Sat, p.model
		} else {
			p.ensureModel()
			p.sync()
			r, m = p.s.Check(nt)
			p.w.discharge++
		}
		switch r {
		case Sat:
			p.fail(label, "", "", nil, m)
			// continue under the assumption that it held
			p.addPC(v)
			if !p.modelOK {
				p.sync()
				r2, m2 := p.s.Check(nil)
				if r2 != Sat {
					panic(abort{"failed", label})
				}
				p.model, p.modelOK = m2, true
			}
		case Unknown:
			p.x.Unknown.Add(1)
			p.x.note("undecided assertion: " + label)
			p.addPC(v)
		default:
			p.know(v)
		}
	}
}

// fail records a candidate violation with the inputs of model m (nil: any model of pc).
func (p *Path) fail(label, detail, site string, stack []string, m Model) {
	if p.pos < len(p.prefix) {
		return // reported by the path that created this prefix
	}
	if m == nil {
		if !p.modelOK {
			p.checkResumeModel()
			p.ensureModel()
		}
		m = p.model
	}
	fun := ""
	for _, s := range stack {
		if strings.Contains(s, p.x.P.RepoPrefix) {
			fun = strings.SplitN(s, " (", 2)[0]
			fun = strings.ReplaceAll(fun, p.x.P.RepoPrefix+"/", "")
			break
		}
	}
	f := Failure{Case: p.where, Func: fun, Label: label, Detail: detail, Site: site, Stack: stack, Inputs: p.concreteInputs(m)}
	p.x.addFailure(f)
}

func (p *Path) concreteInputs(m Model) []Input {
	e := newEval(m)
	var res []Input
	for _, in := range p.inputs {
		v := new(big.Int)
		if in.isConc {
			v.SetUint64(in.conc)
		} else {
			v = e.big(in.t)
		}
		res = append(res, Input{in.kind, in.name, v.String()})
	}
	return res
}

// raise raises a runtime panic in the interpreted program.
func (p *Path) raise(fr *frame, msg string) {
	panic(&targetPanic{v: p.runtimeError(msg), runtime: true, msg: "runtime error: " + msg, site: fr.site(), stack: fr.stackNames()})
}

func (p *Path) runtimeError(msg string) Value {
	return iface{p.x.P.runtimeErrorType, msg}
}

// Explorer explores all paths of one harness.
type Explorer struct {
	P       *Program
	Fn      *ssa.Function
	Name    string
	Opt     Options
	Stats   Stats
	Unknown atomic.Int64

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	active   int
	stop     bool
	failures map[string]*Failure
	failN    map[string]int
	order    []string
	notes    map[string]int

	Paths      atomic.Int64
	Completed  atomic.Int64
	Assumed    atomic.Int64
	Unsup      atomic.Int64
	Steps      atomic.Int64
	Asserts    atomic.Int64
	Discharged atomic.Int64
	MaxBranch  int
	Reached    map[string]int
	Funcs      map[string]bool
	Samples    []Sample
	sampleN    map[string]int
	TimedOut   bool
}

// Sample is a completed path with concrete inputs, for differential validation.
type Sample struct {
	Inputs  []Input
	Reached []string
	Obs     []string
}

// Options bound an exploration.
type Options struct {
	Workers    int
	MaxSteps   int
	MaxDepth   int
	TimeoutS   int
	SolverMS   int
	MaxSamples int
	MaxPaths   int64
	Debug      bool
	Deep       bool
}

func (x *Explorer) push(t task) {
	x.mu.Lock()
	x.queue = append(x.queue, t)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) note(s string) {
	x.mu.Lock()
	x.notes[s]++
	x.mu.Unlock()
}

func (x *Explorer) addFailure(f Failure) {
	x.mu.Lock()
	defer x.mu.Unlock()
	key := f.Case + "|" + f.Label + "|" + f.Func
	x.failN[key]++
	if x.failN[key] > 4 {
		return
	}
	key += fmt.Sprintf("|%d", x.failN[key])
	ff := f
	x.failures[key] = &ff
	x.order = append(x.order, key)
}

// Failures returns the distinct failures found.
func (x *Explorer) FailureList() []*Failure {
	var r []*Failure
	for _, k := range x.order {
		r = append(r, x.failures[k])
	}
	return r
}

// Notes returns messages with counts.
func (x *Explorer) Notes() map[string]int { return x.notes }
