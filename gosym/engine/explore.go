package engine

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type worker struct {
	x         *Explorer
	s         *Solver
	s2        *Solver // for side conditions
	asserts   int64
	trivial   int64
	discharge int64
	funcs     map[*fnc]bool
	methods   map[methodKey]*ssa.Function
	impl      map[implKey]bool
}

type methodKey struct {
	t types.Type
	m *types.Func
}
type implKey struct {
	t types.Type
	i *types.Interface
}

// NewExplorer prepares the exploration of fn.
func NewExplorer(P *Program, fn *ssa.Function, name string, opt Options) *Explorer {
	x := &Explorer{P: P, Fn: fn, Name: name, Opt: opt, failures: map[string]*Failure{}, failN: map[string]int{}, notes: map[string]int{}, Reached: map[string]int{}, Funcs: map[string]bool{}, sampleN: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

// Run explores until the queue is empty or a limit is hit.
func (x *Explorer) Run() {
	deadline := time.Now().Add(time.Duration(x.Opt.TimeoutS) * time.Second)
	x.queue = []task{{}}
	var wg sync.WaitGroup
	for i := 0; i < x.Opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{x: x, funcs: map[*fnc]bool{}, methods: map[methodKey]*ssa.Function{}, impl: map[implKey]bool{}}
			w.s = NewSolver(&x.Stats, x.Opt.SolverMS)
			defer func() {
				w.s.Close()
				if w.s2 != nil {
					w.s2.Close()
				}
			}()
			for {
				x.mu.Lock()
				for len(x.queue) == 0 && x.active > 0 && !x.stop {
					x.cond.Wait()
				}
				if x.stop || len(x.queue) == 0 {
					x.mu.Unlock()
					x.cond.Broadcast()
					break
				}
				t := x.queue[len(x.queue)-1]
				x.queue = x.queue[:len(x.queue)-1]
				x.active++
				x.mu.Unlock()
				w.runPath(t)
				x.mu.Lock()
				x.active--
				if time.Now().After(deadline) || (x.Opt.MaxPaths > 0 && x.Paths.Load() >= x.Opt.MaxPaths) {
					if len(x.queue) > 0 || x.active > 0 {
						x.TimedOut = true
					}
					x.stop = true
				}
				x.mu.Unlock()
				x.cond.Broadcast()
			}
			x.Asserts.Add(w.asserts)
			x.Discharged.Add(w.discharge)
			x.mu.Lock()
			for f := range w.funcs {
				x.Funcs[f.name] = true
			}
			x.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (w *worker) runPath(t task) {
	x := w.x
	x.Paths.Add(1)
	c := NewCtx()
	p := &Path{x: x, w: w, c: c, s: w.s, prefix: t.prefix, model: t.model, globals: map[*ssa.Global]*Value{}, initDone: map[*ssa.Package]bool{}}
	if len(t.prefix) == 0 {
		p.model, p.modelOK = Model{}, true
	}
	c.rng = &p.rng
	w.s.Begin(c)
	status := "completed"
	detail := ""
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case abort:
				status, detail = r.kind, r.msg
			case *targetPanic:
				status = "panic"
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							if a, ok := r2.(abort); ok {
								status, detail = a.kind, a.msg
								return
							}
							panic(r2)
						}
					}()
					p.fail("panic: "+p.panicText(r), r.msg, r.site, r.stack, nil)
				}()
			case engineError:
				status, detail = "engine", string(r)
				// restart the solver
				w.s.Close()
				w.s = NewSolver(&x.Stats, x.Opt.SolverMS)
				if w.s2 != nil {
					w.s2.Close()
					w.s2 = nil
				}
			default:
				status = "engine"
				detail = fmt.Sprintf("%v", r)
				where := ""
				if p.curFrame != nil {
					where = " in " + p.curFrame.fc.name + " at " + p.curFrame.site()
				}
				detail += where
				if x.Opt.Debug || os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE ERROR %v%s\n%s\n", r, where, debug.Stack())
				}
			}
		}()
		p.call(nil, x.Fn, nil)
	}()
	x.Steps.Add(int64(p.steps))
	x.mu.Lock()
	if p.branches > x.MaxBranch {
		x.MaxBranch = p.branches
	}
	x.mu.Unlock()
	switch status {
	case "completed":
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abort); ok && a.kind == "infeasible" {
						status = "infeasible"
						return
					}
					status = "unknown"
				}
			}()
			if !p.modelOK {
				p.checkResumeModel()
				p.ensureModel()
			}
		}()
		if status == "infeasible" {
			return
		}
		if status == "unknown" {
			x.Unknown.Add(1)
			return
		}
		x.Completed.Add(1)
		x.mu.Lock()
		for _, r := range p.reached {
			x.Reached[r]++
		}
		key := strings.Join(p.reached, ",")
		take := len(x.Samples) < x.Opt.MaxSamples && (x.sampleN[key] < 2 || x.Completed.Load()%17 == 0)
		if take {
			x.sampleN[key]++
		}
		x.mu.Unlock()
		if take {
			sm := Sample{Inputs: p.concreteInputs(p.model), Reached: p.reached}
			e := newEval(p.model)
			for _, o := range p.observed {
				sm.Obs = append(sm.Obs, o.label+"="+p.concretize(e, o.t, o.v))
			}
			x.mu.Lock()
			x.Samples = append(x.Samples, sm)
			x.mu.Unlock()
		}
	case "assume":
		x.Assumed.Add(1)
	case "infeasible", "failed", "panic":
	case "unknown":
		x.Unknown.Add(1)
		x.note("unknown: " + detail)
	default:
		x.Unsup.Add(1)
		x.note(status + ": " + detail)
	}
}

func (p *Path) panicText(t *targetPanic) string {
	if t.runtime {
		return t.msg
	}
	if i, ok := t.v.(iface); ok {
		if i.t == nil {
			return "nil"
		}
		switch v := i.v.(type) {
		case string:
			return v
		}
		return i.t.String()
	}
	return "?"
}

// concretize prints a value under a model.
func (p *Path) concretize(e *evaluator, t types.Type, v Value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "<nil>"
		}
		return p.concretize(e, v.t, v.v)
	case bool:
		return fmt.Sprint(v)
	case uint64:
		if w, s, ok := intInfo(t); ok && s {
			return fmt.Sprint(sext(w, v))
		}
		return fmt.Sprint(v)
	case string:
		return fmt.Sprintf("%q", v)
	case *Term:
		if v.W == 0 {
			return fmt.Sprint(e.bool(v))
		}
		if w, s, ok := intInfo(t); ok && s {
			return fmt.Sprint(sext(w, e.u(v)))
		}
		return fmt.Sprint(e.u(v))
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(e.u(x))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case *LazyStr:
		return "?"
	}
	return "?"
}

// SortedKeys is a helper for reports.
func SortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
