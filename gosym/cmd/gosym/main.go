// gosym checks the properties of substrait-go by symbolic execution of the
// current source tree (see /verif/DESIGN.md).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif/gosym/engine"
	"verif/gosym/harness"
	"verif/gosym/sym"
)

const (
	modDir      = "/verif/gosym"
	repoPrefix  = "github.com/substrait-io/substrait-go/v8"
	harnessPkg  = "verif/gosym/harness"
	evidenceDir = "/verif/evidence"
	knownFile   = "/verif/known-findings.txt"
)

type replayFile struct {
	Property string      `json:"property"`
	Harness  string      `json:"harness"`
	Deep     bool        `json:"deep"`
	Order    bool        `json:"order"`
	Case     string      `json:"case"`
	Label    string      `json:"label"`
	Func     string      `json:"func,omitempty"`
	Stack    []string    `json:"stack,omitempty"`
	Inputs   []sym.Input `json:"inputs"`
	Native   string      `json:"native_failure,omitempty"`
}

type runOut struct {
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Func     string   `json:"func"`
	Assumed  bool     `json:"assumed"`
	Mismatch string   `json:"mismatch"`
	Reached  []string `json:"reached"`
	Obs      []string `json:"obs"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay|native|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "native":
		native()
	case "list":
		for _, k := range engine.SortedKeys(harness.All) {
			for _, h := range harness.All[k] {
				fmt.Println(k, h.Name(), h.Bounds)
			}
		}
	default:
		os.Exit(2)
	}
}

func find(prop, name string) *harness.H {
	for i := range harness.All[prop] {
		if harness.All[prop][i].Name() == name {
			return &harness.All[prop][i]
		}
	}
	return nil
}

// runNative executes one harness on concrete inputs.
func runNative(h *harness.H, in []sym.Input, deep bool) (r runOut) {
	o := sym.Start(in, deep)
	defer func() {
		if e := recover(); e != nil && !sym.IsStop(e) {
			r.Panic = fmt.Sprint(e)
			r.Func = panicFunc()
			o.Failed = append(o.Failed, sym.Where()+"|panic: "+r.Panic)
		}
		r.Failed, r.Assumed, r.Mismatch, r.Reached, r.Obs = o.Failed, o.Assumed, o.Mismatch, o.Reached, o.Obs
	}()
	h.F()
	return
}

func panicFunc() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, repoPrefix) {
			return strings.TrimPrefix(f.Function, repoPrefix+"/")
		}
		if !more {
			return ""
		}
	}
}

// native reads replay requests on stdin, one JSON object per line.
func native() {
	debug.SetMaxStack(64 << 20)
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	// the type parser prints what it fails on; crashes are still written to the
	// standard error
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = null, null
	}
	for {
		var rf replayFile
		if dec.Decode(&rf) != nil {
			return
		}
		h := find(rf.Property, rf.Harness)
		if h == nil {
			enc.Encode(runOut{Mismatch: "no such harness"})
			continue
		}
		n := 1
		if rf.Order {
			n = 300
		}
		var r runOut
		for i := 0; i < n; i++ {
			r = runNative(h, rf.Inputs, rf.Deep)
			if len(r.Failed) > 0 {
				break
			}
		}
		enc.Encode(r)
	}
}

// natives runs requests in a child process (a crash affects one request only).
func natives(reqs []replayFile) []runOut {
	res := make([]runOut, len(reqs))
	self, _ := os.Executable()
	for start := 0; start < len(reqs); {
		cmd := exec.Command(self, "native")
		var in, out, errb bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, r := range reqs[start:] {
			enc.Encode(r)
		}
		cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
		if cmd.Start() != nil {
			return res
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		timeout := false
		select {
		case <-done:
		case <-time.After(time.Duration(20+len(reqs)/20) * time.Second):
			cmd.Process.Kill()
			<-done
			timeout = true
		}
		dec := json.NewDecoder(&out)
		i := start
		for i < len(reqs) {
			var r runOut
			if dec.Decode(&r) != nil {
				break
			}
			res[i] = r
			i++
		}
		if i < len(reqs) {
			msg := "crash: " + strings.SplitN(errb.String(), "\n", 2)[0]
			if timeout {
				msg = "does not terminate"
			}
			res[i] = runOut{Failed: []string{"|" + msg}, Panic: msg}
			i++
		}
		start = i
	}
	return res
}

func replay(args []string) int {
	if len(args) == 0 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := natives([]replayFile{rf})[0]
	j, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(j))
	if len(r.Failed) > 0 {
		return 1
	}
	return 0
}

type known struct {
	prop, harness, kase, label, fn, desc string
	hit                                  bool
}

// loadKnown reads lines "known: property=ID<TAB>harness<TAB>case<TAB>label<TAB>func<TAB>description".
func loadKnown(prop string) []*known {
	b, _ := os.ReadFile(knownFile)
	var r []*known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.Split(strings.TrimPrefix(l, "known: property="), "\t")
		if len(f) != 6 || f[0] != prop {
			continue
		}
		r = append(r, &known{prop: f[0], harness: f[1], kase: f[2], label: f[3], fn: f[4], desc: f[5]})
	}
	return r
}

func (k *known) match(h, kase, label, fn string) bool {
	if k.harness != h || k.kase != kase {
		return false
	}
	if strings.HasPrefix(k.label, "panic") && strings.HasPrefix(label, "panic") {
		return (k.fn == "-" || fnBase(k.fn) == fnBase(fn)) && (k.label == "panic" || k.label == label)
	}
	return k.label == label
}

func fnBase(s string) string {
	s = strings.NewReplacer("(*", "", ")", "", "*", "", "(", "").Replace(s)
	if i := strings.Index(s, "["); i >= 0 {
		s = s[:i]
	}
	return s
}

func check(args []string) int {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	thorough := fs.Bool("thorough", false, "larger bounds")
	workers := fs.Int("j", 8, "workers")
	only := fs.String("only", "", "one harness")
	verbose := fs.Bool("v", false, "verbose")
	prof := fs.String("cpuprofile", "", "")
	defT := fs.Int("t", 0, "override the time per harness (s)")
	budget := fs.Int("budget", 0, "time for all harnesses (s)")
	fs.Parse(args)
	if fs.NArg() != 1 {
		return 2
	}
	id := fs.Arg(0)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	hs := harness.All[id]
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", id)
		return 2
	}
	if *budget == 0 {
		*budget = 240
		if *thorough {
			*budget = 760
		}
	}
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	P, err := engine.LoadProgram(modDir, []string{"./harness"}, repoPrefix)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	if *verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	tier := "quick"
	if *thorough {
		tier = "thorough"
	}
	os.MkdirAll(evidenceDir, 0o755)
	olds, _ := filepath.Glob(filepath.Join(evidenceDir, id+"-*.replay.json"))
	for _, o := range olds {
		os.Remove(o)
	}
	knowns := loadKnown(id)
	ev := evidence{Property: id, Tier: tier, Seed: seed(), Level: "model_checking"}
	funcs := map[string]bool{}
	violations := 0
	var notes []string
	note := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Println("NOTE:", s)
	}
	cov := map[string]any{}
	var harnessReports []any
	var samples []any
	var tot struct{ paths, completed, steps, asserts, discharged, unsup, unknown, validated, mismatch, queries, fallback int64 }
	var solverS float64
	printed := map[string]bool{}
	exhaustive := true
	for hi := range hs {
		h := &hs[hi]
		name := h.Name()
		if *only != "" && name != *only {
			continue
		}
		if h.NoQ && !*thorough && *only == "" {
			continue
		}
		fn := P.Func(harnessPkg, name)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no function", name)
			return 2
		}
		lim := h.Quick
		if lim == 0 {
			lim = 60
		}
		if *thorough {
			lim = h.Deep
			if lim == 0 {
				lim = 300
			}
		}
		if *defT > 0 {
			lim = *defT
		}
		if left := int(time.Until(deadline).Seconds()); lim > left {
			lim = max(left, 5)
		}
		steps := h.Steps
		if steps == 0 {
			steps = 4_000_000
		}
		x := engine.NewExplorer(P, fn, name, engine.Options{Workers: *workers, MaxSteps: steps, MaxDepth: 2000, TimeoutS: lim, SolverMS: 3000, MaxSamples: 40, Deep: *thorough})
		th := time.Now()
		x.Run()
		el := time.Since(th).Seconds()
		// ---- candidate violations
		fl := x.FailureList()
		var reqs []replayFile
		for _, f := range fl {
			reqs = append(reqs, replayFile{Property: id, Harness: name, Deep: *thorough, Order: h.Order, Case: f.Case, Label: f.Label, Func: f.Func, Stack: f.Stack, Inputs: conv(f.Inputs)})
		}
		nFail := len(reqs)
		for _, s := range x.Samples {
			reqs = append(reqs, replayFile{Property: id, Harness: name, Deep: *thorough, Inputs: conv(s.Inputs)})
		}
		outs := natives(reqs)
		confirmed := map[string]bool{}
		unconf := map[string]string{}
		report := func(rf replayFile, o runOut) {
			kase, label, _ := strings.Cut(o.Failed[0], "|")
			if kase == "" && rf.Case != "" {
				kase = rf.Case
			}
			for _, k := range knowns {
				if k.match(name, kase, label, o.Func) {
					k.hit = true
					line := fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s|%s|%s]", id, k.desc, name, kase, label)
					if !printed[line] {
						fmt.Println(line)
						printed[line] = true
					}
					return
				}
			}
			key := name + "|" + kase + "|" + label + "|" + o.Func
			if printed[key] {
				return
			}
			printed[key] = true
			violations++
			rf.Case, rf.Label, rf.Func = kase, label, o.Func
			rf.Native = o.Failed[0]
			path := filepath.Join(evidenceDir, fmt.Sprintf("%s-%d.replay.json", id, violations))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("violation in %s case %q: %s %s\n", name, kase, label, o.Func)
			for _, in := range rf.Inputs {
				fmt.Printf("   %s %s = %s\n", in.Kind, in.Name, in.Val)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		for i := 0; i < nFail; i++ {
			key := reqs[i].Case + "|" + reqs[i].Label
			if len(outs[i].Failed) > 0 {
				confirmed[key] = true
				report(reqs[i], outs[i])
			} else if unconf[key] == "" {
				unconf[key] = fmt.Sprintf("%s: candidate %q (%s %s) did not reproduce natively (mismatch=%q assumed=%v) inputs=%v stack=%v", name, key, reqs[i].Func, fl[i].Detail, outs[i].Mismatch, outs[i].Assumed, reqs[i].Inputs, reqs[i].Stack)
			}
		}
		for k, s := range unconf {
			if !confirmed[k] {
				note("%s", s)
				exhaustive = false
			}
		}
		// ---- differential validation of completed paths
		for i := nFail; i < len(reqs); i++ {
			o, s := outs[i], x.Samples[i-nFail]
			if len(o.Failed) > 0 {
				report(reqs[i], o)
				continue
			}
			if o.Mismatch != "" || o.Assumed || !eq(o.Reached, s.Reached) || !eqObs(o.Obs, s.Obs) {
				tot.mismatch++
				if tot.mismatch <= 3 {
					note("%s: executor and real code differ on a sample: inputs=%v mismatch=%q assumed=%v native reached=%v obs=%v, symbolic reached=%v obs=%v", name, s.Inputs, o.Mismatch, o.Assumed, o.Reached, o.Obs, s.Reached, s.Obs)
				}
				exhaustive = false
				continue
			}
			tot.validated++
			if i-nFail < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": name, "inputs": s.Inputs, "reached": s.Reached, "observed": s.Obs})
			}
		}
		// ---- vacuity
		for _, r := range h.Reach {
			if x.Reached[r] == 0 && len(fl) == 0 {
				note("%s: witness %q not reached", name, r)
				exhaustive = false
			}
		}
		if x.TimedOut {
			note("%s: stopped after %d s with unexplored paths left (%d explored)", name, lim, x.Paths.Load())
			exhaustive = false
		}
		ns := x.Notes()
		for _, k := range engine.SortedKeys(ns) {
			note("%s: %d paths: %s", name, ns[k], k)
			exhaustive = false
		}
		for f := range x.Funcs {
			if strings.Contains(f, repoPrefix) {
				funcs[strings.ReplaceAll(f, repoPrefix+"/", "")] = true
			}
		}
		q, qs, fb := x.Stats.Snapshot()
		tot.paths += x.Paths.Load()
		tot.completed += x.Completed.Load()
		tot.steps += x.Steps.Load()
		tot.asserts += x.Asserts.Load()
		tot.discharged += x.Discharged.Load()
		tot.unsup += x.Unsup.Load()
		tot.unknown += x.Unknown.Load()
		tot.queries += q
		tot.fallback += fb
		solverS += qs
		harnessReports = append(harnessReports, map[string]any{
			"harness": name, "bounds": h.Bounds, "paths": x.Paths.Load(), "paths_completed": x.Completed.Load(), "paths_assumed_away": x.Assumed.Load(),
			"ssa_steps": x.Steps.Load(), "assertions": x.Asserts.Load(), "solver_queries": q, "solver_s": round(qs), "wall_s": round(el),
			"max_branch_points": x.MaxBranch, "timed_out": x.TimedOut, "unsupported_paths": x.Unsup.Load(), "reached": x.Reached,
		})
		fmt.Printf("%s %-34s %6d paths (%d completed) %9d steps %7d asserts %6d queries %.1fs solver %.1fs wall\n", id, name, x.Paths.Load(), x.Completed.Load(), x.Steps.Load(), x.Asserts.Load(), q, qs, el)
	}
	fl := make([]string, 0, len(funcs))
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"] = tot.steps
	cov["transitions"] = tot.paths
	cov["states_meaning"] = "states: SSA instructions executed symbolically; transitions: feasible program paths explored, each deciding its assertions for every value of its symbolic inputs"
	cov["traces_validated_against_impl"] = tot.validated
	cov["samples"] = samples
	cov["paths_completed"] = tot.completed
	cov["assertions_decided"] = tot.asserts
	cov["assertions_needing_solver"] = tot.discharged
	cov["solver_queries"] = tot.queries
	cov["solver_fallbacks"] = tot.fallback
	cov["solver_s"] = round(solverS)
	cov["functions_encoded"] = fl
	cov["functions_encoded_count"] = len(fl)
	cov["harnesses"] = harnessReports
	cov["unsupported_paths"] = tot.unsup
	cov["undecided_queries"] = tot.unknown
	cov["validation_mismatches"] = tot.mismatch
	cov["exhaustive_within_bounds"] = exhaustive
	cov["reduced_coverage_notes"] = notes
	ev.Coverage = cov
	ev.Violations = violations
	ev.Assumptions = []string{
		"the gosym executor's model of Go semantics and of the standard-library natives listed in DESIGN.md (validated on sampled paths against the compiled code)",
		"each claim holds within the bounds listed per harness; values outside them are not covered",
	}
	for _, k := range knowns {
		if !k.hit && *only == "" {
			note("known finding no longer observed: %s|%s|%s", k.harness, k.kase, k.label)
		}
	}
	ev.WallS = round(time.Since(t0).Seconds())
	b, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" {
		os.WriteFile(filepath.Join(evidenceDir, id+".json"), b, 0o644)
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("%s: held on everything explored (%s, %.1fs)\n", id, tier, time.Since(t0).Seconds())
	return 0
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
	Assumptions []string       `json:"assumptions"`
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func conv(in []engine.Input) []sym.Input {
	r := make([]sym.Input, len(in))
	for i, x := range in {
		r[i] = sym.Input{Kind: x.Kind, Name: x.Name, Val: x.Val}
	}
	return r
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// eqObs ignores observations the executor cannot print.
func eqObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(b[i], "=?") {
			return false
		}
	}
	return true
}
