package engine

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Stats are shared solver counters.
type Stats struct {
	Queries, Sat, Unsat, Unknown atomic.Int64
	SolverNS                     atomic.Int64
	Fallbacks, Int               atomic.Int64
}

// Solver drives one z3 process.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	defined  map[*Term]bool
	divs     map[string]bool
	ndecl    int
	ctx      *Ctx
	stats    *Stats
	timeout  int
	log      io.Writer
	script   []string // for fall-back solving
	asserted []*Term
	divSeen  map[*Term]bool
	anyDiv   bool
	mulSeen  map[*Term]bool
	anyMul   bool
	wide     bool // numbers of more than 64 bits
}

func NewSolver(st *Stats, timeoutMS int) *Solver {
	s := &Solver{stats: st, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := "z3-new"
	if b := os.Getenv("GOSYM_Z3"); b != "" {
		bin = b
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// Begin starts a new path.
func (s *Solver) Begin(c *Ctx) {
	if s.ctx != nil {
		s.in.WriteString("(pop 1)\n")
	}
	s.ctx = c
	s.ndecl = 0
	s.defined = map[*Term]bool{}
	s.divs = map[string]bool{}
	s.script = s.script[:0]
	s.asserted = s.asserted[:0]
	s.divSeen = map[*Term]bool{}
	s.mulSeen = map[*Term]bool{}
	s.anyDiv, s.anyMul, s.wide = false, false, false
	s.in.WriteString("(push 1)\n")
}

func (s *Solver) emit(line string) {
	s.in.WriteString(line)
	s.in.WriteByte('\n')
	s.script = append(s.script, line)
}

func sortName(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) declareVars() {
	for ; s.ndecl < len(s.ctx.Vars); s.ndecl++ {
		s.emit(fmt.Sprintf("(declare-const v%d %s)", s.ndecl, sortName(s.ctx.Vars[s.ndecl].W)))
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.V != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%s %d)", t.bigVal().String(), t.W)
	case OVar:
		return fmt.Sprintf("v%d", t.V)
	}
	return fmt.Sprintf("t%d", t.ID)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULT: "bvult", OULE: "bvule", OSLT: "bvslt", OSLE: "bvsle", OConcat: "concat",
}

func fsort(w uint16) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// define emits definitions for t and its subterms at path level.
func (s *Solver) define(t *Term) {
	if t == nil || t.Op == OConst || t.Op == OVar || s.defined[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.A
		case 1:
			ch = f.t.B
		case 2:
			ch = f.t.C
		}
		f.i++
		if f.i <= 3 {
			if ch != nil && ch.Op != OConst && ch.Op != OVar && !s.defined[ch] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x] {
			continue
		}
		s.defined[x] = true
		s.wide = s.wide || x.W > 64
		fp := func(y *Term) string { return fmt.Sprintf("((_ to_fp %s) %s)", fsort(y.W), s.ref(y)) }
		var body string
		switch x.Op {
		case OExtract:
			body = fmt.Sprintf("((_ extract %d %d) %s)", x.V>>16, x.V&0xffff, s.ref(x.A))
		case OZExt:
			body = fmt.Sprintf("((_ zero_extend %d) %s)", x.W-x.A.W, s.ref(x.A))
		case OSExt:
			body = fmt.Sprintf("((_ sign_extend %d) %s)", x.W-x.A.W, s.ref(x.A))
		case OFEq:
			body = fmt.Sprintf("(fp.eq %s %s)", fp(x.A), fp(x.B))
		case OFLt:
			body = fmt.Sprintf("(fp.lt %s %s)", fp(x.A), fp(x.B))
		case OFLe:
			body = fmt.Sprintf("(fp.leq %s %s)", fp(x.A), fp(x.B))
		case OFNaN:
			body = fmt.Sprintf("(fp.isNaN %s)", fp(x.A))
		case OFAdd:
			body = fmt.Sprintf("(fp.to_ieee_bv (fp.add RNE %s %s))", fp(x.A), fp(x.B))
		case OFSub:
			body = fmt.Sprintf("(fp.to_ieee_bv (fp.sub RNE %s %s))", fp(x.A), fp(x.B))
		case OFMul:
			body = fmt.Sprintf("(fp.to_ieee_bv (fp.mul RNE %s %s))", fp(x.A), fp(x.B))
		case OFDiv:
			body = fmt.Sprintf("(fp.to_ieee_bv (fp.div RNE %s %s))", fp(x.A), fp(x.B))
		case OF64to32, OF32to64:
			body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fsort(x.W), fp(x.A))
		case OStoF:
			body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fsort(x.W), s.ref(x.A))
		case OUtoF:
			body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fsort(x.W), s.ref(x.A))
		case OFtoS:
			body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", x.W, fp(x.A))
		case OSDiv, OSRem, OUDiv, OURem:
			if b := s.defineDiv(x); b != "" {
				body = b
				break
			}
			body = fmt.Sprintf("(%s %s %s)", opNames[x.Op], s.ref(x.A), s.ref(x.B))
		default:
			var sb strings.Builder
			sb.WriteByte('(')
			sb.WriteString(opNames[x.Op])
			for _, y := range []*Term{x.A, x.B, x.C} {
				if y != nil {
					sb.WriteByte(' ')
					sb.WriteString(s.ref(y))
				}
			}
			sb.WriteByte(')')
			body = sb.String()
		}
		s.emit(fmt.Sprintf("(define-fun t%d () %s %s)", x.ID, sortName(x.W), body))
	}
}

// defineDiv introduces quotient and remainder of a division by a positive
// constant through their defining (total, unique) constraints, which are far
// easier for the solvers than a division circuit.
func (s *Solver) defineDiv(x *Term) string {
	if x.B.Op != OConst || x.W > 64 || x.W < 16 {
		return ""
	}
	w := x.W
	c := x.B.V
	signed := x.Op == OSDiv || x.Op == OSRem
	if c < 2 || c>>(w-1) != 0 {
		return ""
	}
	kind := "u"
	if signed {
		kind = "s"
	}
	id := fmt.Sprintf("%s%d_%d", kind, x.A.ID, c)
	if !s.divs[id] {
		s.divs[id] = true
		bv := func(v uint64) string { return fmt.Sprintf("(_ bv%d %d)", mask(w, v), w) }
		a := s.ref(x.A)
		s.emit(fmt.Sprintf("(declare-const q%s (_ BitVec %d))", id, w))
		s.emit(fmt.Sprintf("(declare-const r%s (_ BitVec %d))", id, w))
		s.emit(fmt.Sprintf("(assert (= %s (bvadd (bvmul q%s %s) r%s)))", a, id, bv(c), id))
		if signed {
			min := uint64(1) << (w - 1)
			hi := (min - 1) / c
			lo := -(min / c)
			s.emit(fmt.Sprintf("(assert (and (bvslt r%s %s) (bvslt %s r%s)))", id, bv(c), bv(-c), id))
			s.emit(fmt.Sprintf("(assert (ite (bvslt %s %s) (bvsle r%s %s) (bvsle %s r%s)))", a, bv(0), id, bv(0), bv(0), id))
			s.emit(fmt.Sprintf("(assert (and (bvsle %s q%s) (bvsle q%s %s)))", bv(lo), id, id, bv(hi)))
		} else {
			max := mask(w, ^uint64(0))
			s.emit(fmt.Sprintf("(assert (bvult r%s %s))", id, bv(c)))
			s.emit(fmt.Sprintf("(assert (bvule q%s %s))", id, bv(max/c)))
			s.emit(fmt.Sprintf("(assert (bvule (bvmul q%s %s) %s))", id, bv(c), a))
		}
	}
	if x.Op == OSDiv || x.Op == OUDiv {
		return "q" + id
	}
	return "r" + id
}

// Assert adds t to the path condition.
func (s *Solver) Assert(t *Term) {
	s.asserted = append(s.asserted, t)
	s.anyDiv = s.anyDiv || hasDiv(t, s.divSeen)
	s.anyMul = s.anyMul || hasMul(t, s.mulSeen)
	s.declareVars()
	s.define(t)
	s.emit("(assert " + s.ref(t) + ")")
}

// Result of a query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides pc && cond (cond may be nil) and returns a model when sat.
func (s *Solver) Check(cond *Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		s.stats.SolverNS.Add(int64(time.Since(t0)))
		if slowLog && time.Since(t0) > slowMin {
			var sb strings.Builder
			for _, l := range s.script {
				sb.WriteString(l + "\n")
			}
			if cond != nil {
				sb.WriteString("(assert " + s.ref(cond) + ")\n")
			}
			os.WriteFile(fmt.Sprintf("/tmp/slow/%d-%s.smt2", time.Since(t0).Milliseconds(), time.Now().Format("150405.000")), []byte(sb.String()+"(check-sat)\n"), 0o644)
		}
	}()
	s.stats.Queries.Add(1)
	if s.anyDiv || cond != nil && hasDiv(cond, s.divSeen) {
		s.anyDiv = true
		if r, m := s.checkInt(cond); r != Unknown {
			s.stats.Int.Add(1)
			if r == Sat {
				s.stats.Sat.Add(1)
			} else {
				s.stats.Unsat.Add(1)
			}
			return r, m
		}
	}
	s.declareVars()
	s.define(cond)
	s.in.WriteString("(push 1)\n")
	if cond != nil {
		s.in.WriteString("(assert " + s.ref(cond) + ")\n")
	}
	ans := ""
	ask := func(cmd string) {
		s.in.WriteString(cmd + "\n(echo \"<done>\")\n")
		s.in.Flush()
		for _, l := range s.readUntilDone() {
			if strings.HasPrefix(l, "(error") {
				ans = "unknown"
				if s.log != nil {
					fmt.Fprintln(s.log, l)
				}
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SMT ERROR", l)
				}
				break
			}
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				ans = l
			}
		}
	}
	if s.wide {
		// wide numbers may need the preprocessing of the one-shot solver
		ask("(set-option :timeout 40)\n(check-sat)")
		s.in.WriteString(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		if ans != "sat" && ans != "unsat" {
			ask(fmt.Sprintf("(check-sat-using (try-for qfbv %d))", s.timeout))
		}
	} else if s.anyMul = s.anyMul || cond != nil && hasMul(cond, s.mulSeen); s.anyMul && !s.anyDiv {
		// sums of products may be easier over the integers
		ask(fmt.Sprintf("(set-option :timeout 300)\n(check-sat)\n(set-option :timeout %d)", s.timeout))
		if ans != "sat" && ans != "unsat" {
			if r, m := s.checkInt(cond); r != Unknown {
				s.in.WriteString("(pop 1)\n")
				s.stats.Int.Add(1)
				if r == Sat {
					s.stats.Sat.Add(1)
				} else {
					s.stats.Unsat.Add(1)
				}
				return r, m
			}
			ask("(check-sat)")
		}
	} else {
		ask("(check-sat)")
	}
	var r Result
	var m Model
	switch ans {
	case "sat":
		r = Sat
		m = s.readModel()
	case "unsat":
		r = Unsat
	default:
		r = Unknown
	}
	s.in.WriteString("(pop 1)\n")
	if r == Unknown {
		s.stats.Fallbacks.Add(1)
		r, m = s.fallback(cond)
	}
	switch r {
	case Sat:
		s.stats.Sat.Add(1)
	case Unsat:
		s.stats.Unsat.Add(1)
	default:
		s.stats.Unknown.Add(1)
	}
	return r, m
}

func (s *Solver) readUntilDone() []string {
	var res []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(engineError("solver died: " + err.Error()))
		}
		l = strings.TrimSpace(l)
		if l == "<done>" || l == "\"<done>\"" {
			return res
		}
		res = append(res, l)
	}
}

func (s *Solver) getValueCmd() string {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i := range s.ctx.Vars {
		fmt.Fprintf(&sb, "v%d ", i)
	}
	sb.WriteString("))\n")
	return sb.String()
}

func (s *Solver) readModel() Model {
	if len(s.ctx.Vars) == 0 {
		return Model{}
	}
	s.in.WriteString(s.getValueCmd())
	s.in.WriteString("(echo \"<done>\")\n")
	s.in.Flush()
	return parseModel(strings.Join(s.readUntilDone(), " "), len(s.ctx.Vars))
}

func parseModel(txt string, n int) Model {
	m := make(Model, n)
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	tok := strings.Fields(txt)
	for i := 0; i+1 < len(tok); i++ {
		if tok[i] != "(" || !strings.HasPrefix(tok[i+1], "v") {
			continue
		}
		var idx int
		if _, err := fmt.Sscanf(tok[i+1], "v%d", &idx); err != nil || idx >= n || i+2 >= len(tok) {
			continue
		}
		v := tok[i+2]
		val := new(big.Int)
		switch {
		case v == "true":
			val.SetInt64(1)
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			val.SetString(v[2:], 16)
		case strings.HasPrefix(v, "#b"):
			val.SetString(v[2:], 2)
		case v == "(" && i+4 < len(tok) && tok[i+3] == "_" && strings.HasPrefix(tok[i+4], "bv"):
			val.SetString(tok[i+4][2:], 10)
		}
		m[idx] = val
	}
	return m
}

// fallback solves the current path condition with fresh non-incremental solvers.
func (s *Solver) fallback(cond *Term) (Result, Model) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, l := range s.script {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	if cond != nil {
		sb.WriteString("(assert " + s.ref(cond) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(s.ctx.Vars) > 0 {
		sb.WriteString(s.getValueCmd())
	}
	src := sb.String()
	type res struct {
		r Result
		m Model
	}
	cmds := [][]string{
		{"z3", "-smt2", fmt.Sprintf("-T:%d", fallbackSecs), "-in"},
		{"z3-new", "-smt2", fmt.Sprintf("-T:%d", fallbackSecs), "-in"},
	}
	if !strings.Contains(src, "fp.to_ieee_bv") {
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", fallbackSecs*1000)})
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", fallbackSecs*1000)})
	}
	ch := make(chan res, len(cmds))
	cctx, cancel := context.WithTimeout(context.Background(), time.Duration(fallbackSecs+5)*time.Second)
	defer cancel()
	for _, c := range cmds {
		cmd := exec.CommandContext(cctx, c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(src)
		go func() {
			out, _ := cmd.Output()
			txt := string(out)
			first, rest, _ := strings.Cut(txt, "\n")
			switch strings.TrimSpace(first) {
			case "sat":
				ch <- res{Sat, parseModel(rest, len(s.ctx.Vars))}
			case "unsat":
				ch <- res{Unsat, nil}
			default:
				ch <- res{Unknown, nil}
			}
		}()
	}
	out := res{Unknown, nil}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			out = r
			break
		}
	}
	return out.r, out.m
}

var fallbackSecs = 20
var slowLog = os.Getenv("GOSYM_SLOW") != ""
var slowMin, _ = time.ParseDuration(os.Getenv("GOSYM_SLOW"))

// Snapshot returns queries, seconds and fall-backs so far.
func (s *Stats) Snapshot() (int64, float64, int64) {
	return s.Queries.Load(), float64(s.SolverNS.Load()) / 1e9, s.Fallbacks.Load()
}
