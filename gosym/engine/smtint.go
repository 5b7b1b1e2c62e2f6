package engine

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// intEnc re-encodes a bit-vector query over the integers (two's complement
// values, explicit wrap-around where interval analysis cannot exclude it).
// Divisions by constants become linear constraints, which integer solvers
// decide where bit-blasting does not terminate.
type intEnc struct {
	decls, body []string
	memo        map[*Term]intVal
	n           int
	divs        int
	bounds      map[*Term][2]*big.Int
	divMemo     map[string][2]intVal
}

type intVal struct {
	s      string
	lo, hi *big.Int // integer range (nil for bools)
}

type intUnsupported struct{}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

func istr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (e *intEnc) fresh(sort string) string {
	e.n++
	n := fmt.Sprintf("i%d", e.n)
	e.decls = append(e.decls, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}

func (e *intEnc) assert(f string, a ...any) {
	e.body = append(e.body, "(assert "+fmt.Sprintf(f, a...)+")")
}

func (e *intEnc) name(v intVal) intVal {
	if len(v.s) < 24 {
		return v
	}
	n := e.fresh("Int")
	e.assert("(= %s %s)", n, v.s)
	v.s = n
	return v
}

// wrap brings an exact integer value into the signed range of width w.
func (e *intEnc) wrap(v intVal, w uint16) intVal {
	min := new(big.Int).Neg(pow2(uint(w - 1)))
	max := new(big.Int).Sub(pow2(uint(w-1)), big.NewInt(1))
	if v.lo.Cmp(min) >= 0 && v.hi.Cmp(max) <= 0 {
		return e.name(v)
	}
	k, r := e.fresh("Int"), e.fresh("Int")
	e.assert("(= %s (+ (* %s %s) %s))", v.s, pow2(uint(w)), k, r)
	e.assert("(and (<= %s %s) (<= %s %s))", istr(min), r, r, istr(max))
	m := pow2(uint(w))
	kl := new(big.Int).Div(new(big.Int).Sub(v.lo, min), m)
	kh := new(big.Int).Div(new(big.Int).Sub(v.hi, min), m)
	e.assert("(and (<= %s %s) (<= %s %s))", istr(kl), k, k, istr(kh))
	return intVal{r, min, max}
}

// uns is the unsigned view of a signed value of width w.
func (e *intEnc) uns(v intVal, w uint16) intVal {
	if v.lo.Sign() >= 0 {
		return v
	}
	m := pow2(uint(w))
	if v.hi.Sign() < 0 {
		return intVal{fmt.Sprintf("(+ %s %s)", v.s, m), new(big.Int).Add(v.lo, m), new(big.Int).Add(v.hi, m)}
	}
	return e.name(intVal{fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", v.s, v.s, m, v.s), new(big.Int), new(big.Int).Sub(m, big.NewInt(1))})
}

// divmod: floor selects floored, otherwise truncated division.
func (e *intEnc) divmod(v intVal, c *big.Int, floor bool) (q, r intVal) {
	e.divs++
	key := new(big.Int).Sub(c, big.NewInt(1))
	if v.lo.Sign() >= 0 && v.hi.Cmp(c) < 0 {
		return intVal{"0", new(big.Int), new(big.Int)}, v
	}
	if !floor && v.lo.Sign() < 0 && v.hi.Cmp(c) < 0 && new(big.Int).Neg(v.lo).Cmp(c) < 0 {
		return intVal{"0", new(big.Int), new(big.Int)}, v
	}
	ck := fmt.Sprintf("%s/%s/%v", v.s, c, floor || v.lo.Sign() >= 0)
	if d, ok := e.divMemo[ck]; ok {
		return d[0], d[1]
	}
	defer func() { e.divMemo[ck] = [2]intVal{q, r} }()
	qs, rs := e.fresh("Int"), e.fresh("Int")
	e.assert("(= %s (+ (* %s %s) %s))", v.s, c, qs, rs)
	div := func(x *big.Int) *big.Int {
		if floor {
			return new(big.Int).Div(x, c)
		}
		return new(big.Int).Quo(x, c)
	}
	q = intVal{qs, div(v.lo), div(v.hi)}
	switch {
	case floor || v.lo.Sign() >= 0:
		e.assert("(and (<= 0 %s) (< %s %s))", rs, rs, c)
		r = intVal{rs, new(big.Int), key}
	case v.hi.Sign() <= 0:
		e.assert("(and (<= %s 0) (< (- %s) %s))", rs, c, rs)
		r = intVal{rs, new(big.Int).Neg(key), new(big.Int)}
	default:
		e.assert("(ite (>= %s 0) (and (<= 0 %s) (< %s %s) (<= 0 %s)) (and (<= %s 0) (< (- %s) %s) (<= %s 0)))", v.s, rs, rs, c, qs, rs, c, rs, qs)
		r = intVal{rs, new(big.Int).Neg(key), key}
	}
	e.assert("(and (<= %s %s) (<= %s %s))", istr(q.lo), q.s, q.s, istr(q.hi))
	return q, r
}

func (e *intEnc) signedConst(t *Term) *big.Int { return toSigned(t.W, t.bigVal()) }

func (e *intEnc) tr(t *Term) intVal {
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.tr1(t)
	e.memo[t] = v
	return v
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (e *intEnc) tr1(t *Term) intVal {
	add := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
	sub := func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
	mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.V != 0 {
				return intVal{s: "true"}
			}
			return intVal{s: "false"}
		}
		c := e.signedConst(t)
		return intVal{istr(c), c, c}
	case OVar:
		n := fmt.Sprintf("v%d", t.V)
		if t.W == 0 {
			e.decls = append(e.decls, fmt.Sprintf("(declare-const %s Bool)", n))
			return intVal{s: n}
		}
		e.decls = append(e.decls, fmt.Sprintf("(declare-const %s Int)", n))
		lo := new(big.Int).Neg(pow2(uint(t.W - 1)))
		hi := sub(pow2(uint(t.W-1)), big.NewInt(1))
		if b, ok := e.bounds[t]; ok {
			if b[0] != nil {
				lo = maxB(lo, b[0])
			}
			if b[1] != nil {
				hi = minB(hi, b[1])
			}
		}
		if lo.Cmp(hi) > 0 {
			panic(intUnsupported{})
		}
		e.assert("(and (<= %s %s) (<= %s %s))", istr(lo), n, n, istr(hi))
		return intVal{n, lo, hi}
	case ONot:
		return intVal{s: "(not " + e.tr(t.A).s + ")"}
	case OAnd, OOr:
		return intVal{s: "(" + opNames[t.Op] + " " + e.tr(t.A).s + " " + e.tr(t.B).s + ")"}
	case OEq:
		return intVal{s: "(= " + e.tr(t.A).s + " " + e.tr(t.B).s + ")"}
	case OIte:
		c, a, b := e.tr(t.A), e.tr(t.B), e.tr(t.C)
		s := "(ite " + c.s + " " + a.s + " " + b.s + ")"
		if t.W == 0 {
			return intVal{s: s}
		}
		return e.name(intVal{s, minB(a.lo, b.lo), maxB(a.hi, b.hi)})
	case OAdd:
		a, b := e.tr(t.A), e.tr(t.B)
		return e.wrap(intVal{"(+ " + a.s + " " + b.s + ")", add(a.lo, b.lo), add(a.hi, b.hi)}, t.W)
	case OSub:
		a, b := e.tr(t.A), e.tr(t.B)
		return e.wrap(intVal{"(- " + a.s + " " + b.s + ")", sub(a.lo, b.hi), sub(a.hi, b.lo)}, t.W)
	case OMul:
		a, b := t.A, t.B
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op != OConst {
			panic(intUnsupported{})
		}
		return e.mulc(e.tr(a), e.signedConst(b), t.W)
	case OShl:
		if t.B.Op != OConst || t.B.bigVal().Cmp(big.NewInt(int64(t.W))) >= 0 {
			panic(intUnsupported{})
		}
		return e.mulc(e.tr(t.A), pow2(uint(t.B.V)), t.W)
	case OSDiv, OSRem, OUDiv, OURem:
		if t.B.Op != OConst {
			panic(intUnsupported{})
		}
		c := e.signedConst(t.B)
		if c.Sign() <= 0 {
			panic(intUnsupported{})
		}
		v := e.tr(t.A)
		if t.Op == OUDiv || t.Op == OURem {
			v = e.uns(v, t.W)
		}
		q, r := e.divmod(e.name(v), c, false)
		if t.Op == OSDiv || t.Op == OUDiv {
			return e.wrap(q, t.W)
		}
		return r
	case OLShr, OAShr:
		if t.B.Op != OConst || t.B.bigVal().Cmp(big.NewInt(int64(t.W))) >= 0 {
			panic(intUnsupported{})
		}
		v := e.tr(t.A)
		if t.Op == OLShr {
			v = e.uns(v, t.W)
		}
		q, _ := e.divmod(e.name(v), pow2(uint(t.B.V)), true)
		return e.wrap(q, t.W)
	case OBAnd:
		a, b := t.A, t.B
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op != OConst {
			panic(intUnsupported{})
		}
		m := b.bigVal()
		if m.Sign() == 0 {
			return intVal{"0", new(big.Int), new(big.Int)}
		}
		lowz := m.TrailingZeroBits()
		hi := uint(m.BitLen())
		if sub(pow2(hi), pow2(lowz)).Cmp(m) != 0 {
			panic(intUnsupported{})
		}
		v := e.tr(a)
		if hi == uint(t.W) {
			if lowz == hi-1 {
				min := new(big.Int).Neg(pow2(hi - 1))
				return e.name(intVal{fmt.Sprintf("(ite (< %s 0) %s 0)", v.s, istr(min)), min, new(big.Int)})
			}
			_, r := e.divmod(e.name(v), pow2(lowz), true)
			return e.wrap(intVal{fmt.Sprintf("(- %s %s)", v.s, r.s), sub(v.lo, r.hi), v.hi}, t.W)
		}
		_, r := e.divmod(e.name(v), pow2(hi), true)
		if lowz == 0 {
			return r
		}
		_, r2 := e.divmod(e.name(r), pow2(lowz), true)
		return e.name(intVal{fmt.Sprintf("(- %s %s)", r.s, r2.s), new(big.Int), r.hi})
	case OBNot:
		v := e.tr(t.A)
		return e.name(intVal{"(- (- 1) " + v.s + ")", sub(big.NewInt(-1), v.hi), sub(big.NewInt(-1), v.lo)})
	case OExtract:
		hi, lo := uint(t.V>>16), uint(t.V&0xffff)
		v := e.tr(t.A)
		if lo > 0 {
			v, _ = e.divmod(e.name(v), pow2(lo), true)
		}
		return e.wrap(v, uint16(hi-lo+1))
	case OZExt:
		return e.name(e.uns(e.tr(t.A), t.A.W))
	case OSExt:
		return e.tr(t.A)
	case OConcat:
		a, b := e.tr(t.A), e.uns(e.tr(t.B), t.B.W)
		m := pow2(uint(t.B.W))
		return e.name(intVal{fmt.Sprintf("(+ (* %s %s) %s)", m, a.s, b.s), add(mul(a.lo, m), b.lo), add(mul(a.hi, m), b.hi)})
	case OSLT, OSLE, OULT, OULE:
		a, b := e.tr(t.A), e.tr(t.B)
		op := "<"
		if t.Op == OSLE || t.Op == OULE {
			op = "<="
		}
		if t.Op == OULT || t.Op == OULE {
			a, b = e.uns(a, t.A.W), e.uns(b, t.A.W)
		}
		return intVal{s: "(" + op + " " + a.s + " " + b.s + ")"}
	}
	panic(intUnsupported{})
}

func (e *intEnc) mulc(v intVal, c *big.Int, w uint16) intVal {
	x, y := new(big.Int).Mul(v.lo, c), new(big.Int).Mul(v.hi, c)
	return e.wrap(intVal{fmt.Sprintf("(* %s %s)", istr(c), v.s), minB(x, y), maxB(x, y)}, w)
}

// learn collects variable bounds from conjuncts.
func (e *intEnc) learn(t *Term, neg bool) {
	switch t.Op {
	case OAnd:
		if !neg {
			e.learn(t.A, false)
			e.learn(t.B, false)
		}
	case OOr:
		if neg {
			e.learn(t.A, true)
			e.learn(t.B, true)
		}
	case ONot:
		e.learn(t.A, !neg)
	case OSLT, OSLE:
		a, b, strict := t.A, t.B, t.Op == OSLT
		if neg { // not(a<b) == b<=a
			a, b, strict = b, a, !strict
		}
		set := func(v *Term, i int, c *big.Int) {
			bd := e.bounds[v]
			if bd[i] == nil || (i == 0 && c.Cmp(bd[0]) > 0) || (i == 1 && c.Cmp(bd[1]) < 0) {
				bd[i] = c
			}
			e.bounds[v] = bd
		}
		d := big.NewInt(0)
		if strict {
			d = big.NewInt(1)
		}
		if a.Op == OVar && b.Op == OConst {
			set(a, 1, new(big.Int).Sub(e.signedConst(b), d))
		}
		if b.Op == OVar && a.Op == OConst {
			set(b, 0, new(big.Int).Add(e.signedConst(a), d))
		}
	}
}

// hasDiv reports whether t contains a division by a constant at width >= 32.
func hasDiv(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch t.Op {
	case OSDiv, OSRem, OUDiv, OURem:
		if t.W >= 32 && t.B.Op == OConst && t.B.V&(t.B.V-1) != 0 {
			return true
		}
	}
	return hasDiv(t.A, seen) || hasDiv(t.B, seen) || hasDiv(t.C, seen)
}

// hasMul says whether there are products of wide numbers in t.
func hasMul(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == OMul && t.W >= 32 && t.W <= 64 {
		return true
	}
	return hasMul(t.A, seen) || hasMul(t.B, seen) || hasMul(t.C, seen)
}

// checkInt decides the query over the integers, or returns Unknown.
func (s *Solver) checkInt(cond *Term) (res Result, m Model) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(intUnsupported); ok {
				res, m = Unknown, nil
				return
			}
			panic(r)
		}
	}()
	e := &intEnc{memo: map[*Term]intVal{}, bounds: map[*Term][2]*big.Int{}, divMemo: map[string][2]intVal{}}
	for _, t := range s.asserted {
		e.learn(t, false)
	}
	if cond != nil {
		e.learn(cond, false)
	}
	var asserts []string
	for _, t := range s.asserted {
		asserts = append(asserts, e.tr(t).s)
	}
	if cond != nil {
		asserts = append(asserts, e.tr(cond).s)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, d := range e.decls {
		sb.WriteString(d + "\n")
	}
	for _, d := range e.body {
		sb.WriteString(d + "\n")
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	var vars []int
	for t := range e.memo {
		if t.Op == OVar {
			vars = append(vars, int(t.V))
		}
	}
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&sb, "v%d ", v)
		}
		sb.WriteString("))\n")
	}
	src := sb.String()
	type ans struct {
		r Result
		m Model
	}
	cmds := [][]string{
		{"z3", "-smt2", fmt.Sprintf("-T:%d", intSecs), "-in"},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", intSecs*1000)},
	}
	ch := make(chan ans, len(cmds))
	cctx, cancel := context.WithTimeout(context.Background(), time.Duration(intSecs+5)*time.Second)
	defer cancel()
	for _, c := range cmds {
		cmd := exec.CommandContext(cctx, c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(src)
		go func() {
			out, _ := cmd.Output()
			first, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(first) {
			case "sat":
				ch <- ans{Sat, s.parseIntModel(rest)}
			case "unsat":
				ch <- ans{Unsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	for range cmds {
		if r := <-ch; r.r != Unknown {
			return r.r, r.m
		}
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		os.WriteFile(fmt.Sprintf("/tmp/int-%p.smt2", e), []byte(src), 0o644)
	}
	return Unknown, nil
}

var intSecs = 15

func (s *Solver) parseIntModel(txt string) Model {
	m := make(Model, len(s.ctx.Vars))
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	tok := strings.Fields(txt)
	for i := 0; i+2 < len(tok); i++ {
		var idx int
		if tok[i] != "(" || !strings.HasPrefix(tok[i+1], "v") {
			continue
		}
		if _, err := fmt.Sscanf(tok[i+1], "v%d", &idx); err != nil || idx >= len(m) {
			continue
		}
		v := new(big.Int)
		switch {
		case tok[i+2] == "true":
			v.SetInt64(1)
		case tok[i+2] == "false":
		case tok[i+2] == "(" && i+4 < len(tok) && tok[i+3] == "-":
			v.SetString(tok[i+4], 10)
			v.Neg(v)
		default:
			v.SetString(tok[i+2], 10)
		}
		if w := s.ctx.Vars[idx].W; w > 0 && v.Sign() < 0 {
			v.Add(v, pow2(uint(w)))
		}
		m[idx] = v
	}
	return m
}
