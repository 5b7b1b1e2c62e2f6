package engine

import (
	"reflect"
	"regexp"
	"regexp/syntax"
	"sync"
)

var reProgs sync.Map // expr -> *syntax.Prog

func reProg(re *regexp.Regexp) *syntax.Prog {
	s := re.String()
	if p, ok := reProgs.Load(s); ok {
		return p.(*syntax.Prog)
	}
	x, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		unsupported("regexp %s", s)
	}
	pr, err := syntax.Compile(x.Simplify())
	if err != nil {
		unsupported("regexp %s", s)
	}
	reProgs.Store(s, pr)
	return pr
}

// runeIn is the condition that byte b (ASCII) matches the instruction.
func (p *Path) runeIn(in *syntax.Inst, b Value) *Term {
	if c, ok := b.(uint64); ok {
		return p.c.Bool(in.MatchRune(rune(c)))
	}
	t := p.term(b, 8)
	c := p.c
	switch in.Op {
	case syntax.InstRuneAny:
		return c.Bool(true)
	case syntax.InstRuneAnyNotNL:
		return c.Not(c.Eq(t, c.Const(8, '\n')))
	}
	if in.Op == syntax.InstRune1 || len(in.Rune) == 1 {
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			r := c.Bool(false)
			for b := rune(0); b < 128; b++ {
				if in.MatchRune(b) {
					r = c.Or(r, c.Eq(t, c.Const(8, uint64(b))))
				}
			}
			return r
		}
		if in.Rune[0] > 127 {
			return c.Bool(false)
		}
		return c.Eq(t, c.Const(8, uint64(in.Rune[0])))
	}
	r := c.Bool(false)
	for i := 0; i+1 < len(in.Rune); i += 2 {
		lo, hi := in.Rune[i], in.Rune[i+1]
		if lo > 127 {
			continue
		}
		if hi > 127 {
			hi = 127
		}
		r = c.Or(r, c.And(c.Cmp(OULE, c.Const(8, uint64(lo)), t), c.Cmp(OULE, t, c.Const(8, uint64(hi)))))
	}
	return r
}

func (p *Path) asciiBytes(s Value) []Value {
	bs := p.strBytes(s)
	for _, b := range bs {
		if c, ok := b.(uint64); ok {
			if c > 127 {
				unsupported("regexp over non-ASCII text mixed with symbolic bytes")
			}
			continue
		}
		t := p.term(b, 8)
		if p.c.Cmp(OULE, t, p.c.Const(8, 127)) != p.c.Bool(true) {
			if !p.branch(p.c.Cmp(OULE, t, p.c.Const(8, 127))) {
				unsupported("regexp over non-ASCII symbolic text")
			}
		}
	}
	return bs
}

func emptyOK(op syntax.EmptyOp, pos, n int) bool {
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
		unsupported("regexp empty-width operator %d", op)
	}
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != n {
		return false
	}
	return true
}

// reMatch is the condition that the (unanchored) pattern matches: a Thompson
// simulation in which every state's activity is a formula over the bytes.
func (p *Path) reMatch(pr *syntax.Prog, bs []Value) *Term {
	c := p.c
	n := len(bs)
	matched := c.Bool(false)
	var closure func(m map[uint32]*Term, pc uint32, g *Term, pos int, seen map[uint32]bool)
	closure = func(m map[uint32]*Term, pc uint32, g *Term, pos int, seen map[uint32]bool) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		defer delete(seen, pc)
		in := &pr.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			closure(m, in.Out, g, pos, seen)
			closure(m, in.Arg, g, pos, seen)
		case syntax.InstCapture, syntax.InstNop:
			closure(m, in.Out, g, pos, seen)
		case syntax.InstEmptyWidth:
			if emptyOK(syntax.EmptyOp(in.Arg), pos, n) {
				closure(m, in.Out, g, pos, seen)
			}
		case syntax.InstMatch:
			matched = c.Or(matched, g)
		case syntax.InstFail:
		default:
			if o, ok := m[pc]; ok {
				m[pc] = c.Or(o, g)
			} else {
				m[pc] = g
			}
		}
	}
	cur := map[uint32]*Term{}
	for pos := 0; ; pos++ {
		closure(cur, uint32(pr.Start), c.Bool(true), pos, map[uint32]bool{})
		if pos == n {
			return matched
		}
		next := map[uint32]*Term{}
		for pc := uint32(0); int(pc) < len(pr.Inst); pc++ {
			g, ok := cur[pc]
			if !ok {
				continue
			}
			in := &pr.Inst[pc]
			g2 := c.And(g, p.runeIn(in, bs[pos]))
			if g2 == c.Bool(false) {
				continue
			}
			closure(next, in.Out, g2, pos+1, map[uint32]bool{})
		}
		cur = next
	}
}

// reFind backtracks with leftmost-first preference, forking on byte classes.
func (p *Path) reFind(pr *syntax.Prog, bs []Value) []int {
	n := len(bs)
	type st struct {
		pc  uint32
		pos int
	}
	ncap := 2
	for i := range pr.Inst {
		if pr.Inst[i].Op == syntax.InstCapture && int(pr.Inst[i].Arg)+1 > ncap {
			ncap = int(pr.Inst[i].Arg) + 1
		}
	}
	for start := 0; start <= n; start++ {
		visited := map[st]bool{}
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		var run func(pc uint32, pos int) bool
		run = func(pc uint32, pos int) bool {
			s := st{pc, pos}
			if visited[s] {
				return false
			}
			visited[s] = true
			in := &pr.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				return run(in.Out, pos) || run(in.Arg, pos)
			case syntax.InstCapture:
				old := caps[in.Arg]
				caps[in.Arg] = pos
				if run(in.Out, pos) {
					return true
				}
				caps[in.Arg] = old
				return false
			case syntax.InstNop:
				return run(in.Out, pos)
			case syntax.InstEmptyWidth:
				return emptyOK(syntax.EmptyOp(in.Arg), pos, n) && run(in.Out, pos)
			case syntax.InstMatch:
				caps[0], caps[1] = start, pos
				return true
			case syntax.InstFail:
				return false
			}
			if pos >= n || !p.branch(p.runeIn(in, bs[pos])) {
				return false
			}
			return run(in.Out, pos+1)
		}
		if run(uint32(pr.Start), start) {
			return caps
		}
		if pr.StartCond()&syntax.EmptyBeginText != 0 {
			return nil
		}
	}
	return nil
}

func registerRegexp(P *Program) {
	N := P.Natives
	re := func(p *Path, fr *frame, v Value) *regexp.Regexp {
		c := v.(*Value)
		if c == nil {
			p.raise(fr, "invalid memory address or nil pointer dereference")
		}
		b, ok := (*c).(*nativeBox)
		if !ok {
			unsupported("regexp value %T", *c)
		}
		return b.v.(*regexp.Regexp)
	}
	N["(*regexp.Regexp).MatchString"] = func(p *Path, fr *frame, a []Value) Value {
		r := re(p, fr, a[0])
		s := p.force(a[1])
		if c, ok := s.(string); ok {
			return r.MatchString(c)
		}
		return p.lift(p.reMatch(reProg(r), p.asciiBytes(s)))
	}
	N["(*regexp.Regexp).String"] = func(p *Path, fr *frame, a []Value) Value { return re(p, fr, a[0]).String() }
	N["(*regexp.Regexp).FindStringSubmatch"] = func(p *Path, fr *frame, a []Value) Value {
		r := re(p, fr, a[0])
		s := p.force(a[1])
		if c, ok := s.(string); ok {
			return p.fromHost(reflect.ValueOf(r.FindStringSubmatch(c)))
		}
		bs := p.asciiBytes(s)
		m := p.reFind(reProg(r), bs)
		if m == nil {
			return []Value(nil)
		}
		out := make([]Value, r.NumSubexp()+1)
		for i := range out {
			out[i] = ""
			if 2*i+1 < len(m) && m[2*i] >= 0 && m[2*i+1] >= 0 {
				out[i] = normStr(append([]Value(nil), bs[m[2*i]:m[2*i+1]]...))
			}
		}
		return out
	}
	for name, f := range map[string]any{
		"FindString":         (*regexp.Regexp).FindString,
		"ReplaceAllString":   (*regexp.Regexp).ReplaceAllString,
		"Split":              (*regexp.Regexp).Split,
		"FindAllString":      (*regexp.Regexp).FindAllString,
		"FindStringIndex":    (*regexp.Regexp).FindStringIndex,
		"SubexpNames":        (*regexp.Regexp).SubexpNames,
		"NumSubexp":          (*regexp.Regexp).NumSubexp,
		"Match":              (*regexp.Regexp).Match,
		"FindAllStringIndex": (*regexp.Regexp).FindAllStringIndex,
	} {
		fv := reflect.ValueOf(f)
		N["(*regexp.Regexp)."+name] = func(p *Path, fr *frame, a []Value) Value {
			in := []reflect.Value{reflect.ValueOf(re(p, fr, a[0]))}
			sig := p.calleeSig(fr)
			for i := 1; i < len(a); i++ {
				v, ok := p.toHost(a[i], sig.Params().At(i-1).Type(), fv.Type().In(i))
				if !ok {
					unsupported("regexp %s on symbolic text", name)
				}
				in = append(in, v)
			}
			return p.fromHost(fv.Call(in)[0])
		}
	}
}
