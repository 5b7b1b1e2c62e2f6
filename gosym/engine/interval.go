package engine

import "math/bits"

// Ranges of terms under the bounds that the path condition states. They decide many comparisons of a path without the solver.

type urange struct{ lo, hi uint64 } // unsigned

type ranges struct {
	known map[*Term]urange // bounds stated by the path condition
	memo  map[*Term]urange
}

func full(w uint16) urange { return urange{0, mask(w, ^uint64(0))} }

func (g *ranges) of(t *Term) urange {
	switch t.Op {
	case OConst:
		return urange{t.V, t.V}
	case OVar:
		if r, ok := g.known[t]; ok {
			return r
		}
		return full(t.W)
	}
	if r, ok := g.memo[t]; ok {
		return r
	}
	r := g.of1(t)
	if k, ok := g.known[t]; ok && max(k.lo, r.lo) <= min(k.hi, r.hi) {
		r = urange{max(k.lo, r.lo), min(k.hi, r.hi)}
	}
	if g.memo == nil {
		g.memo = map[*Term]urange{}
	}
	g.memo[t] = r
	return r
}

func narrow(ts ...*Term) bool {
	for _, t := range ts {
		if t == nil || t.W == 0 || t.W > 64 {
			return false
		}
	}
	return true
}

func (g *ranges) of1(t *Term) urange {
	f := full(t.W)
	switch t.Op {
	case OIte:
		if narrow(t.B, t.C) {
			a, b := g.of(t.B), g.of(t.C)
			if t.A.Op == OULT && t.A.B.IsConst() && t.B == t.A.A {
				// x < k ? x : x - k, a remainder
				x, k := t.A.A, t.A.B.V
				if k > 0 && a.lo < k {
					a.hi = min(a.hi, k-1)
				}
				if t.C.Op == OAdd && t.C.A == x && t.C.B.IsConst() && mask(t.W, t.C.B.V+k) == 0 && g.of(x).hi >= k {
					b = urange{0, g.of(x).hi - k}
				}
			}
			return urange{min(a.lo, b.lo), max(a.hi, b.hi)}
		}
		return f
	case OZExt:
		if narrow(t.A) {
			return g.of(t.A)
		}
		return f
	case OSExt:
		if narrow(t.A) {
			if a := g.of(t.A); a.hi < 1<<(t.A.W-1) {
				return a
			}
		}
		return f
	case OExtract:
		if narrow(t.A) && t.V&0xffff == 0 {
			if a := g.of(t.A); a.hi <= f.hi {
				return a
			}
		}
		return f
	}
	if !narrow(t.A, t.B) {
		return f
	}
	a, b := g.of(t.A), g.of(t.B)
	sign := uint64(1) << (t.W - 1)
	switch t.Op {
	case OAdd:
		lo, c1 := bits.Add64(a.lo, b.lo, 0)
		hi, c2 := bits.Add64(a.hi, b.hi, 0)
		if t.W < 64 {
			c1, c2 = lo>>t.W, hi>>t.W
		}
		if c1 == c2 {
			return urange{mask(t.W, lo), mask(t.W, hi)}
		}
	case OSub:
		if a.lo >= b.hi {
			return urange{a.lo - b.hi, a.hi - b.lo}
		}
		if a.hi < b.lo { // wraps around always
			return urange{mask(t.W, a.lo-b.hi), mask(t.W, a.hi-b.lo)}
		}
	case OMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= f.hi {
			return urange{a.lo * b.lo, l}
		}
	case OUDiv, OSDiv:
		if b.lo > 0 && (t.Op == OUDiv || a.hi < sign && b.hi < sign) {
			return urange{a.lo / b.hi, a.hi / b.lo}
		}
	case OURem, OSRem:
		if b.lo > 0 && (t.Op == OURem || a.hi < sign && b.hi < sign) {
			if a.hi < b.lo {
				return a
			}
			return urange{0, min(a.hi, b.hi-1)}
		}
	case OBAnd:
		return urange{0, min(a.hi, b.hi)}
	case OLShr:
		if b.lo == b.hi && b.lo < uint64(t.W) {
			return urange{a.lo >> b.lo, a.hi >> b.lo}
		}
	}
	return f
}

// decide is 1 or -1 if the ranges decide the condition, else 0.
func (g *ranges) decide(t *Term) int {
	yes := func(b bool) int {
		if b {
			return 1
		}
		return -1
	}
	switch t.Op {
	case OConst:
		return yes(t.V != 0)
	case ONot:
		return -g.decide(t.A)
	case OAnd:
		return min(g.decide(t.A), g.decide(t.B))
	case OOr:
		return max(g.decide(t.A), g.decide(t.B))
	case OEq, OULT, OULE, OSLT, OSLE:
	default:
		return 0
	}
	if t.Op == OEq && t.A.W == 0 && t.B.W == 0 {
		return g.decide(t.A) * g.decide(t.B)
	}
	if !narrow(t.A, t.B) {
		return 0
	}
	if t.Op == OULT && g.sumOf(t.A, t.B) {
		return -1
	}
	if t.Op == OULE && g.sumOf(t.B, t.A) {
		return 1
	}
	if t.Op != OEq {
		strict := t.Op == OULT || t.Op == OSLT
		signed := t.Op == OSLT || t.Op == OSLE
		switch {
		case t.A.Op == OSub && t.A.A == t.B:
			if x, ok := g.lessBy(t.A, signed); ok && (x.lo > 0 || !strict) {
				return 1
			} else if ok && x.hi == 0 {
				return -1
			}
		case t.B.Op == OSub && t.B.A == t.A:
			if x, ok := g.lessBy(t.B, signed); ok && (x.lo > 0 || strict) {
				return -1
			} else if ok && x.hi == 0 {
				return 1
			}
		}
	}
	a, b := g.of(t.A), g.of(t.B)
	if t.Op == OSLT || t.Op == OSLE {
		// compare as unsigned after moving the sign, if no range straddles it
		s := uint64(1) << (t.A.W - 1)
		if (a.lo^a.hi)&s != 0 || (b.lo^b.hi)&s != 0 {
			return 0
		}
		a, b = urange{a.lo ^ s, a.hi ^ s}, urange{b.lo ^ s, b.hi ^ s}
	}
	switch t.Op {
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return -1
		}
		if a.lo == a.hi && a == b {
			return 1
		}
	case OULT, OSLT:
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return -1
		}
	default:
		if a.hi <= b.lo {
			return 1
		}
		if a.lo > b.hi {
			return -1
		}
	}
	return 0
}

// sumOf reports whether s is a sum of x and something that does not wrap around.
func (g *ranges) sumOf(s, x *Term) bool {
	if s.Op != OAdd || s.A != x && s.B != x {
		return false
	}
	sum, carry := bits.Add64(g.of(s.A).hi, g.of(s.B).hi, 0)
	return carry == 0 && sum <= mask(s.W, ^uint64(0))
}

// lessBy is what the difference subtracts, if it does not wrap around.
func (g *ranges) lessBy(sub *Term, signed bool) (urange, bool) {
	a, x := g.of(sub.A), g.of(sub.B)
	if a.lo < x.hi {
		return x, false
	}
	s := uint64(1) << (sub.W - 1)
	return x, !signed || (a.lo-x.hi)&s == a.hi&s
}

// learn takes the bounds from a condition that holds.
func (g *ranges) learn(t *Term, neg bool) {
	switch t.Op {
	case ONot:
		g.learn(t.A, !neg)
		return
	case OAnd:
		if !neg {
			g.learn(t.A, false)
			g.learn(t.B, false)
		}
		return
	case OOr:
		if neg {
			g.learn(t.A, true)
			g.learn(t.B, true)
		}
		return
	case OEq:
		if neg || !narrow(t.A, t.B) {
			return
		}
		if t.A.IsConst() {
			g.bound(t.B, t.A.V, t.A.V)
		} else if t.B.IsConst() {
			g.bound(t.A, t.B.V, t.B.V)
		}
		return
	case OULT, OULE, OSLT, OSLE:
	default:
		return
	}
	if !narrow(t.A, t.B) {
		return
	}
	a, b, strict := t.A, t.B, t.Op == OULT || t.Op == OSLT
	signed := t.Op == OSLT || t.Op == OSLE
	if neg { // not a<b is b<=a
		a, b, strict = b, a, !strict
	}
	top := mask(a.W, ^uint64(0))
	sign := uint64(1) << (a.W - 1)
	switch {
	case b.IsConst(): // a below b
		hi := b.V
		if signed && (hi >= sign || g.of(a).hi >= sign) {
			return
		}
		if strict {
			if hi == 0 {
				return
			}
			hi--
		}
		g.bound(a, 0, hi)
	case a.IsConst(): // b above a
		lo := a.V
		if signed {
			if lo >= sign {
				return
			}
			top = sign - 1
		}
		if strict {
			if lo == top {
				return
			}
			lo++
		}
		g.bound(b, lo, top)
	}
}

func (g *ranges) bound(t *Term, lo, hi uint64) {
	for t.Op == OZExt && narrow(t.A) {
		t = t.A
	}
	r := g.of(t)
	n := urange{max(r.lo, lo), min(r.hi, hi)}
	if n.lo > n.hi || n == r { // a contradiction is left to the solver
		return
	}
	if g.known == nil {
		g.known = map[*Term]urange{}
	}
	g.known[t] = n
	clear(g.memo)
}
