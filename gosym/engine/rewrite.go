package engine

import "math/big"

// rewrite simplifies a binary operation on terms of up to 64 bits, by algebra and by the ranges
// that hold on the path. It returns nil if nothing applies.
func (c *Ctx) rewrite(op Op, a, b *Term) *Term {
	w := a.W
	isNeg := func(t *Term) bool { return t.Op == OSub && t.A.IsConst() && t.A.V == 0 }
	switch op {
	case OAdd:
		switch {
		case isNeg(b):
			return c.Bin(OSub, a, b.B)
		case isNeg(a) && !b.IsConst():
			return c.Bin(OSub, b, a.B)
		case a.Op == OSub && a.B == b:
			return a.A
		case b.Op == OSub && b.B == a:
			return b.A
		}
	case OSub:
		switch {
		case isNeg(a) && isNeg(b):
			return c.Bin(OSub, b.B, a.B)
		case isNeg(b):
			return c.Bin(OAdd, a, b.B)
		case b.Op == OSub && b.A == a:
			return b.B
		case a.Op == OSub && a.A == b:
			return c.Neg(a.B)
		case a.Op == OAdd && a.A == b:
			return a.B
		case a.Op == OAdd && a.B == b:
			return a.A
		case b.Op == OAdd && b.A == a:
			return c.Neg(b.B)
		case b.Op == OAdd && b.B == a:
			return c.Neg(b.A)
		}
	case OMul:
		if isNeg(a) && b.IsConst() {
			return c.Neg(c.Bin(OMul, a.B, b))
		}
	}
	if c.rng == nil || !b.IsConst() {
		return nil
	}
	switch op {
	case OBAnd:
		hi := c.rng.of(a).hi
		if b.V&(b.V+1) == 0 && hi <= b.V {
			return a
		}
		if hi < b.V&-b.V {
			return c.Const(w, 0)
		}
	case OUDiv, OURem, OSDiv, OSRem:
		if t := c.divide(op, a, b.V); t != nil {
			return t
		}
	}
	return nil
}

// linear is a sum of multiples of terms and a constant.
type linear struct {
	ts []*Term
	ks []*big.Int
	k  *big.Int
	g  *ranges
}

const linearMax = 8

func (l *linear) add(t *Term, k *big.Int) bool {
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	// the parts of a bounded sum do not show its bounds
	r, bounded := l.g.known[t]
	switch {
	case bounded && r.hi < 1<<32:
	case t.IsConst():
		l.k.Add(l.k, new(big.Int).Mul(k, big.NewInt(sext(t.W, t.V))))
		return true
	case t.Op == OAdd:
		return l.add(t.A, k) && l.add(t.B, k)
	case t.Op == OSub:
		return l.add(t.A, k) && l.add(t.B, neg(k))
	case t.Op == OMul && t.B.IsConst():
		return l.add(t.A, new(big.Int).Mul(k, big.NewInt(sext(t.W, t.B.V))))
	}
	for i, o := range l.ts {
		if o == t {
			l.ks[i] = new(big.Int).Add(l.ks[i], k)
			return true
		}
	}
	if len(l.ts) == linearMax {
		return false
	}
	l.ts, l.ks = append(l.ts, t), append(l.ks, k)
	return true
}

// bounds is the range of the sum over the integers.
func (l *linear) bounds(g *ranges) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, t := range l.ts {
		r := g.of(t)
		a := new(big.Int).Mul(l.ks[i], new(big.Int).SetUint64(r.lo))
		b := new(big.Int).Mul(l.ks[i], new(big.Int).SetUint64(r.hi))
		if l.ks[i].Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return lo, hi
}

func (l *linear) negate() {
	l.k.Neg(l.k)
	for i := range l.ks {
		l.ks[i] = new(big.Int).Neg(l.ks[i])
	}
}

// term is the sum in words of w bits.
func (l *linear) term(c *Ctx, w uint16) *Term {
	mul := func(t *Term, k *big.Int) *Term { return c.Bin(OMul, t, c.BigConst(w, k)) }
	var r *Term
	for i, t := range l.ts {
		if l.ks[i].Sign() > 0 {
			if t = mul(t, l.ks[i]); r == nil {
				r = t
			} else {
				r = c.Bin(OAdd, r, t)
			}
		}
	}
	k := c.BigConst(w, l.k)
	if r == nil {
		r = k
	} else {
		r = c.Bin(OAdd, r, k)
	}
	for i, t := range l.ts {
		if l.ks[i].Sign() < 0 {
			r = c.Bin(OSub, r, mul(t, new(big.Int).Neg(l.ks[i])))
		}
	}
	return r
}

// divide simplifies the quotient or remainder of a by a constant.
func (c *Ctx) divide(op Op, a *Term, d uint64) *Term {
	w := a.W
	signed := op == OSDiv || op == OSRem
	sign := uint64(1) << (w - 1)
	if d == 0 || signed && d >= sign {
		return nil
	}
	l := &linear{k: new(big.Int), g: c.rng}
	if !l.add(a, bigOne) {
		return nil
	}
	lo, hi := l.bounds(c.rng)
	neg := false
	if signed && hi.Sign() <= 0 && lo.Sign() < 0 && lo.Cmp(new(big.Int).Neg(new(big.Int).SetUint64(sign))) > 0 {
		// the quotient of the opposite is the opposite
		l.negate()
		lo, hi = l.bounds(c.rng)
		neg = true
	}
	top := mask(w, ^uint64(0))
	if signed {
		top = sign - 1
	}
	if lo.Sign() < 0 || hi.Cmp(new(big.Int).SetUint64(top)) > 0 {
		return nil // not the sum over the integers
	}
	bd := new(big.Int).SetUint64(d)
	whole, rest := &linear{k: new(big.Int)}, &linear{k: l.k}
	for i, t := range l.ts {
		if q, m := new(big.Int).QuoRem(l.ks[i], bd, new(big.Int)); m.Sign() == 0 {
			whole.ts, whole.ks = append(whole.ts, t), append(whole.ks, q)
		} else {
			rest.ts, rest.ks = append(rest.ts, t), append(rest.ks, l.ks[i])
		}
	}
	lo, hi = rest.bounds(c.rng)
	q := new(big.Int).Div(lo, bd) // towards minus infinity
	whole.k = q
	by := new(big.Int).Mul(q, bd)
	rest.k = new(big.Int).Sub(rest.k, by)
	hi.Sub(hi, by)
	if len(whole.ts) == 0 && q.Sign() == 0 && !neg && hi.Cmp(bd) >= 0 {
		return nil // nothing gained
	}
	out := whole.term(c, w)
	r := rest.term(c, w)
	dc := c.Const(w, d)
	div := op == OSDiv || op == OUDiv
	switch {
	case hi.Cmp(bd) < 0:
		if !div {
			out = r
		}
	case hi.Cmp(new(big.Int).Lsh(bd, 1)) < 0:
		less := c.Cmp(OULT, r, dc)
		if div {
			out = c.Bin(OAdd, out, c.Ite(less, c.Const(w, 0), c.Const(w, 1)))
		} else {
			over := c.Const(w, 0)
			if hi.Cmp(bd) > 0 {
				over = c.Bin(OSub, r, dc)
			}
			out = c.Ite(less, r, over)
		}
	default:
		o := OURem
		if div {
			o = OUDiv
		}
		m := c.Bin(o, r, dc)
		if div {
			out = c.Bin(OAdd, out, m)
		} else {
			out = m
		}
	}
	if neg {
		return c.Neg(out)
	}
	return out
}
