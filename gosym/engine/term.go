// Package engine is a path-forking symbolic executor for Go SSA.
package engine

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OULT
	OULE
	OSLT
	OSLE
	OConcat
	OExtract
	OZExt
	OSExt
	OFEq
	OFLt
	OFLe
	OFNaN
	OFAdd
	OFSub
	OFMul
	OFDiv
	OF64to32
	OF32to64
	OStoF // signed int (width A.W) to float of width W
	OUtoF
	OFtoS // float to signed int of width W (truncating)
)

// Term is a hash-consed SMT term. W==0 means Bool, otherwise a bit-vector of width W.
type Term struct {
	Op      Op
	W       uint16
	V       uint64 // const value, var index, or extract hi<<16|lo
	Big     *big.Int
	A, B, C *Term
	ID      int
}

type termKey struct {
	op      Op
	w       uint16
	v       uint64
	a, b, c *Term
}

// VarInfo describes a symbolic variable of a path.
type VarInfo struct {
	Name     string
	W        uint16
	Internal bool // not a harness input
}

// Ctx owns the terms of one path.
type Ctx struct {
	tab    map[termKey]*Term
	bigTab map[string]*Term
	next   int
	Vars   []VarInfo
	VarT   []*Term
	True   *Term
	False  *Term
	rng    *ranges // of the path
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[termKey]*Term, 256)}
	c.True = c.mk(OConst, 0, 1, nil, nil, nil)
	c.False = c.mk(OConst, 0, 0, nil, nil, nil)
	return c
}

func (c *Ctx) mk(op Op, w uint16, v uint64, a, b, d *Term) *Term {
	k := termKey{op, w, v, a, b, d}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, V: v, A: a, B: b, C: d, ID: c.next}
	c.next++
	c.tab[k] = t
	return t
}

func mask(w uint16, v uint64) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}

func sext(w uint16, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// Const makes a constant of width w (<=64).
func (c *Ctx) Const(w uint16, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.True
		}
		return c.False
	}
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(v))
	}
	return c.mk(OConst, w, mask(w, v), nil, nil, nil)
}

// BigConst makes a constant of any width.
func (c *Ctx) BigConst(w uint16, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.Const(w, v.Uint64())
	}
	k := fmt.Sprintf("%d:%s", w, v.Text(16))
	if c.bigTab == nil {
		c.bigTab = map[string]*Term{}
	}
	if t, ok := c.bigTab[k]; ok {
		return t
	}
	t := &Term{Op: OConst, W: w, Big: v, ID: c.next}
	c.next++
	c.bigTab[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes a fresh variable.
func (c *Ctx) Var(name string, w uint16, internal bool) *Term {
	idx := len(c.Vars)
	c.Vars = append(c.Vars, VarInfo{name, w, internal})
	t := c.mk(OVar, w, uint64(idx), nil, nil, nil)
	c.VarT = append(c.VarT, t)
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }

func (t *Term) bigVal() *big.Int {
	if t.Big != nil {
		return t.Big
	}
	return new(big.Int).SetUint64(t.V)
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.Op == ONot:
		return a.A
	}
	return c.mk(ONot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	switch {
	case a == c.False || b == c.False:
		return c.False
	case a == c.True:
		return b
	case b == c.True || a == b:
		return a
	case a.Op == ONot && a.A == b, b.Op == ONot && b.A == a:
		return c.False
	}
	return c.mk(OAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	switch {
	case a == c.True || b == c.True:
		return c.True
	case a == c.False:
		return b
	case b == c.False || a == b:
		return a
	case a.Op == ONot && a.A == b, b.Op == ONot && b.A == a:
		return c.True
	}
	return c.mk(OOr, 0, 0, a, b, nil)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		if a.W <= 64 {
			return c.Bool(a.V == b.V)
		}
		return c.Bool(a.bigVal().Cmp(b.bigVal()) == 0)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W == 0 {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return c.mk(OEq, 0, 0, a, b, nil)
	}
	if b.IsConst() && a.W <= 64 {
		switch a.Op {
		case OIte:
			if a.B.IsConst() && a.C.IsConst() {
				t, e := a.B.V == b.V, a.C.V == b.V
				switch {
				case t && e:
					return c.True
				case t:
					return a.A
				case e:
					return c.Not(a.A)
				default:
					return c.False
				}
			}
		case OZExt:
			if mask(a.A.W, b.V) != b.V {
				return c.False
			}
			return c.Eq(a.A, c.Const(a.A.W, b.V))
		case OSExt:
			if mask(a.W, uint64(sext(a.A.W, b.V))) != b.V {
				return c.False
			}
			return c.Eq(a.A, c.Const(a.A.W, b.V))
		case OConcat:
			return c.And(c.Eq(a.A, c.Const(a.A.W, b.V>>a.B.W)), c.Eq(a.B, c.Const(a.B.W, b.V)))
		case OAdd:
			if a.B.IsConst() {
				return c.Eq(a.A, c.Const(a.W, b.V-a.B.V))
			}
		}
	}
	if a.Op == b.Op && (a.Op == OZExt || a.Op == OSExt) && a.A.W == b.A.W {
		return c.Eq(a.A, b.A)
	}
	// x == sext(low bits of x): a range check
	for i := 0; i < 2; i++ {
		if b.Op == OSExt && b.A.Op == OExtract && b.A.A == a && b.A.V&0xffff == 0 && a.W <= 64 {
			m := int64(1) << (b.A.W - 1)
			return c.And(c.Cmp(OSLE, c.Const(a.W, uint64(-m)), a), c.Cmp(OSLE, a, c.Const(a.W, uint64(m-1))))
		}
		a, b = b, a
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	switch {
	case cond == c.True || a == b:
		return a
	case cond == c.False:
		return b
	}
	if a.W == 0 {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	// canonical minimum and maximum: min(x,y) as x<y ? x : y with x.ID < y.ID
	if cond.Op == OSLT || cond.Op == OSLE || cond.Op == OULT || cond.Op == OULE {
		x, y := cond.A, cond.B
		lt := OSLT
		if cond.Op == OULT || cond.Op == OULE {
			lt = OULT
		}
		if a == x && b == y || a == y && b == x {
			isMin := a == x
			if x.ID > y.ID {
				x, y = y, x
			}
			cc := c.mk(lt, 0, 0, x, y, nil)
			if isMin {
				return c.mk(OIte, a.W, 0, cc, x, y)
			}
			return c.mk(OIte, a.W, 0, cc, y, x)
		}
	}
	return c.mk(OIte, a.W, 0, cond, a, b)
}

func evalBin(op Op, w uint16, x, y uint64) uint64 {
	switch op {
	case OAdd:
		return mask(w, x+y)
	case OSub:
		return mask(w, x-y)
	case OMul:
		return mask(w, x*y)
	case OUDiv:
		if y == 0 {
			return mask(w, ^uint64(0))
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(w, x), sext(w, y)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return mask(w, ^uint64(0))
		}
		if sy == -1 {
			return mask(w, uint64(-sx))
		}
		return mask(w, uint64(sx/sy))
	case OSRem:
		sx, sy := sext(w, x), sext(w, y)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return mask(w, uint64(sx%sy))
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return mask(w, x<<y)
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		sx := sext(w, x)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return mask(w, uint64(sx>>y))
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint16, x, y uint64) bool {
	switch op {
	case OULT:
		return x < y
	case OULE:
		return x <= y
	case OSLT:
		return sext(w, x) < sext(w, y)
	case OSLE:
		return sext(w, x) <= sext(w, y)
	}
	panic("evalCmp")
}

func toSigned(w uint16, v *big.Int) *big.Int {
	if v.Bit(int(w)-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func evalBinBig(op Op, w uint16, x, y *big.Int) *big.Int {
	r := new(big.Int)
	switch op {
	case OAdd:
		r.Add(x, y)
	case OSub:
		r.Sub(x, y)
	case OMul:
		r.Mul(x, y)
	case OUDiv:
		if y.Sign() == 0 {
			r.Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		} else {
			r.Quo(x, y)
		}
	case OURem:
		if y.Sign() == 0 {
			r.Set(x)
		} else {
			r.Rem(x, y)
		}
	case OSDiv:
		sx, sy := toSigned(w, x), toSigned(w, y)
		if sy.Sign() == 0 {
			if sx.Sign() < 0 {
				r.SetInt64(1)
			} else {
				r.SetInt64(-1)
			}
		} else {
			r.Quo(sx, sy)
		}
	case OSRem:
		sx, sy := toSigned(w, x), toSigned(w, y)
		if sy.Sign() == 0 {
			r.Set(x)
		} else {
			r.Rem(sx, sy)
		}
	case OBAnd:
		r.And(x, y)
	case OBOr:
		r.Or(x, y)
	case OBXor:
		r.Xor(x, y)
	case OShl:
		if y.Cmp(big.NewInt(int64(w))) < 0 {
			r.Lsh(x, uint(y.Uint64()))
		}
	case OLShr:
		if y.Cmp(big.NewInt(int64(w))) < 0 {
			r.Rsh(x, uint(y.Uint64()))
		}
	case OAShr:
		n := uint(w)
		if y.Cmp(big.NewInt(int64(w))) < 0 {
			n = uint(y.Uint64())
		}
		r.Rsh(toSigned(w, x), n)
	}
	return r.Mod(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
}

func commutative(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if b.W != w {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		if w <= 64 {
			return c.Const(w, evalBin(op, w, a.V, b.V))
		}
		return c.BigConst(w, evalBinBig(op, w, a.bigVal(), b.bigVal()))
	}
	if commutative(op) && a.IsConst() {
		a, b = b, a
	}
	if w > 64 {
		neg := func(t *Term) bool { return t.Op == OSub && t.A.IsConst() && t.A.bigVal().Sign() == 0 }
		if b.IsConst() {
			zero, one := b.bigVal().Sign() == 0, b.bigVal().Cmp(bigOne) == 0
			switch op {
			case OSub:
				if zero {
					return a
				}
				return c.Bin(OAdd, a, c.BigConst(w, new(big.Int).Neg(b.bigVal())))
			case OAdd:
				switch {
				case zero:
					return a
				case a.Op == OAdd && a.B.IsConst():
					return c.Bin(OAdd, a.A, c.BigConst(w, new(big.Int).Add(a.B.bigVal(), b.bigVal())))
				case a.Op == OSub && a.A.IsConst():
					return c.Bin(OSub, c.BigConst(w, new(big.Int).Add(a.A.bigVal(), b.bigVal())), a.B)
				}
			case OMul:
				switch {
				case zero:
					return b
				case one:
					return a
				case neg(a):
					return c.Neg(c.Bin(OMul, a.B, b))
				}
			}
		}
		if op == OSub && a.IsConst() && a.bigVal().Sign() == 0 && neg(b) {
			return b.B
		}
	}
	if b.IsConst() && w <= 64 {
		ones := mask(w, ^uint64(0))
		switch op {
		case OAdd:
			if b.V == 0 {
				return a
			}
			if a.Op == OAdd && a.B.IsConst() {
				return c.Bin(OAdd, a.A, c.Const(w, a.B.V+b.V))
			}
		case OSub:
			if b.V == 0 {
				return a
			}
			return c.Bin(OAdd, a, c.Const(w, -b.V))
		case OMul:
			if b.V == 0 {
				return b
			}
			if b.V == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if b.V == 1 {
				return a
			}
			if op == OUDiv && bits.OnesCount64(b.V) == 1 {
				return c.Bin(OLShr, a, c.Const(w, uint64(bits.TrailingZeros64(b.V))))
			}
		case OURem:
			if bits.OnesCount64(b.V) == 1 {
				return c.Bin(OBAnd, a, c.Const(w, b.V-1))
			}
		case OBAnd:
			if b.V == 0 {
				return b
			}
			if b.V == ones {
				return a
			}
		case OBOr:
			if b.V == 0 {
				return a
			}
			if b.V == ones {
				return b
			}
		case OBXor:
			if b.V == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.V == 0 {
				return a
			}
			if b.V >= uint64(w) && op != OAShr {
				return c.Const(w, 0)
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			if w <= 64 {
				return c.Const(w, 0)
			}
		case OBAnd, OBOr:
			return a
		}
	}
	if a.IsConst() && a.Big == nil && a.V == 0 && w <= 64 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	if w <= 64 {
		if t := c.rewrite(op, a, b); t != nil {
			return t
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

// Cmp builds a comparison.
func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		if a.W <= 64 {
			return c.Bool(evalCmp(op, a.W, a.V, b.V))
		}
		x, y := a.bigVal(), b.bigVal()
		if op == OSLT || op == OSLE {
			x, y = toSigned(a.W, x), toSigned(a.W, y)
		}
		r := x.Cmp(y)
		if op == OULT || op == OSLT {
			return c.Bool(r < 0)
		}
		return c.Bool(r <= 0)
	}
	if a == b {
		return c.Bool(op == OULE || op == OSLE)
	}
	w := a.W
	if w <= 64 {
		ones := mask(w, ^uint64(0))
		if b.IsConst() {
			switch {
			case op == OULT && b.V == 0:
				return c.False
			case op == OULE && b.V == ones:
				return c.True
			case op == OULE && b.V == 0, op == OULT && b.V == 1:
				return c.Eq(a, c.Const(w, 0))
			}
			if a.Op == OZExt && (op == OULT || op == OULE || sext(w, b.V) >= 0) {
				// unsigned value in the narrow width
				if b.V > mask(a.A.W, ^uint64(0)) {
					return c.True
				}
				o := op
				if op == OSLT {
					o = OULT
				} else if op == OSLE {
					o = OULE
				}
				return c.Cmp(o, a.A, c.Const(a.A.W, b.V))
			}
			if a.Op == OZExt && (op == OSLT || op == OSLE) && sext(w, b.V) < 0 {
				return c.False
			}
		}
		if a.IsConst() {
			switch {
			case op == OULE && a.V == 0:
				return c.True
			case op == OULT && a.V == ones:
				return c.False
			}
			if b.Op == OZExt && (op == OULT || op == OULE || sext(w, a.V) >= 0) {
				if a.V > mask(b.A.W, ^uint64(0)) {
					return c.False
				}
				o := op
				if op == OSLT {
					o = OULT
				} else if op == OSLE {
					o = OULE
				}
				return c.Cmp(o, c.Const(b.A.W, a.V), b.A)
			}
			if b.Op == OZExt && (op == OSLT || op == OSLE) && sext(w, a.V) < 0 {
				return c.True
			}
		}
	}
	return c.mk(op, 0, 0, a, b, nil)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.IsConst() && a.W <= 64 {
		return c.Const(a.W, ^a.V)
	}
	if a.Op == OBNot {
		return a.A
	}
	return c.mk(OBNot, a.W, 0, a, nil, nil)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Bin(OSub, c.Const(a.W, 0), a) }

func (c *Ctx) Extract(a *Term, hi, lo uint16) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if a.IsConst() {
		return c.BigConst(w, new(big.Int).Rsh(a.bigVal(), uint(lo)))
	}
	switch a.Op {
	case OExtract:
		alo := uint16(a.V & 0xffff)
		return c.Extract(a.A, hi+alo, lo+alo)
	case OZExt:
		if hi < a.A.W {
			return c.Extract(a.A, hi, lo)
		}
		if lo >= a.A.W {
			return c.Const(w, 0)
		}
	case OSExt:
		if hi < a.A.W {
			return c.Extract(a.A, hi, lo)
		}
	case OConcat:
		if hi < a.B.W {
			return c.Extract(a.B, hi, lo)
		}
		if lo >= a.B.W {
			return c.Extract(a.A, hi-a.B.W, lo-a.B.W)
		}
	case OBOr, OBAnd, OBXor:
		return c.Bin(a.Op, c.Extract(a.A, hi, lo), c.Extract(a.B, hi, lo))
	case OShl:
		if a.B.IsConst() && a.W <= 64 {
			s := uint16(a.B.V)
			if lo >= s {
				return c.Extract(a.A, hi-s, lo-s)
			}
			if hi < s {
				return c.Const(w, 0)
			}
		}
	case OLShr:
		if a.B.IsConst() && a.W <= 64 {
			s := uint16(a.B.V)
			if uint32(hi)+uint32(s) < uint32(a.W) {
				return c.Extract(a.A, hi+s, lo+s)
			}
		}
	case OSub:
		if lo == 0 && a.W <= 64 && a.A.IsConst() && a.A.V == 0 {
			return c.Neg(c.Extract(a.B, hi, 0))
		}
	case OIte:
		if a.B.IsConst() && a.C.IsConst() {
			return c.Ite(a.A, c.Extract(a.B, hi, lo), c.Extract(a.C, hi, lo))
		}
	}
	return c.mk(OExtract, w, uint64(hi)<<16|uint64(lo), a, nil, nil)
}

func (c *Ctx) ZExt(a *Term, w uint16) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.BigConst(w, a.bigVal())
	}
	if a.Op == OZExt {
		return c.ZExt(a.A, w)
	}
	if c.rng != nil && a.Op == OExtract && a.V&0xffff == 0 && a.A.W == w && w <= 64 && c.rng.of(a.A).hi <= mask(a.W, ^uint64(0)) {
		return a.A
	}
	return c.mk(OZExt, w, 0, a, nil, nil)
}

func (c *Ctx) SExt(a *Term, w uint16) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.BigConst(w, toSigned(a.W, a.bigVal()))
	}
	if a.Op == OSExt {
		return c.SExt(a.A, w)
	}
	if a.Op == OZExt {
		return c.ZExt(a.A, w)
	}
	if c.rng != nil && a.Op == OExtract && a.V&0xffff == 0 && a.A.W == w && w <= 64 && c.rng.of(a.A).hi < 1<<(a.W-1) {
		return a.A
	}
	if c.rng != nil && w <= 64 && (a.Op == OAdd || a.Op == OSub) {
		x, y := c.rng.of(a.A), c.rng.of(a.B)
		if sign := uint64(1) << (a.W - 1); x.hi < sign && y.hi < sign && (a.Op == OSub || x.hi+y.hi < sign) {
			return c.Bin(a.Op, c.SExt(a.A, w), c.SExt(a.B, w))
		}
	}
	return c.mk(OSExt, w, 0, a, nil, nil)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		v := new(big.Int).Lsh(a.bigVal(), uint(b.W))
		return c.BigConst(a.W+b.W, v.Or(v, b.bigVal()))
	}
	// neighbouring parts of one number
	if a.Op == OExtract && b.Op == OExtract && a.A == b.A && uint16(a.V&0xffff) == uint16(b.V>>16)+1 {
		return c.Extract(a.A, uint16(a.V>>16), uint16(b.V&0xffff))
	}
	return c.mk(OConcat, a.W+b.W, 0, a, b, nil)
}

// F builds a floating-point operation over IEEE bit patterns.
func (c *Ctx) F(op Op, w uint16, a, b *Term) *Term { return c.mk(op, w, 0, a, b, nil) }

// Model assigns values to variables by index; missing ones are zero.
type Model []*big.Int

func (m Model) get(i int) *big.Int {
	if i < len(m) && m[i] != nil {
		return m[i]
	}
	return bigZero
}

var bigZero, bigOne = new(big.Int), big.NewInt(1)

type evaluator struct {
	m    Model
	memo map[*Term]uint64
	bmem map[*Term]*big.Int
}

func newEval(m Model) *evaluator {
	return &evaluator{m: m, memo: map[*Term]uint64{}}
}

func f64(w uint16, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func ff(w uint16, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// errEval is raised when a term cannot be evaluated concretely.
type errEval struct{}

func (e *evaluator) bool(t *Term) bool { return e.u(t) != 0 }

func (e *evaluator) big(t *Term) *big.Int {
	if t.W <= 64 {
		return new(big.Int).SetUint64(e.u(t))
	}
	if t.Op == OConst {
		return t.Big
	}
	if t.Op == OVar {
		return e.m.get(int(t.V))
	}
	if e.bmem == nil {
		e.bmem = map[*Term]*big.Int{}
	}
	if v, ok := e.bmem[t]; ok {
		return v
	}
	mod := func(v *big.Int) *big.Int { return v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(t.W))) }
	var r *big.Int
	switch t.Op {
	case OIte:
		if e.bool(t.A) {
			r = e.big(t.B)
		} else {
			r = e.big(t.C)
		}
	case OBNot:
		r = mod(new(big.Int).Not(e.big(t.A)))
	case OConcat:
		r = new(big.Int).Lsh(e.big(t.A), uint(t.B.W))
		r.Or(r, e.big(t.B))
	case OExtract:
		r = mod(new(big.Int).Rsh(e.big(t.A), uint(t.V&0xffff)))
	case OZExt:
		r = e.big(t.A)
	case OSExt:
		r = mod(new(big.Int).Set(toSigned(t.A.W, e.big(t.A))))
	default:
		r = evalBinBig(t.Op, t.W, e.big(t.A), e.big(t.B))
	}
	e.bmem[t] = r
	return r
}

func (e *evaluator) u(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.V
	case OVar:
		return mask64(t.W, e.m.get(int(t.V)).Uint64())
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - e.u(t.A)
	case OAnd:
		r = b(e.bool(t.A) && e.bool(t.B))
	case OOr:
		r = b(e.bool(t.A) || e.bool(t.B))
	case OEq:
		if t.A.W > 64 {
			r = b(e.big(t.A).Cmp(e.big(t.B)) == 0)
		} else {
			r = b(e.u(t.A) == e.u(t.B))
		}
	case OIte:
		if e.bool(t.A) {
			r = e.u(t.B)
		} else {
			r = e.u(t.C)
		}
	case OULT, OULE, OSLT, OSLE:
		if t.A.W > 64 {
			x, y := e.big(t.A), e.big(t.B)
			if t.Op == OSLT || t.Op == OSLE {
				x, y = toSigned(t.A.W, x), toSigned(t.A.W, y)
			}
			k := x.Cmp(y)
			if t.Op == OULT || t.Op == OSLT {
				r = b(k < 0)
			} else {
				r = b(k <= 0)
			}
		} else {
			r = b(evalCmp(t.Op, t.A.W, e.u(t.A), e.u(t.B)))
		}
	case OBNot:
		r = mask(t.W, ^e.u(t.A))
	case OConcat:
		r = e.u(t.A)<<t.B.W | e.u(t.B)
	case OExtract:
		lo := uint(t.V & 0xffff)
		if t.A.W > 64 {
			v := new(big.Int).Rsh(e.big(t.A), lo)
			r = mask(t.W, new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64())
		} else {
			r = mask(t.W, e.u(t.A)>>lo)
		}
	case OZExt:
		r = e.u(t.A)
	case OSExt:
		r = mask(t.W, uint64(sext(t.A.W, e.u(t.A))))
	case OFEq:
		r = b(f64(t.A.W, e.u(t.A)) == f64(t.A.W, e.u(t.B)))
	case OFLt:
		r = b(f64(t.A.W, e.u(t.A)) < f64(t.A.W, e.u(t.B)))
	case OFLe:
		r = b(f64(t.A.W, e.u(t.A)) <= f64(t.A.W, e.u(t.B)))
	case OFNaN:
		r = b(math.IsNaN(f64(t.A.W, e.u(t.A))))
	case OFAdd:
		r = ff(t.W, f64(t.W, e.u(t.A))+f64(t.W, e.u(t.B)))
	case OFSub:
		r = ff(t.W, f64(t.W, e.u(t.A))-f64(t.W, e.u(t.B)))
	case OFMul:
		r = ff(t.W, f64(t.W, e.u(t.A))*f64(t.W, e.u(t.B)))
	case OFDiv:
		r = ff(t.W, f64(t.W, e.u(t.A))/f64(t.W, e.u(t.B)))
	case OF64to32:
		r = uint64(math.Float32bits(float32(math.Float64frombits(e.u(t.A)))))
	case OF32to64:
		r = math.Float64bits(float64(math.Float32frombits(uint32(e.u(t.A)))))
	case OStoF:
		if t.W == 32 {
			r = uint64(math.Float32bits(float32(sext(t.A.W, e.u(t.A)))))
		} else {
			r = math.Float64bits(float64(sext(t.A.W, e.u(t.A))))
		}
	case OUtoF:
		if t.W == 32 {
			r = uint64(math.Float32bits(float32(e.u(t.A))))
		} else {
			r = math.Float64bits(float64(e.u(t.A)))
		}
	case OFtoS:
		f := f64(t.A.W, e.u(t.A))
		if math.IsNaN(f) || f >= math.Ldexp(1, int(t.W)-1) || f <= -math.Ldexp(1, int(t.W)-1)-1 {
			panic(errEval{})
		}
		r = mask(t.W, uint64(int64(f)))
	default:
		r = evalBin(t.Op, t.W, e.u(t.A), e.u(t.B))
	}
	e.memo[t] = r
	return r
}

func mask64(w uint16, v uint64) uint64 {
	if w == 0 {
		return v & 1
	}
	return mask(w, v)
}
