package engine

import (
	"go/types"
	"math/big"
)

// Natives for math/big.Int and apd.BigInt: integers of any size are signed
// bit-vectors of bigW bits. An operation that could leave this range ends the path as
// unsupported, so that nothing is concluded about it.

const bigW = 256

const apdPkg = "github.com/cockroachdb/apd/v3"

func (p *Path) bigSlot(v Value) (structure, int) {
	ptr := v.(*Value)
	if ptr == nil {
		panic(&targetPanic{v: p.runtimeError("invalid memory address or nil pointer dereference"), runtime: true, msg: "runtime error: invalid memory address or nil pointer dereference", site: "big.Int"})
	}
	s := (*ptr).(structure)
	if _, isBool := s[0].(bool); isBool {
		return s, 1 // big.Int{neg, abs}
	}
	if _, isTerm := s[0].(*Term); isTerm {
		return s, 1
	}
	return s, 0 // apd.BigInt{_inner, _inline}
}

func (p *Path) bigGet(v Value) *Term {
	s, i := p.bigSlot(v)
	if b, ok := s[i].(*nativeBox); ok && b != nil {
		return b.v.(*Term)
	}
	return p.c.Const(bigW, 0)
}

func (p *Path) bigSet(v Value, t *Term) Value {
	s, i := p.bigSlot(v)
	s[i] = &nativeBox{t}
	return v
}

// bigFits ends the path unless |t| < 2^(bits).
func (p *Path) bigFits(t *Term, bits uint) *Term {
	lim := p.c.BigConst(bigW, pow2(bits))
	neg := p.c.BigConst(bigW, new(big.Int).Neg(pow2(bits)))
	if !p.branch(p.c.And(p.c.Cmp(OSLT, t, lim), p.c.Cmp(OSLT, neg, t))) {
		unsupported("integer of more than %d bits", bits)
	}
	return t
}

func (p *Path) bigAbs(t *Term) *Term {
	return p.c.Ite(p.c.Cmp(OSLT, t, p.c.Const(bigW, 0)), p.c.Neg(t), t)
}

func (p *Path) bigSign(t *Term) Value {
	z := p.c.Const(bigW, 0)
	return p.lift(p.c.Ite(p.c.Cmp(OSLT, t, z), p.c.Const(64, ^uint64(0)), p.c.Ite(p.c.Eq(t, z), p.c.Const(64, 0), p.c.Const(64, 1))))
}

func (p *Path) bigCmp(a, b *Term) Value {
	return p.lift(p.c.Ite(p.c.Cmp(OSLT, a, b), p.c.Const(64, ^uint64(0)), p.c.Ite(p.c.Eq(a, b), p.c.Const(64, 0), p.c.Const(64, 1))))
}

func ten(k int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil) }

// bigDigits is the number of decimal digits of t, at least 1.
func (p *Path) bigDigits(t *Term) *Term {
	a := p.bigAbs(t)
	r := p.c.Const(64, 77)
	for k := 76; k >= 1; k-- {
		r = p.c.Ite(p.c.Cmp(OSLT, a, p.c.BigConst(bigW, ten(k))), p.c.Const(64, uint64(k)), r)
	}
	return r
}

// bigConc forks over the values of t in [lo, hi].
func (p *Path) bigConc(t *Term, lo, hi int64) int64 {
	if t.IsConst() {
		return toSigned(bigW, t.bigVal()).Int64()
	}
	for i := lo; i <= hi; i++ {
		if p.branch(p.c.Eq(t, p.c.BigConst(bigW, big.NewInt(i)))) {
			return i
		}
	}
	unsupported("integer outside %d..%d", lo, hi)
	return 0
}

// bigOfBytes is the integer of big-endian bytes.
func (p *Path) bigOfBytes(bs []Value) *Term {
	if len(bs)*8 >= bigW {
		unsupported("integer of %d bytes", len(bs))
	}
	var t *Term
	for _, b := range bs {
		x := p.term(b, 8)
		if t == nil {
			t = x
		} else {
			t = p.c.Concat(t, x)
		}
	}
	if t == nil {
		return p.c.Const(bigW, 0)
	}
	return p.recognise(t)
}

// recognise looks for a simpler form of a number put together from bytes: the
// number x that the bytes were taken from, or its negative. The solver decides it
// for every x that meets the conditions of the path on bytes of x.
func (p *Path) recognise(t *Term) *Term {
	wide := p.c.ZExt(t, bigW)
	if t.Op != OConcat && t.Op != OExtract {
		return wide
	}
	src := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || seen[x] || len(seen) > 4000 {
			return
		}
		seen[x] = true
		if x.Op == OExtract && x.A.W == bigW {
			src[x.A] = true
			return
		}
		walk(x.A)
		walk(x.B)
		walk(x.C)
	}
	walk(t)
	if len(src) != 1 {
		return wide
	}
	var x *Term
	for s := range src {
		x = s
	}
	if x.Op == OSub && x.A.IsConst() && x.A.bigVal().Sign() == 0 {
		x = x.B
	}
	v := p.c.Var("number", bigW, true)
	sub := map[*Term]*Term{x: v}
	var put func(y *Term) *Term
	put = func(y *Term) *Term {
		if y == nil {
			return nil
		}
		if r, ok := sub[y]; ok {
			return r
		}
		r := y
		if a, b, d := put(y.A), put(y.B), put(y.C); a != y.A || b != y.B || d != y.C {
			r = p.c.mk(y.Op, y.W, y.V, a, b, d)
		}
		sub[y] = r
		return r
	}
	if p.w.s2 == nil {
		p.w.s2 = NewSolver(&p.x.Stats, p.x.Opt.SolverMS)
	}
	s := p.w.s2
	s.Begin(p.c)
	for _, c := range p.pc {
		if d := put(c); d != c && p.onlyVar(d, v) {
			s.Assert(d)
		}
	}
	w := put(wide)
	for _, y := range []*Term{v, p.c.Neg(v)} {
		for _, k := range []*big.Int{bigZero, pow2(uint(t.W))} {
			c := p.c.Bin(OAdd, y, p.c.BigConst(bigW, k))
			if r, _ := s.Check(p.c.Not(p.c.Eq(w, c))); r == Unsat {
				if y == v {
					y = x
				} else {
					y = p.c.Neg(x)
				}
				return p.c.Bin(OAdd, y, p.c.BigConst(bigW, k))
			}
		}
	}
	return wide
}

// onlyVar tells whether v is the only variable in t.
func (p *Path) onlyVar(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == nil || seen[x] || x == v {
			return true
		}
		seen[x] = true
		return x.Op != OVar && walk(x.A) && walk(x.B) && walk(x.C)
	}
	return walk(t)
}

// valid tells whether t holds for every value on this path.
func (p *Path) valid(t *Term) bool {
	if t.IsConst() {
		return t == p.c.True
	}
	p.sync()
	r, _ := p.s.Check(p.c.Not(t))
	return r == Unsat
}

// bigBytes are the big-endian bytes of |t| without leading zeros.
func (p *Path) bigBytes(t *Term) []Value {
	a := p.bigAbs(t)
	n := 0
	for ; n < bigW/8; n++ {
		if p.branch(p.c.Cmp(OSLT, a, p.c.BigConst(bigW, pow2(uint(8*n))))) {
			break
		}
	}
	r := make([]Value, n)
	for i := range r {
		lo := uint16(8 * (n - 1 - i))
		r[i] = p.lift(p.c.Extract(a, lo+7, lo))
	}
	return r
}

func registerBig(P *Program) {
	N := P.Natives
	newBig := func(p *Path, pkg, name string, t *Term) Value {
		v := zero(p.x.P.namedType(pkg, name))
		return p.bigSet(&v, t)
	}
	bigTen := func(p *Path, k int) *Term { return p.c.BigConst(bigW, ten(k)) }
	for _, q := range []string{"math/big.Int", apdPkg + ".BigInt"} {
		q := q
		bin := func(name string, f func(p *Path, a, b *Term) *Term) {
			N["(*"+q+")."+name] = func(p *Path, fr *frame, a []Value) Value {
				return p.bigSet(a[0], f(p, p.bigGet(a[1]), p.bigGet(a[2])))
			}
		}
		un := func(name string, f func(p *Path, a *Term) *Term) {
			N["(*"+q+")."+name] = func(p *Path, fr *frame, a []Value) Value {
				return p.bigSet(a[0], f(p, p.bigGet(a[1])))
			}
		}
		bin("Add", func(p *Path, a, b *Term) *Term { return p.c.Bin(OAdd, p.bigFits(a, 254), p.bigFits(b, 254)) })
		bin("Sub", func(p *Path, a, b *Term) *Term { return p.c.Bin(OSub, p.bigFits(a, 254), p.bigFits(b, 254)) })
		bin("Mul", func(p *Path, a, b *Term) *Term {
			x, y := uint(127), uint(128)
			switch {
			case a.IsConst():
				a, b = b, a
				fallthrough
			case b.IsConst():
				y = uint(toSigned(bigW, b.bigVal()).BitLen())
				if y > 250 {
					unsupported("product of large integers")
				}
				x = 254 - y
			}
			return p.c.Bin(OMul, p.bigFits(a, x), p.bigFits(b, y))
		})
		bin("Quo", func(p *Path, a, b *Term) *Term { return p.c.Bin(OSDiv, a, p.bigNonzero(b)) })
		bin("Rem", func(p *Path, a, b *Term) *Term { return p.c.Bin(OSRem, a, p.bigNonzero(b)) })
		N["(*"+q+").QuoRem"] = func(p *Path, fr *frame, a []Value) Value {
			x, y := p.bigGet(a[1]), p.bigNonzero(p.bigGet(a[2]))
			p.bigSet(a[0], p.c.Bin(OSDiv, x, y))
			p.bigSet(a[3], p.c.Bin(OSRem, x, y))
			return tuple{a[0], a[3]}
		}
		un("Set", func(p *Path, a *Term) *Term { return a })
		un("Neg", func(p *Path, a *Term) *Term { return p.c.Neg(a) })
		un("Abs", func(p *Path, a *Term) *Term { return p.bigAbs(a) })
		N["(*"+q+").Lsh"] = func(p *Path, fr *frame, a []Value) Value {
			x, n := p.bigGet(a[1]), a[2]
			if _, ok := n.(uint64); !ok || n.(uint64) >= 254 {
				unsupported("shift of a large integer by %v", n)
			}
			return p.bigSet(a[0], p.c.Bin(OShl, p.bigFits(x, uint(254-n.(uint64))), p.c.Const(bigW, n.(uint64))))
		}
		N["(*"+q+").SetInt64"] = func(p *Path, fr *frame, a []Value) Value {
			return p.bigSet(a[0], p.c.SExt(p.term(a[1], 64), bigW))
		}
		N["(*"+q+").SetUint64"] = func(p *Path, fr *frame, a []Value) Value {
			return p.bigSet(a[0], p.c.ZExt(p.term(a[1], 64), bigW))
		}
		N["(*"+q+").SetBytes"] = func(p *Path, fr *frame, a []Value) Value {
			return p.bigSet(a[0], p.bigOfBytes(a[1].([]Value)))
		}
		N["(*"+q+").Bytes"] = func(p *Path, fr *frame, a []Value) Value { return p.bigBytes(p.bigGet(a[0])) }
		N["(*"+q+").Sign"] = func(p *Path, fr *frame, a []Value) Value { return p.bigSign(p.bigGet(a[0])) }
		N["(*"+q+").Cmp"] = func(p *Path, fr *frame, a []Value) Value { return p.bigCmp(p.bigGet(a[0]), p.bigGet(a[1])) }
		N["(*"+q+").CmpAbs"] = func(p *Path, fr *frame, a []Value) Value {
			return p.bigCmp(p.bigAbs(p.bigGet(a[0])), p.bigAbs(p.bigGet(a[1])))
		}
		N["(*"+q+").IsUint64"] = func(p *Path, fr *frame, a []Value) Value {
			t := p.bigGet(a[0])
			return p.lift(p.c.And(p.c.Cmp(OSLE, p.c.Const(bigW, 0), t), p.c.Cmp(OSLT, t, p.c.BigConst(bigW, pow2(64)))))
		}
		N["(*"+q+").IsInt64"] = func(p *Path, fr *frame, a []Value) Value {
			t := p.bigGet(a[0])
			return p.lift(p.c.Eq(t, p.c.SExt(p.c.Extract(t, 63, 0), bigW)))
		}
		low := func(p *Path, fr *frame, a []Value) Value { return p.lift(p.c.Extract(p.bigGet(a[0]), 63, 0)) }
		N["(*"+q+").Uint64"], N["(*"+q+").Int64"] = low, low
		N["(*"+q+").BitLen"] = func(p *Path, fr *frame, a []Value) Value {
			t := p.bigAbs(p.bigGet(a[0]))
			r := p.c.Const(64, bigW)
			for k := bigW - 1; k >= 0; k-- {
				r = p.c.Ite(p.c.Cmp(OSLT, t, p.c.BigConst(bigW, pow2(uint(min(k, bigW-2))))), p.c.Const(64, uint64(min(k, bigW-2))), r)
			}
			return p.lift(r)
		}
		N["(*"+q+").Exp"] = func(p *Path, fr *frame, a []Value) Value {
			x := p.bigGet(a[1])
			if m, ok := a[3].(*Value); ok && m != nil || !x.IsConst() {
				unsupported("modular or symbolic power")
			}
			n := p.bigConc(p.bigGet(a[2]), 0, 76)
			if n < 0 {
				return p.bigSet(a[0], p.c.Const(bigW, 1))
			}
			if n > 1000 {
				unsupported("large power")
			}
			v := new(big.Int).Exp(toSigned(bigW, x.bigVal()), big.NewInt(n), nil)
			if v.BitLen() >= bigW-1 {
				unsupported("large power")
			}
			return p.bigSet(a[0], p.c.BigConst(bigW, v))
		}
		N["(*"+q+").SetString"] = func(p *Path, fr *frame, a []Value) Value {
			if a[2].(uint64) != 10 {
				unsupported("digits of base %d", a[2])
			}
			bs := p.strBytes(p.force(a[1]))
			nilBig := tuple{(*Value)(nil), false}
			neg := false
			if len(bs) > 0 {
				switch {
				case p.branch(p.c.Eq(p.term(bs[0], 8), p.c.Const(8, '-'))):
					neg = true
					bs = bs[1:]
				case p.branch(p.c.Eq(p.term(bs[0], 8), p.c.Const(8, '+'))):
					bs = bs[1:]
				}
			}
			if len(bs) == 0 {
				return nilBig
			}
			if len(bs) > 75 {
				unsupported("integer of %d digits", len(bs))
			}
			t := p.c.Const(bigW, 0)
			for _, b := range bs {
				x := p.term(b, 8)
				if !p.branch(p.c.And(p.c.Cmp(OULE, p.c.Const(8, '0'), x), p.c.Cmp(OULE, x, p.c.Const(8, '9')))) {
					return nilBig
				}
				d := p.c.ZExt(p.c.Bin(OSub, x, p.c.Const(8, '0')), bigW)
				t = p.c.Bin(OAdd, p.c.Bin(OMul, t, p.c.Const(bigW, 10)), d)
			}
			if neg {
				t = p.c.Neg(t)
			}
			return tuple{p.bigSet(a[0], t), true}
		}
		text := func(p *Path, fr *frame, a []Value) Value {
			t := p.bigGet(a[0])
			if t.IsConst() {
				return toSigned(bigW, t.bigVal()).String()
			}
			return &LazyStr{f: func(p *Path) Value { return normStr(p.bigText(t)) }}
		}
		N["(*"+q+").String"] = text
	}
	N["math/big.NewInt"] = func(p *Path, fr *frame, a []Value) Value {
		return newBig(p, "math/big", "Int", p.c.SExt(p.term(a[0], 64), bigW))
	}
	N[apdPkg+".NewBigInt"] = func(p *Path, fr *frame, a []Value) Value {
		return newBig(p, apdPkg, "BigInt", p.c.SExt(p.term(a[0], 64), bigW))
	}
	N["(*"+apdPkg+".BigInt).Append"] = func(p *Path, fr *frame, a []Value) Value {
		t := p.bigGet(a[0])
		if b, ok := a[2].(uint64); !ok || b != 10 {
			unsupported("digits of another base")
		}
		buf := a[1].([]Value)
		if t.IsConst() {
			for _, c := range []byte(toSigned(bigW, t.bigVal()).String()) {
				buf = append(buf[:len(buf):len(buf)], uint64(c))
			}
			return buf
		}
		return append(buf[:len(buf):len(buf)], p.bigText(t)...)
	}
	N["(*"+apdPkg+".Decimal).String"] = func(p *Path, fr *frame, a []Value) Value {
		v := copyVal(*fr.ptr(a[0]))
		text := p.x.P.method(apdPkg, "Decimal", "Text")
		return &LazyStr{f: func(p *Path) Value { return p.force(p.call(fr, text, []Value{&v, uint64('G')})) }}
	}
	// the tables are only read by functions that are native here
	N[apdPkg+".setBigWithPow"] = func(p *Path, fr *frame, a []Value) Value { return nil }
	// constants for logarithms and roots, of thousands of digits
	N[apdPkg+".makeConst"] = func(p *Path, fr *frame, a []Value) Value { return (*Value)(nil) }
	N[apdPkg+".makeConstWithPrecision"] = N[apdPkg+".makeConst"]
	set := func(p *Path, fr *frame, a []Value) Value { return p.bigSet(a[0], p.bigGet(a[1])) }
	N["(*"+apdPkg+".BigInt).SetMathBigInt"] = set
	N["(*"+apdPkg+".BigInt).MathBigInt"] = func(p *Path, fr *frame, a []Value) Value {
		return newBig(p, "math/big", "Int", p.bigGet(a[0]))
	}
	N[apdPkg+".NumDigits"] = func(p *Path, fr *frame, a []Value) Value { return p.lift(p.bigDigits(p.bigGet(a[0]))) }
	N[apdPkg+".tableExp10"] = func(p *Path, fr *frame, a []Value) Value {
		var k int64
		if t, ok := a[0].(*Term); ok {
			k = p.bigConc(p.c.SExt(t, bigW), 0, 75)
		} else {
			k = int64(a[0].(uint64))
		}
		if k < 0 || k > 75 {
			unsupported("power of ten %d", k)
		}
		return newBig(p, apdPkg, "BigInt", bigTen(p, int(k)))
	}
	// trailing zeros are taken off: the number is split into its last digits and the
	// rest by the solver
	N["(*"+apdPkg+".Decimal).Reduce"] = func(p *Path, fr *frame, a []Value) Value {
		d, x := a[0].(*Value), a[1].(*Value)
		st := p.x.P.namedType(apdPkg, "Decimal").Underlying().(*types.Struct)
		field := map[string]int{}
		for i := range st.NumFields() {
			field[st.Field(i).Name()] = i
		}
		form, neg, exp, coeff := field["Form"], field["Negative"], field["Exponent"], field["Coeff"]
		xs := copyVal(*x).(structure)
		if f, ok := xs[form].(uint64); !ok || f != 0 {
			unsupported("reducing a decimal that may not be finite")
		}
		t := p.bigGet(&xs[coeff])
		if p.branch(p.c.Eq(t, p.c.Const(bigW, 0))) {
			n := uint64(0)
			p.bigSet(&xs[coeff], t)
			xs[exp], xs[neg] = n, false
			storeV(d, xs)
			return tuple{a[0], p.lift(p.c.Const(64, 0))}
		}
		k := 0
		for k < 76 && p.branch(p.c.Eq(p.c.Bin(OSRem, t, bigTen(p, k+1)), p.c.Const(bigW, 0))) {
			k++
		}
		if k > 0 {
			p.bigSet(&xs[coeff], p.c.Bin(OSDiv, t, bigTen(p, k)))
			xs[exp] = p.lift(p.c.Bin(OAdd, p.term(xs[exp], 32), p.c.Const(32, uint64(k))))
		}
		storeV(d, xs)
		return tuple{a[0], uint64(k)}
	}
}

func (p *Path) bigNonzero(t *Term) *Term {
	if p.branch(p.c.Eq(t, p.c.Const(bigW, 0))) {
		unsupported("division by zero of big integers")
	}
	return t
}

// bigText are the decimal digits of t: their number is forked over, they are
// variables that make up the number.
func (p *Path) bigText(t *Term) []Value {
	var out []Value
	if p.branch(p.c.Cmp(OSLT, t, p.c.Const(bigW, 0))) {
		out = append(out, uint64('-'))
		t = p.c.Neg(t)
	}
	n := 1
	for n < 76 && !p.branch(p.c.Cmp(OSLT, t, p.c.BigConst(bigW, ten(n)))) {
		n++
	}
	sum := p.c.Const(bigW, 0)
	for i := 0; i < n; i++ {
		d := p.c.Var("digit", 8, true)
		p.addPC(p.c.Cmp(OULE, d, p.c.Const(8, 9)))
		sum = p.c.Bin(OAdd, p.c.Bin(OMul, sum, p.c.Const(bigW, 10)), p.c.ZExt(d, bigW))
		out = append(out, p.lift(p.c.Bin(OAdd, d, p.c.Const(8, '0'))))
	}
	p.addPC(p.c.Eq(sum, t))
	p.modelOK = false
	return out
}
