package harness

import (
	"math/big"

	"github.com/cockroachdb/apd/v3"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("X06",
	H{F: X06Encode, Bounds: "every finite apd decimal with a coefficient of up to 128 bits, either sign, and an exponent of -40..0 (quick: one of -40, -37, 0), also NaN and infinities", Reach: []string{"encoded", "rejected", "not finite"}},
	H{F: X06Shift, Bounds: "every finite apd decimal with a coefficient of up to 32 (deep: 128) bits, either sign, and an exponent of 1..39 (quick: one of 1, 19, 37), also NaN and infinities", Reach: []string{"encoded", "rejected", "not finite"}},
	H{F: X06Exponent, Bounds: "every exponent, with coefficients of one digit", Reach: []string{"encoded", "rejected"}},
	H{F: X06String, Bounds: "every string of up to 4 (deep: 6) ASCII characters", Reach: []string{"encoded", "rejected"}},
	H{F: X06Bytes, Bounds: "every 16-byte value with every precision and scale", Reach: []string{"accepted", "rejected"}},
	H{F: X06Rescale, Bounds: "every 128-bit value (quick: 16-bit) with a scale of 0, 1, 5 or 38 (quick: 1 or 38) to every precision and scale (quick: values with up to 1 trailing zero, target scales within 1 of the scale)", Reach: []string{"accepted", "rejected"}},
	H{F: X06Text, Bounds: "values of up to 4 digits (deep: 38) with a scale of 0, 1, 3, 10 or 38", Reach: []string{"text"}},
)

func tenTo(n int64) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil)
}

// unscaled is the integer of 16 little-endian bytes in two's complement.
func unscaled(v []byte) *big.Int {
	b := make([]byte, 16)
	for i := range b {
		b[15-i] = v[i]
	}
	if b[0]&0x80 == 0 {
		return new(big.Int).SetBytes(b)
	}
	m := new(big.Int).Sub(new(big.Int).SetBytes(b), new(big.Int).Mul(pow2of(64), pow2of(64)))
	return m
}

// signed128 is any number of 16 bytes (quick: n bytes) in two's complement.
func signed128(name string, n int) []byte {
	if sym.Deep() {
		n = 16
	}
	v := sym.Bytes(name, n, n)
	fill := sym.IteInt(v[n-1]&0x80 != 0, 255, 0)
	for len(v) < 16 {
		v = append(v, byte(fill))
	}
	return v
}

func pow2of(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(2), big.NewInt(n), nil) }

// digits tells whether |x| has at most n digits.
func fitsDigits(x *big.Int, n int64) bool {
	return new(big.Int).Abs(x).Cmp(tenTo(n)) < 0
}

// decimalHolds checks that an unscaled value, precision and scale denote
// mant*10^exp.
func decimalHolds(v []byte, p, s int32, mant *big.Int, exp int64, what string) {
	sym.Assert(sym.And(s >= 0, sym.And(s <= p, p <= 38)), what+": precision and scale are valid")
	u := unscaled(v)
	n := int64(s) + exp
	sym.Assert(n >= 0, what+": the scale keeps every digit")
	sym.Assert(u.Cmp(new(big.Int).Mul(mant, tenTo(n))) == 0, what+": exactly the value")
	sym.Assert(fitsPrecision(u, p), what+": the value has at most as many digits as the precision")
}

// fitsPrecision tells whether |u| has at most p digits, for a p of 1..38.
func fitsPrecision(u *big.Int, p int32) bool {
	fits := sym.And(p >= 1, fitsDigits(u, 38))
	for i := int32(1); i < 38; i++ {
		fits = sym.And(fits, sym.Implies(p == i, fitsDigits(u, int64(i))))
	}
	return fits
}

func X06Encode() {
	exp := []int32{-40, -37, 0}[sym.Choice("exp", 3)]
	if sym.Deep() {
		exp = int32(sym.Choice("exp.deep", 41)) - 40
	}
	encode(new(big.Int).SetBytes(sym.Bytes("coeff", 16, 16)), exp)
}

func X06Shift() {
	exp := []int32{1, 19, 37}[sym.Choice("exp", 3)]
	n := 4
	if sym.Deep() {
		exp = int32(sym.Choice("exp.deep", 39)) + 1
		n = 16
	}
	encode(new(big.Int).SetBytes(sym.Bytes("coeff", n, n)), exp)
}

func encode(coeff *big.Int, exp int32) {
	d := apd.NewWithBigInt(new(apd.BigInt).SetMathBigInt(coeff), exp)
	d.Negative = sym.Bool("neg")
	form := sym.Choice("form", 4)
	d.Form = apd.Form(form)
	mant := coeff
	if d.Negative {
		mant = new(big.Int).Neg(coeff)
	}
	v, p, s, err := expr.DecimalToBytes(d)
	l, lerr := literal.NewDecimalFromApdDecimal(d, false)
	sym.Assert((lerr == nil) == (err == nil), "a literal exactly when there are bytes")
	if form != 0 {
		sym.Assert(err != nil, "only finite numbers are encoded")
		sym.Reach("not finite")
		return
	}
	fits := true
	if exp > 0 {
		fits = exp < 38 && fitsDigits(coeff, 38-int64(exp))
	} else {
		fits = exp >= -38 && fitsDigits(coeff, 38)
	}
	if err != nil {
		// a leading zero is counted as a digit
		sym.Assert(!fits || exp == -38 || coeff.Sign() == 0, "a number that fits is encoded")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "a number that does not fit is rejected")
	decimalHolds(v[:], p, s, mant, int64(exp), "bytes")
	t := l.GetType().(*types.DecimalType)
	decimalHolds(l.(*expr.ProtoLiteral).Value.([]byte), t.Precision, t.Scale, mant, int64(exp), "literal")
	sym.Reach("encoded")
}

func X06Exponent() {
	c := sym.Int8("coeff")
	sym.Assume(sym.And(c > 0, c < 10))
	exp := sym.Int32("exp")
	d := apd.New(int64(c), exp)
	v, p, s, err := expr.DecimalToBytes(d)
	sym.Assert((err == nil) == sym.And(exp > -38, exp < 38), "encoded exactly when it fits")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	e := pin(int64(exp), -38, 38)
	decimalHolds(v[:], p, s, big.NewInt(int64(c)), e, "bytes")
	sym.Reach("encoded")
}

// pin is x, made concrete, for an x of lo..hi-1.
func pin(x, lo, hi int64) int64 {
	for hi-lo > 1 {
		if mid := (lo + hi) / 2; x < mid {
			hi = mid
		} else {
			lo = mid
		}
	}
	return lo
}

// decimalNumber reads [sign] digits [. digits] [e [sign] digits].
func decimalNumber(s string) (mant *big.Int, exp int64, ok bool) {
	i := 0
	neg := false
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	mant = big.NewInt(0)
	n := 0
	point := false
	for ; i < len(s); i++ {
		if s[i] == '.' && !point {
			point = true
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			break
		}
		mant = new(big.Int).Add(new(big.Int).Mul(mant, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
		n++
		if point {
			exp--
		}
	}
	if n == 0 {
		return nil, 0, false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		eneg := false
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			eneg = s[i] == '-'
			i++
		}
		e, k := int64(0), 0
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			e = e*10 + int64(s[i]-'0')
			k++
		}
		if k == 0 {
			return nil, 0, false
		}
		if eneg {
			e = -e
		}
		exp += e
	}
	if neg {
		mant = new(big.Int).Neg(mant)
	}
	return mant, exp, i == len(s)
}

func X06String() {
	max := 4
	if sym.Deep() {
		max = 6
	}
	t := sym.String("s", 0, max)
	mant, exp, ok := decimalNumber(t)
	v, p, s, err := expr.DecimalStringToBytes(t)
	l, lerr := literal.NewDecimalFromString(t, false)
	sym.Assert((lerr == nil) == (err == nil), "a literal exactly when there are bytes")
	if len(t) > 0 && (t[0] == ' ' || t[len(t)-1] == ' ') {
		return
	}
	if err != nil {
		sym.Assert(!ok || sym.Or(exp >= 32, exp <= -38), "a number that fits is encoded")
		sym.Reach("rejected")
		return
	}
	sym.Assert(ok, "only numbers are encoded")
	sym.Assert(sym.And(exp >= -38, exp < 38), "a number that does not fit is rejected")
	e := pin(exp, -38, 38)
	decimalHolds(v[:], p, s, mant, e, "bytes")
	dt := l.GetType().(*types.DecimalType)
	sym.Assert(sym.And(dt.Precision == p, dt.Scale == s), "literal has the precision and scale")
	sym.Assert(unscaled(l.(*expr.ProtoLiteral).Value.([]byte)).Cmp(unscaled(v[:])) == 0, "literal has the value")
	sym.Reach("encoded")
}

func X06Bytes() {
	v := sym.Bytes("v", 16, 16)
	p, s := sym.Int32("p"), sym.Int32("s")
	nullable := sym.Bool("nullable")
	l, err := literal.NewDecimalFromTwosComplement(v, p, s, nullable)
	u := unscaled(v)
	valid := sym.And(sym.And(p <= 38, sym.And(s >= 0, s <= p)), fitsPrecision(u, p))
	sym.Assert((err == nil) == valid, "accepted exactly when the value fits the precision")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	t := l.GetType().(*types.DecimalType)
	sym.Assert(sym.And(t.Precision == p, t.Scale == s), "precision and scale kept")
	sym.Assert((t.Nullability == types.NullabilityNullable) == nullable, "nullability kept")
	sym.Assert(unscaled(l.(*expr.ProtoLiteral).Value.([]byte)).Cmp(u) == 0, "value kept")
	sym.Reach("accepted")
}

func X06Rescale() {
	v := signed128("v", 2)
	scales := []int32{1, 38}
	if sym.Deep() {
		scales = []int32{0, 1, 5, 38}
	}
	s := scales[sym.Choice("scale", len(scales))]
	u := unscaled(v)
	ts := s + int32(sym.Choice("to", 3)) - 1
	if sym.Deep() {
		ts = int32(sym.Choice("to.deep", 42)) - 1
	}
	tp := sym.Int32("p")
	tv := sym.Uint32("var")
	n := nul2("nul")
	l, err := expr.NewLiteral(&types.Decimal{Value: v, Precision: 38, Scale: s}, false)
	if err != nil {
		panic(err)
	}
	if !sym.Deep() {
		sym.Assume(sym.Or(u.Sign() == 0, new(big.Int).Rem(u, big.NewInt(100)).Sign() != 0))
	}
	before := append([]byte{}, v...)
	r, err := l.(expr.WithTypeLiteral).WithType(&types.DecimalType{Precision: tp, Scale: ts, Nullability: n, TypeVariationRef: tv})
	typeOK := sym.And(tp >= 1, sym.And(tp <= 38, sym.And(ts >= 0, ts <= tp)))
	d := int64(ts - s)
	if err != nil {
		// the value in the new scale, if it can be expressed
		w := u
		exact := true
		if d >= 0 {
			if exact = fitsDigits(u, 39); exact {
				w = new(big.Int).Mul(u, tenTo(d))
			}
		} else {
			q, m := new(big.Int).QuoRem(u, tenTo(-d), new(big.Int))
			w, exact = q, m.Sign() == 0
		}
		fits := sym.And(exact, fitsPrecision(w, tp))
		sym.Assert(!sym.And(sym.And(typeOK, fits), u.Sign() != 0), "a value that fits is converted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(typeOK, "an impossible type is rejected")
	w := unscaled(r.(*expr.ProtoLiteral).Value.([]byte))
	sym.Assert(fitsPrecision(w, tp), "a value that does not fit is rejected")
	if d >= 0 {
		sym.Assert(new(big.Int).Mul(u, tenTo(d)).Cmp(w) == 0, "exactly the value")
	} else {
		sym.Assert(new(big.Int).Mul(w, tenTo(-d)).Cmp(u) == 0, "exactly the value")
	}
	t := r.GetType().(*types.DecimalType)
	sym.Assert(sym.And(sym.And(t.Precision == tp, t.Scale == ts), sym.And(t.Nullability == n, t.TypeVariationRef == tv)), "the type asked for")
	for i := range before {
		sym.Assert(v[i] == before[i], "the original is unchanged")
	}
	sym.Reach("accepted")
}

func X06Text() {
	max := int64(4)
	if sym.Deep() {
		max = 38
	}
	v := signed128("v", 3)
	u := unscaled(v)
	sym.Assume(fitsDigits(u, max))
	s := []int32{0, 1, 3, 10, 38}[sym.Choice("scale", 5)]
	l, err := expr.NewLiteral(&types.Decimal{Value: v, Precision: 38, Scale: s}, false)
	if err != nil {
		panic(err)
	}
	mant, exp, ok := decimalNumber(l.ValueString())
	sym.Assert(ok, "the text is a number")
	d := exp + int64(s)
	sym.Assert(d >= 0, "the text has at most the digits of the scale")
	sym.Assert(new(big.Int).Mul(mant, tenTo(d)).Cmp(u) == 0, "the text is the value")
	sym.Reach("text")
}
