package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("L02",
	H{F: L02YearMonth, Bounds: "intervals of 0..2 components in both orders, each of 1..3 or of 10 digits, with and without signs", Reach: []string{"accepted", "rejected"}},
	H{F: L02YearMonthText, Bounds: "every ASCII text of 0..6 (thorough: 7) bytes that starts with P", Reach: []string{"accepted", "rejected"}},
	H{F: L02DaySecond, Bounds: "intervals of 0..4 components, one of them of up to 11 digits, the others of one or two", Reach: []string{"accepted", "rejected"}},
	H{F: L02Fraction, Bounds: "seconds of 1..2 digits with fractions of 0..12 digits", Reach: []string{"accepted", "rejected"}},
	H{F: L02DaySecondText, Bounds: "every ASCII text of 0..6 (thorough: 7) bytes that starts with P", Reach: []string{"accepted", "rejected"}},
	H{F: L02Other, Bounds: "every ASCII text of 0..3 bytes", Reach: []string{"rejected"}},
)

// digits is a number of n decimal digits and its value (n up to 18).
func digits(name string, n int) (string, int64) {
	s := sym.String(name, n, n)
	var v int64
	for i := range len(s) {
		sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + int64(s[i]-'0')
	}
	return s, v
}

func isDigit(b byte) bool { return sym.And(b >= '0', b <= '9') }

// digitRun reads the digits at the start of s.
func digitRun(s string) (v int64, n int, rest string) {
	for n < len(s) && isDigit(s[n]) {
		v = v*10 + int64(s[n]-'0')
		n++
	}
	return v, n, s[n:]
}

func int32Fits(v int64) bool { return sym.And(v >= -1<<31, v < 1<<31) }

// yearMonth reads the whole of an interval P[n]Y[n]M.
func yearMonth(s string) (years, months int64, signed, ok bool) {
	if len(s) == 0 || s[0] != 'P' {
		return 0, 0, false, false
	}
	s = s[1:]
	component := func(unit byte, to *int64) {
		neg, r := false, s
		if len(r) > 0 && (r[0] == '-' || r[0] == '+') {
			neg, r = r[0] == '-', r[1:]
		}
		v, n, r2 := digitRun(r)
		if n == 0 || len(r2) == 0 || r2[0] != unit {
			return
		}
		if len(r) != len(s) {
			signed = true
		}
		if neg {
			v = -v
		}
		*to, s, ok = v, r2[1:], true
	}
	component('Y', &years)
	component('M', &months)
	return years, months, signed, ok && len(s) == 0
}

func checkYearMonth(s string) {
	y, m, signed, ok := yearMonth(s)
	nullable := sym.Bool("nullable")
	l, err := literal.NewIntervalYearsToMonthFromString(s, nullable)
	if err != nil {
		sym.Reach("rejected")
		if !signed {
			sym.Assert(!sym.And(ok, sym.And(int32Fits(y), int32Fits(m))), "a well-formed interval is accepted")
		}
		return
	}
	sym.Reach("accepted")
	sym.Assert(ok, "an ill-formed interval is rejected")
	sym.Assert(sym.And(int32Fits(y), int32Fits(m)), "an interval that does not fit is rejected")
	years, months, is := yearMonthOf(l)
	sym.Assert(is, "an interval literal")
	sym.Assert(int64(years) == y, "years")
	sym.Assert(int64(months) == m, "months")
	sym.Assert(sym.Iff(l.GetType().GetNullability() == types.NullabilityNullable, nullable), "nullability")
}

func yearMonthOf(l expr.Literal) (int32, int32, bool) {
	p := l.ToProtoLiteral().GetIntervalYearToMonth()
	return p.GetYears(), p.GetMonths(), p != nil
}

var signs = []string{"", "-", "+"}

func L02YearMonth() {
	s := "P"
	size := func(name string) int { return []int{1, 2, 3, 10}[sym.Choice(name, 4)] }
	part := func(name, unit string) {
		if sym.Choice(name, 2) == 1 {
			d, _ := digits(name+".n", size(name+".size"))
			s += signs[sym.Choice(name+".sign", 3)] + d + unit
		}
	}
	if sym.Choice("order", 2) == 0 {
		part("y", "Y")
		part("m", "M")
	} else {
		part("m", "M")
		part("y", "Y")
	}
	checkYearMonth(s)
}

func text() string {
	n := 5
	if sym.Deep() {
		n = 6
	}
	return "P" + sym.String("s", 0, n)
}

func L02YearMonthText() { checkYearMonth(text()) }

type daySecond struct {
	days, hours, minutes, seconds int64
	frac                          int64 // nanoseconds
	inexact                       bool  // the fraction is finer than nanoseconds
	bare                          bool  // seconds without digits in front of the point
}

func readDaySecond(s string) (d daySecond, ok bool) {
	if len(s) == 0 || s[0] != 'P' {
		return
	}
	s = s[1:]
	component := func(unit byte, to *int64) bool {
		v, n, r := digitRun(s)
		if n == 0 || len(r) == 0 || r[0] != unit {
			return false
		}
		*to, s = v, r[1:]
		return true
	}
	ok = component('D', &d.days)
	if len(s) == 0 {
		return
	}
	if s[0] != 'T' {
		return d, false
	}
	s = s[1:]
	ok = component('H', &d.hours)
	ok = component('M', &d.minutes) || ok
	if v, n, r := digitRun(s); len(r) > 0 && (n > 0 && r[0] == 'S' || r[0] == '.') {
		d.bare, d.seconds, ok = n == 0, v, true
		if r[0] == '.' {
			scale, k := int64(100_000_000), 0
			for r = r[1:]; len(r) > 0 && isDigit(r[0]); r = r[1:] {
				x := int64(r[0] - '0')
				d.frac += x * scale
				d.inexact = sym.Or(d.inexact, sym.And(scale == 0, x != 0))
				scale /= 10
				k++
			}
			if k == 0 || len(r) == 0 || r[0] != 'S' {
				return d, false
			}
		}
		s = r[1:]
	}
	return d, ok && len(s) == 0
}

func checkDaySecond(s string) {
	d, ok := readDaySecond(s)
	nullable := sym.Bool("nullable")
	l, err := literal.NewIntervalDaysToSecondFromString(s, nullable)
	total := d.hours*3600 + d.minutes*60 + d.seconds
	fits := sym.And(int32Fits(d.days), int32Fits(total))
	if err != nil {
		sym.Reach("rejected")
		if !d.bare {
			sym.Assert(!sym.And(ok, sym.And(fits, !d.inexact)), "a well-formed interval is accepted")
		}
		return
	}
	sym.Reach("accepted")
	sym.Assert(ok, "an ill-formed interval is rejected")
	sym.Assert(fits, "an interval that does not fit is rejected")
	sym.Assert(!d.inexact, "an interval finer than nanoseconds is rejected")
	p := l.ToProtoLiteral().GetIntervalDayToSecond()
	sym.Assert(p != nil, "an interval literal")
	sym.Assert(int64(p.GetDays()) == d.days, "days")
	sym.Assert(int64(p.GetSeconds()) == total, "seconds")
	prec, ok := p.GetPrecisionMode().(*pb.Expression_Literal_IntervalDayToSecond_Precision)
	sym.Assert(ok, "a precision")
	unit := int64(1)
	for i := prec.Precision; i < 9; i++ {
		unit *= 10
	}
	sym.Assert(sym.And(p.GetSubseconds() >= 0, p.GetSubseconds() <= 999_999_999), "a fraction of a second")
	sym.Assert(p.GetSubseconds()*unit == d.frac, "fraction")
	t, ok := l.GetType().(*types.IntervalDayType)
	sym.Assert(ok, "type")
	sym.Assert(int32(t.Precision) == prec.Precision, "precision of the type")
	sym.Assert(sym.Iff(t.Nullability == types.NullabilityNullable, nullable), "nullability")
}

func L02DaySecond() {
	s := "P"
	long := sym.Choice("long", 4)
	part := func(i int, name, unit string) {
		n := sym.Choice(name, 3)
		if n == 0 {
			return
		}
		if i == long && n == 2 {
			n = 10 + sym.Choice(name+".extra", 2)
		}
		d, _ := digits(name+".n", n)
		s += d + unit
	}
	part(0, "days", "D")
	if sym.Choice("time", 2) == 1 {
		s += "T"
		part(1, "hours", "H")
		part(2, "minutes", "M")
		part(3, "seconds", "S")
	}
	checkDaySecond(s)
}

func L02Fraction() {
	n := sym.Choice("seconds", 3)
	a, _ := digits("seconds.n", n)
	s := "PT" + a
	if m := sym.Choice("fraction", 13); m > 0 {
		b, _ := digits("fraction.n", m)
		s += "." + b
	}
	checkDaySecond(s + "S")
}

func L02DaySecondText() { checkDaySecond(text()) }

func L02Other() {
	s := sym.String("s", 0, 3)
	if sym.Choice("kind", 2) == 0 {
		checkYearMonth(s)
	} else {
		checkDaySecond(s)
	}
}
