package harness

import (
	"math"
	"time"

	"github.com/google/uuid"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("L01",
	H{F: L01Plain, Bounds: "booleans, integers, floats, texts and byte strings of 0..5 bytes, interval parts: every value", Reach: []string{"done"}},
	H{F: L01Date, Bounds: "every 64-bit number of days", Reach: []string{"accepted", "rejected"}},
	H{F: L01DateText, Bounds: "texts of 4, 2 and 2 digits separated by dashes, years 1600..2399 (quick: from 1968)", Reach: []string{"accepted", "rejected"}},
	H{F: L01Time, Bounds: "every 32-bit hour, minute, second and microsecond; every 64-bit count of microseconds", Reach: []string{"accepted", "rejected"}},
	H{F: L01TimeText, Bounds: "texts hh:mm:ss and hh:mm:ss.5 of any digits, 23:08:59.f with every fraction of 1 digit (thorough: 1..7), precisions 0, 3 and 9 (thorough: each)", Reach: []string{"accepted", "rejected"}},
	H{F: L01Instant, Bounds: "every instant within 2^40 seconds of the epoch, as a timestamp with or without time zone", Reach: []string{"accepted", "rejected"}},
	H{F: L01PrecisionInstant, Bounds: "every instant within 2^62 seconds of the epoch, every precision", Reach: []string{"accepted", "rejected"}},
	H{F: L01PrecisionCount, Bounds: "every precision, every 64-bit count", Reach: []string{"accepted", "rejected"}},
	H{F: L01TimeOfDay, Bounds: "every instant within 2^33 seconds of the epoch, every precision", Reach: []string{"accepted"}},
	H{F: L01BadPrecision, Bounds: "every precision outside 0..9", Reach: []string{"done"}},
	H{F: L01UUID, Bounds: "byte strings of 0..17 bytes", Reach: []string{"accepted", "rejected"}},
	H{F: L01List, Bounds: "lists of 0..2 (thorough: 3) elements of 10 literal kinds, possibly nil, maps of 0..2 entries of 3 kinds (thorough: one of 10), possibly nil", Reach: []string{"accepted", "rejected"}},
	H{F: L01UserDefined, Bounds: "structs of 0..2 fields, the first of any literal kind and the second an i32 (thorough: any), 0..2 type parameters", Reach: []string{"done"}},
	H{F: L01Rescale, Bounds: "times, timestamps and day intervals with every 64-bit count, from and to every precision", Reach: []string{"accepted", "rejected"}},
)

// holds checks a literal against the value and the type it should have.
func holds(l expr.Literal, t types.Type, v *pb.Expression_Literal, what string) {
	sym.Assert(l.GetType().Equals(t), what+": the type of the literal")
	v.Nullable = t.GetNullability() == types.NullabilityNullable
	sym.Assert(sym.ProtoEqual(l.ToProtoLiteral(), v), what+": the value of the literal")
}

func nulOf(nullable bool) types.Nullability {
	if nullable {
		return types.NullabilityNullable
	}
	return types.NullabilityRequired
}

func L01Plain() {
	nullable := sym.Bool("nullable")
	n := nulOf(nullable)
	var l expr.Literal
	var err error
	var t types.Type
	p := &pb.Expression_Literal{}
	kinds := []string{"bool", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "fixedchar", "varchar", "fixedbinary",
		"year-month", "day-second", "timestamp", "timestamp_tz", "uuid"}
	kind := kinds[sym.Choice("kind", len(kinds))]
	sym.Case(kind)
	switch kind {
	case "bool":
		v := sym.Bool("v")
		l, t, p.LiteralType = literal.NewBool(v, nullable), &types.BooleanType{Nullability: n}, &pb.Expression_Literal_Boolean{Boolean: v}
	case "i8":
		v := sym.Int8("v")
		l, t, p.LiteralType = literal.NewInt8(v, nullable), &types.Int8Type{Nullability: n}, &pb.Expression_Literal_I8{I8: int32(v)}
	case "i16":
		v := sym.Int16("v")
		l, t, p.LiteralType = literal.NewInt16(v, nullable), &types.Int16Type{Nullability: n}, &pb.Expression_Literal_I16{I16: int32(v)}
	case "i32":
		v := sym.Int32("v")
		l, t, p.LiteralType = literal.NewInt32(v, nullable), &types.Int32Type{Nullability: n}, &pb.Expression_Literal_I32{I32: v}
	case "i64":
		v := sym.Int64("v")
		l, t, p.LiteralType = literal.NewInt64(v, nullable), &types.Int64Type{Nullability: n}, &pb.Expression_Literal_I64{I64: v}
	case "fp32":
		v := sym.Float32("v")
		l, t, p.LiteralType = literal.NewFloat32(v, nullable), &types.Float32Type{Nullability: n}, &pb.Expression_Literal_Fp32{Fp32: v}
	case "fp64":
		v := sym.Float64("v")
		l, t, p.LiteralType = literal.NewFloat64(v, nullable), &types.Float64Type{Nullability: n}, &pb.Expression_Literal_Fp64{Fp64: v}
	case "string":
		v := sym.String("v", 0, 5)
		l, t, p.LiteralType = literal.NewString(v, nullable), &types.StringType{Nullability: n}, &pb.Expression_Literal_String_{String_: v}
	case "fixedchar":
		v := sym.String("v", 0, 5)
		l, err = literal.NewFixedChar(v, nullable)
		t, p.LiteralType = &types.FixedCharType{Nullability: n, Length: int32(len(v))}, &pb.Expression_Literal_FixedChar{FixedChar: v}
	case "varchar":
		v := sym.String("v", 0, 5)
		l, err = literal.NewVarChar(v, nullable)
		t = &types.VarCharType{Nullability: n, Length: int32(len(v))}
		p.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: v, Length: uint32(len(v))}}
	case "fixedbinary":
		v := sym.Bytes("v", 0, 5)
		l, err = literal.NewFixedBinary(v, nullable)
		t, p.LiteralType = &types.FixedBinaryType{Nullability: n, Length: int32(len(v))}, &pb.Expression_Literal_FixedBinary{FixedBinary: v}
	case "year-month":
		y, m := sym.Int32("y"), sym.Int32("m")
		l, err = literal.NewIntervalYearsToMonth(y, m, nullable)
		t = &types.IntervalYearType{Nullability: n}
		p.LiteralType = &pb.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: &pb.Expression_Literal_IntervalYearToMonth{Years: y, Months: m}}
	case "day-second":
		d, s, u := sym.Int32("d"), sym.Int32("s"), sym.Int64("u")
		l, err = literal.NewIntervalDaysToSecond(d, s, u, nullable)
		t = &types.IntervalDayType{Nullability: n, Precision: types.PrecisionMicroSeconds}
		p.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: &pb.Expression_Literal_IntervalDayToSecond{
			Days: d, Seconds: s, Subseconds: u, PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: 6}}}
	case "timestamp":
		v := sym.Int64("v")
		l, err = literal.NewTimestampFromMicros(v, nullable)
		t, p.LiteralType = &types.TimestampType{Nullability: n}, &pb.Expression_Literal_Timestamp{Timestamp: v}
	case "timestamp_tz":
		v := sym.Int64("v")
		l, err = literal.NewTimestampTZFromMicros(v, nullable)
		t, p.LiteralType = &types.TimestampTzType{Nullability: n}, &pb.Expression_Literal_TimestampTz{TimestampTz: v}
	case "uuid":
		v := sym.Bytes("v", 16, 16)
		l, err = literal.NewUUID(uuid.UUID(v), nullable)
		t, p.LiteralType = &types.UUIDType{Nullability: n}, &pb.Expression_Literal_Uuid{Uuid: v}
	}
	sym.Assert(err == nil, "every value is accepted")
	if err != nil {
		return
	}
	holds(l, t, p, kind)
	sym.Reach("done")
}

func isDate(l expr.Literal, days int64, n types.Nullability) {
	holds(l, &types.DateType{Nullability: n}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Date{Date: int32(days)}}, "date")
}

func L01Date() {
	days, nullable := sym.Int("days"), sym.Bool("nullable")
	l, err := literal.NewDate(days, nullable)
	fits := int32Fits(int64(days))
	if err != nil {
		sym.Assert(!fits, "a date in range is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "a date out of range is rejected")
	isDate(l, int64(days), nulOf(nullable))
	sym.Reach("accepted")
}

// L01DateText: a date text denotes the days from the epoch to that day of the
// Gregorian calendar.
func L01DateText() {
	ys, y := digits("y", 4)
	ms, m := digits("m", 2)
	ds, d := digits("d", 2)
	if sym.Deep() {
		sym.Assume(sym.And(y >= 1600, y < 2400))
	} else {
		sym.Assume(sym.And(y >= 1968, y < 2104))
	}
	l, err := literal.NewDateFromString(ys+"-"+ms+"-"+ds, true)
	leap := sym.Or(sym.And(y%4 == 0, y%100 != 0), y%400 == 0)
	// days before the month, in a common year
	before, length := int64(0), int64(0)
	for i, n := range []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31} {
		before += sym.IteInt(int64(i)+1 < m, n, 0)
		length += sym.IteInt(int64(i)+1 == m, n, 0)
	}
	length += sym.IteInt(sym.And(m == 2, leap), 1, 0)
	valid := sym.And(d >= 1, d <= length)
	if err != nil {
		sym.Assert(!valid, "a date of the calendar is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "a date outside the calendar is rejected")
	// days before the year: years from 1600 on
	k := y - 1600
	days := k*365 + (k+3)/4 - (k+99)/100 + (k+399)/400 - 135140
	days += before + sym.IteInt(sym.And(leap, m > 2), 1, 0) + d - 1
	isDate(l, days, types.NullabilityNullable)
	sym.Reach("accepted")
}

func isTime(l expr.Literal, micros int64, n types.Nullability) {
	holds(l, &types.TimeType{Nullability: n}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Time{Time: micros}}, "time")
}

const day = 24 * 60 * 60

func L01Time() {
	nullable := sym.Bool("nullable")
	var l expr.Literal
	var err error
	var micros int64
	if sym.Choice("from", 2) == 0 {
		h, m, s, u := sym.Int32("h"), sym.Int32("m"), sym.Int32("s"), sym.Int32("u")
		// within 2^63: 3600e6 * 2^31 < 7.8e18
		micros = ((int64(h)*60+int64(m))*60+int64(s))*1000000 + int64(u)
		l, err = literal.NewTime(h, m, s, u, nullable)
	} else {
		micros = sym.Int64("micros")
		l, err = literal.NewTimeFromMicros(micros, nullable)
	}
	valid := sym.And(micros >= 0, micros < day*1000000)
	if err != nil {
		sym.Assert(!valid, "a time within a day is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "a time outside a day is rejected")
	isTime(l, micros, nulOf(nullable))
	sym.Reach("accepted")
}

func L01TimeText() {
	hs, ms, ss := "23", "08", "59"
	h, m, s := int64(23), int64(8), int64(59)
	var fraction string
	var nanos int64
	most := 1
	if sym.Deep() {
		most = 7
	}
	if n := sym.Choice("fraction", most+1); n > 0 {
		var fs string
		fs, nanos = digits("f", n)
		nanos *= pow10[9-n]
		fraction = "." + fs
	} else {
		hs, h = digits("h", 2)
		ms, m = digits("m", 2)
		ss, s = digits("s", 2)
		if sym.Choice("half", 2) == 1 {
			fraction, nanos = ".5", 500000000
		}
	}
	text := hs + ":" + ms + ":" + ss + fraction
	valid := sym.And(h < 24, sym.And(m < 60, s < 60))
	seconds := (h*60+m)*60 + s
	var l expr.Literal
	var err error
	p := 10
	if !sym.Deep() {
		p = []int{0, 3, 9, 10}[sym.Choice("precision", 4)]
	} else {
		p = sym.Choice("precision", 11)
	}
	if p == 10 {
		l, err = literal.NewTimeFromString(text, true)
	} else {
		l, err = literal.NewPrecisionTimeFromString(types.TimePrecision(p), text, true)
	}
	if err != nil {
		sym.Assert(!valid, "a time within a day is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "a time outside a day is rejected")
	if p == 10 {
		isTime(l, seconds*1000000+nanos/1000, types.NullabilityNullable)
	} else {
		isPrecisionTime(l, p, seconds*pow10[p]+nanos/pow10[9-p], types.NullabilityNullable)
	}
	sym.Reach("accepted")
}

// countOf is the count of an instant at a precision, and whether it fits 64 bits.
func countOf(sec, ns int64, p int) (count int64, fits bool) {
	n, k := pow10[p], ns/pow10[9-p]
	top := int64(math.MaxInt64) / n
	low := int64(math.MinInt64)/n - 1 // below or at the floor
	if int64(math.MinInt64)%n == 0 {
		low++
	}
	fits = sym.Or(sym.And(sec > low, sec < top), sym.Or(sym.And(sec == top, k <= math.MaxInt64-top*n),
		sym.And(sec == low, k >= math.MinInt64-low*n)))
	return sec*n + k, fits
}

func instant(bits int) (sec, ns int64) {
	sec, ns = sym.Int64("sec"), sym.Int64("ns")
	lim := int64(1) << bits
	sym.Assume(sym.And(sec > -lim, sec < lim))
	sym.Assume(sym.And(ns >= 0, ns < 1000000000))
	return sec, ns
}

func L01Instant() {
	sec, ns := instant(50)
	count, fits := countOf(sec, ns, 6)
	var l expr.Literal
	var err error
	tz := sym.Choice("tz", 2)
	if tz == 0 {
		l, err = literal.NewTimestamp(time.Unix(sec, ns), true)
	} else {
		l, err = literal.NewTimestampTZ(time.Unix(sec, ns), true)
	}
	if err != nil {
		sym.Assert(!fits, "an instant in range is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "an instant out of range is rejected")
	if tz == 0 {
		holds(l, &types.TimestampType{Nullability: types.NullabilityNullable}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Timestamp{Timestamp: count}}, "timestamp")
	} else {
		holds(l, &types.TimestampTzType{Nullability: types.NullabilityNullable}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_TimestampTz{TimestampTz: count}}, "timestamp_tz")
	}
	sym.Reach("accepted")
}

func isPrecisionTime(l expr.Literal, p int, count int64, n types.Nullability) {
	holds(l, &types.PrecisionTimeType{Nullability: n, Precision: types.TimePrecision(p)}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTime_{
		PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: int32(p), Value: count}}}, "precision_time")
}

func isPrecisionTimestamp(l expr.Literal, p int, count int64, n types.Nullability) {
	holds(l, &types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(p)}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTimestamp_{
		PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Precision: int32(p), Value: count}}}, "precision_timestamp")
}

func isPrecisionTimestampTz(l expr.Literal, p int, count int64, n types.Nullability) {
	holds(l, &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(p)}}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTimestampTz{
		PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Precision: int32(p), Value: count}}}, "precision_timestamp_tz")
}

func L01PrecisionInstant() {
	p := sym.Choice("precision", 10)
	sec, ns := instant(61)
	count, fits := countOf(sec, ns, p)
	tz := sym.Choice("tz", 2)
	var l expr.Literal
	var err error
	if tz == 0 {
		l, err = literal.NewPrecisionTimestampFromTime(types.TimePrecision(p), time.Unix(sec, ns), true)
	} else {
		l, err = literal.NewPrecisionTimestampTzFromTime(types.TimePrecision(p), time.Unix(sec, ns), true)
	}
	if err != nil {
		sym.Assert(!fits, "an instant in range is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "an instant out of range is rejected")
	if tz == 0 {
		isPrecisionTimestamp(l, p, count, types.NullabilityNullable)
	} else {
		isPrecisionTimestampTz(l, p, count, types.NullabilityNullable)
	}
	sym.Reach("accepted")
}

func L01PrecisionCount() {
	p := sym.Choice("precision", 10)
	count, nullable := sym.Int64("count"), sym.Bool("nullable")
	tp, n := types.TimePrecision(p), nulOf(nullable)
	switch sym.Choice("kind", 3) {
	case 0:
		l, err := literal.NewPrecisionTime(tp, count, nullable)
		valid := sym.And(count >= 0, count < day*pow10[p])
		if err != nil {
			sym.Assert(!valid, "a time within a day is accepted")
			sym.Reach("rejected")
			return
		}
		sym.Assert(valid, "a time outside a day is rejected")
		isPrecisionTime(l, p, count, n)
	case 1:
		l, err := literal.NewPrecisionTimestamp(tp, count, nullable)
		sym.Assert(err == nil, "every count is accepted")
		if err == nil {
			isPrecisionTimestamp(l, p, count, n)
		}
	case 2:
		l, err := literal.NewPrecisionTimestampTz(tp, count, nullable)
		sym.Assert(err == nil, "every count is accepted")
		if err == nil {
			isPrecisionTimestampTz(l, p, count, n)
		}
	}
	sym.Reach("accepted")
}

func L01TimeOfDay() {
	p := sym.Choice("precision", 10)
	sec, ns := instant(33)
	l, err := literal.NewPrecisionTimeFromTime(types.TimePrecision(p), time.Unix(sec, ns).UTC(), true)
	sym.Assert(err == nil, "every instant has a time of day")
	if err != nil {
		return
	}
	of := sec % day
	of += sym.IteInt(of < 0, day, 0)
	isPrecisionTime(l, p, of*pow10[p]+ns/pow10[9-p], types.NullabilityNullable)
	sym.Reach("accepted")
}

func L01BadPrecision() {
	v := sym.Int32("precision")
	sym.Assume(sym.Or(v < 0, v > 9))
	p := types.TimePrecision(v)
	var err error
	panicked := sym.Catch(func() {
		switch sym.Choice("kind", 6) {
		case 0:
			_, err = literal.NewPrecisionTime(p, 0, true)
		case 1:
			_, err = literal.NewPrecisionTimestamp(p, 0, true)
		case 2:
			_, err = literal.NewPrecisionTimestampTz(p, 0, true)
		case 3:
			_, err = literal.NewPrecisionTimeFromTime(p, time.Unix(0, 0), true)
		case 4:
			_, err = literal.NewPrecisionTimestampFromTime(p, time.Unix(0, 0), true)
		case 5:
			_, err = literal.NewPrecisionTimestampTzFromTime(p, time.Unix(0, 0), true)
		}
	})
	sym.Assert(!panicked, "an unknown precision does not panic")
	sym.Assert(panicked || err != nil, "an unknown precision is rejected")
	sym.Reach("done")
}

func L01UUID() {
	v := sym.Bytes("v", 0, 17)
	l, err := literal.NewUUIDFromBytes(v, true)
	if err != nil {
		sym.Assert(len(v) != 16, "16 bytes are accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(v) == 16, "a uuid of other than 16 bytes is rejected")
	holds(l, &types.UUIDType{Nullability: types.NullabilityNullable}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Uuid{Uuid: v}}, "uuid")
	sym.Reach("accepted")
}

// element is a literal of any kind that has a simple value, or nil.
func element(name string, few bool) *lp {
	kinds := []string{"", "i8", "string", "varchar", "fixedbinary", "precision_time", "interval_day", "decimal", "udt", "emptylist", "list"}
	if few {
		kinds = []string{"", "string", "decimal", "list"}
	}
	k := sym.Choice(name+".kind", len(kinds))
	switch kinds[k] {
	case "":
		return nil
	case "list":
		e := litOf("i16", name+".e")
		n := nul2(name + ".nul")
		t := &types.ListType{Nullability: n, Type: e.T}
		return &lp{T: t, L: &expr.ListLiteral{Value: expr.ListLiteralValue{e.L}, Type: t}, P: &pb.Expression_Literal{
			Nullable: n == types.NullabilityNullable, LiteralType: &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: []*pb.Expression_Literal{e.P}}}}}
	}
	l := litOf(kinds[k], name)
	return &l
}

// sameElements says whether all elements are there and of one type.
func sameElements(es []*lp) bool {
	ok := true
	for _, e := range es {
		if e == nil || es[0] == nil {
			return false
		}
		ok = sym.And(ok, sym.DeepEqual(e.T, es[0].T))
	}
	return ok
}

func lits(es []*lp) (r []expr.Literal) {
	for _, e := range es {
		if e == nil {
			r = append(r, nil)
		} else {
			r = append(r, e.L)
		}
	}
	return r
}

func L01List() {
	nullable := sym.Bool("nullable")
	n := nulOf(nullable)
	if sym.Choice("map", 2) == 0 {
		var es []*lp
		most := 2
		if sym.Deep() {
			most = 3
		}
		for i := range sym.Choice("len", most+1) {
			es = append(es, element("e"+string(rune('0'+i)), false))
		}
		l, err := literal.NewList(lits(es), nullable)
		ok := len(es) > 0 && sameElements(es)
		if err != nil {
			sym.Assert(!ok, "elements of one type are accepted")
			sym.Reach("rejected")
			return
		}
		sym.Assert(ok, "missing elements and elements of several types are rejected")
		if len(es) == 0 {
			return
		}
		list := &pb.Expression_Literal_List{}
		for _, e := range es {
			list.Values = append(list.Values, e.P)
		}
		holds(l, &types.ListType{Nullability: n, Type: es[0].T}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_List_{List: list}}, "list")
		sym.Reach("accepted")
		return
	}
	var ks, vs []*lp
	var entries expr.MapLiteralValue
	var kvs []*pb.Expression_Literal_Map_KeyValue
	for i := range sym.Choice("len", 3) {
		name := string(rune('0' + i))
		k, v := element("k"+name, !sym.Deep()), element("v"+name, !sym.Deep() || i > 0)
		ks, vs = append(ks, k), append(vs, v)
		entries = append(entries, struct{ Key, Value expr.Literal }{lits(ks)[i], lits(vs)[i]})
		if k != nil && v != nil {
			kvs = append(kvs, &pb.Expression_Literal_Map_KeyValue{Key: k.P, Value: v.P})
		}
	}
	l, err := literal.NewMap(entries, nullable)
	ok := len(ks) > 0 && sameElements(ks) && sameElements(vs)
	if err != nil {
		sym.Assert(!ok, "keys of one type and values of one type are accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(ok, "missing keys and values and those of several types are rejected")
	if !ok {
		return
	}
	holds(l, &types.MapType{Nullability: n, Key: ks[0].T, Value: vs[0].T}, &pb.Expression_Literal{
		LiteralType: &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: kvs}}}, "map")
	sym.Reach("accepted")
}

func L01UserDefined() {
	nullable := sym.Bool("nullable")
	ref := sym.Uint32("ref")
	var value expr.StructLiteralValue
	st := &pb.Expression_Literal_Struct{}
	for i := range sym.Choice("fields", 3) {
		e := litOf("i32", "g")
		if i == 0 || sym.Deep() {
			e = anyLit("f"+string(rune('0'+i)), 0)
		}
		value = append(value, e.L)
		st.Fields = append(st.Fields, e.P)
	}
	t := &types.UserDefinedType{Nullability: nulOf(nullable), TypeReference: ref}
	var params []*pb.Type_Parameter
	for i := range sym.Choice("params", 3) {
		v := sym.Int64("p" + string(rune('0'+i)))
		t.TypeParameters = append(t.TypeParameters, types.IntegerParameter(v))
		params = append(params, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: v}})
	}
	l, err := literal.NewUserDefinedLiteral(ref, value, nullable, t.TypeParameters)
	sym.Assert(err == nil, "accepted")
	if err != nil {
		return
	}
	holds(l, t, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{
		TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: ref},
		TypeParameters: params,
		Val:            &pb.Expression_Literal_UserDefined_Struct{Struct: st},
	}}}, "user-defined")
	sym.Reach("done")
}

// rescaled is the count of units at precision q of a count at precision p, towards
// minus infinity, and whether it fits 64 bits.
func rescaled(count int64, p, q int) (int64, bool) {
	if q <= p {
		f := pow10[p-q]
		r := count / f
		return r - sym.IteInt(r*f > count, 1, 0), true
	}
	f := pow10[q-p]
	return count * f, sym.And(count <= math.MaxInt64/f, count >= math.MinInt64/f)
}

func L01Rescale() {
	p, q := sym.Choice("from", 10), sym.Choice("to", 10)
	from, to := types.TimePrecision(p), types.TimePrecision(q)
	count := sym.Int64("count")
	n := nulOf(sym.Bool("nullable"))
	want, fits := rescaled(count, p, q)
	var l expr.Literal
	var nt types.Type
	kind := sym.Choice("kind", 4)
	switch kind {
	case 0:
		l, nt = expr.NewPrecisionTimeLiteral(count, from, types.NullabilityRequired), &types.PrecisionTimeType{Nullability: n, Precision: to}
	case 1:
		l, nt = expr.NewPrecisionTimestampLiteral(count, from, types.NullabilityRequired), &types.PrecisionTimestampType{Nullability: n, Precision: to}
	case 2:
		l, nt = expr.NewPrecisionTimestampTzLiteral(count, from, types.NullabilityRequired), &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, Precision: to}}
	case 3:
		d, s := sym.Int32("d"), sym.Int32("s")
		v, err := expr.NewLiteral(&types.IntervalDayToSecond{Days: d, Seconds: s, Subseconds: count,
			PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(p)}}, false)
		if err != nil {
			sym.Assert(false, "an interval")
			return
		}
		l, nt = v, &types.IntervalDayType{Nullability: n, Precision: to}
		r, err := l.(expr.WithTypeLiteral).WithType(nt)
		if err != nil {
			sym.Assert(!fits, "a count in range is accepted")
			sym.Reach("rejected")
			return
		}
		sym.Assert(fits, "a count out of range is rejected")
		sym.Assert(r.GetType().Equals(nt), "the type is the one given")
		x := r.ToProtoLiteral().GetIntervalDayToSecond()
		sym.Assert(sym.And(x.GetDays() == d, x.GetSeconds() == s), "days and seconds are kept")
		sym.Assert(x.GetPrecision() == int32(q), "the precision")
		// the fraction may be rounded either way
		sym.Assert(sym.Or(x.GetSubseconds() == want, sym.And(p > q, x.GetSubseconds() == want+1)), "subseconds")
		sym.Reach("accepted")
		return
	}
	r, err := l.(expr.WithTypeLiteral).WithType(nt)
	if err != nil {
		sym.Assert(!fits, "a count in range is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "a count out of range is rejected")
	switch kind {
	case 0:
		isPrecisionTime(r, q, want, n)
	case 1:
		isPrecisionTimestamp(r, q, want, n)
	case 2:
		isPrecisionTimestampTz(r, q, want, n)
	}
	sym.Reach("accepted")
}
