package harness

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("L03",
	H{F: L03Scalar, Bounds: "an argument or result of 29 kinds (numbers with a fraction and points in time: six or three fixed values each; nulls of 21 types) next to a fixed one, any nullability, integers of 1..2 digits of any sign, texts of 0..2 letters with 5 ways of escaping", Reach: []string{"read"}},
	H{F: L03Places, Bounds: "a value of those kinds but enums in a list, a column, and the cell of a compact and a defined table", Reach: []string{"read"}},
	H{F: L03Cases, Bounds: "1..2 cases in 1..2 groups, values and both special outcomes, 0..2 options with names and values of symbolic letters; every map iteration order", Reach: []string{"read"}, Order: true},
	H{F: L03Fits, Bounds: "integers of each width around its limits, in the 6 places a value can have", Reach: []string{"accepted", "rejected"}},
	H{F: L03Lengths, Bounds: "texts of 0..3 letters of fixedchar, varchar and fixedbinary of lengths 0..9, in the 6 places; type parameters of 9..10 digits", Reach: []string{"accepted", "rejected"}},
	H{F: L03Tables, Bounds: "tables of 1..2 (thorough: 3) columns of 3 types and 0..2 rows of symbolic values and nulls, in the three formats, with 0..2 arguments that are columns or values", Reach: []string{"read", "rejected"}},
	H{F: L03Kinds, Bounds: "literals of 7 kinds declared to be of 7 types in lists, columns and tables", Reach: []string{"accepted", "rejected"}},
	H{F: L03Malformed, Bounds: "34 malformed files, with symbolic digits and letters in them", Reach: []string{"rejected"}},
)

const (
	scalarCases = "### SUBSTRAIT_SCALAR_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/functions_x.yaml'\n\n"
	aggCases    = "### SUBSTRAIT_AGGREGATE_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/functions_x.yaml'\n\n"
)

func withNull(null bool) (string, types.Nullability) {
	if null {
		return "?", types.NullabilityNullable
	}
	return "", types.NullabilityRequired
}

var caseInts = []string{"i8", "i16", "i32", "i64"}

func intLit(k int, v int64, null bool) (expr.Literal, types.Type) {
	_, n := withNull(null)
	switch k {
	case 0:
		return literal.NewInt8(int8(v), null), &types.Int8Type{Nullability: n}
	case 1:
		return literal.NewInt16(int16(v), null), &types.Int16Type{Nullability: n}
	case 2:
		return literal.NewInt32(int32(v), null), &types.Int32Type{Nullability: n}
	}
	return literal.NewInt64(v, null), &types.Int64Type{Nullability: n}
}

// quoted is a text and the string it states.
func quoted(p string) (string, string) {
	switch k := sym.Choice(p+".text", 8); k {
	case 0, 1, 2:
		s := letters(p+".s", k)
		return "'" + s + "'", s
	case 3:
		s := letters(p+".s", 1)
		return `'` + s + `\'x'`, s + "'x"
	case 4:
		s := letters(p+".s", 1)
		return `'\\` + s + `'`, `\` + s
	case 5:
		return `'\''`, `'`
	case 6:
		s := letters(p+".s", 1)
		return `'\\\'` + s + `\\'`, `\'` + s + `\`
	}
	s := letters(p+".s", 1)
	return "'" + s + " B-9:_'", s + " B-9:_"
}

const caseArgs = 29

// caseArg is an argument of a kind, the value it states and its type.
func caseArg(p string, k int) (string, types.FuncArg, types.Type) {
	null := sym.Choice(p+".null", 2) == 1
	q, n := withNull(null)
	switch k {
	case 0, 1, 2, 3:
		s, v := numText(p+".n", 1+sym.Choice(p+".digits", 2))
		l, t := intLit(k, v, null)
		return s + "::" + caseInts[k] + q, l, t
	case 4:
		i := sym.Choice(p+".bool", 4)
		return []string{"true", "false", "TRUE", "False"}[i] + []string{"::bool", "::boolean"}[i%2] + q, literal.NewBool(i%2 == 0, null), &types.BooleanType{Nullability: n}
	case 5:
		s, v := quoted(p)
		return s + "::str" + q, literal.NewString(v, null), &types.StringType{Nullability: n}
	case 6:
		s := word(p+".w", 1)
		return s + "::enum", types.Enum(s), types.CommonEnumType
	case 7:
		t := &types.Int16Type{Nullability: types.NullabilityNullable}
		return "null::i16?", expr.NewNullLiteral(t), t
	case 8:
		t := &types.VarCharType{Length: 5, Nullability: types.NullabilityNullable}
		return "NULL::vchar?<5>", expr.NewNullLiteral(t), t
	case 9:
		t := &types.DecimalType{Precision: 5, Scale: 2, Nullability: n}
		v := []byte{0xe2, 0x04, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		return "12.5::dec" + q + "<5,2>", &expr.ProtoLiteral{Value: v, Type: t}, t
	case 10:
		s := letters(p+".s", 2)
		t := &types.FixedCharType{Length: 2, Nullability: n}
		return "'" + s + "'::fchar" + q + "<2>", &expr.PrimitiveLiteral[types.FixedChar]{Value: types.FixedChar(s), Type: t}, t
	case 11:
		s := letters(p+".s", 2)
		t := &types.VarCharType{Length: 4, Nullability: n}
		return "'" + s + "'::vchar" + q + "<4>", &expr.ProtoLiteral{Value: s, Type: t}, t
	case 12:
		s := letters(p+".s", 2)
		t := &types.FixedBinaryType{Length: 2, Nullability: n}
		return "'" + s + "'::fixedbinary" + q + "<2>", &expr.ByteSliceLiteral[types.FixedBinary]{Value: types.FixedBinary(s), Type: t}, t
	case 13:
		t := &types.DateType{Nullability: n}
		return "'2020-01-02'::date" + q, &expr.PrimitiveLiteral[types.Date]{Value: 18263, Type: t}, t
	case 14:
		y, yv := digits(p+".y", 1)
		m, mv := digits(p+".m", 1)
		t := &types.IntervalYearType{Nullability: n}
		return "'P" + y + "Y" + m + "M'::iyear" + q, &expr.ProtoLiteral{Value: &types.IntervalYearToMonth{Years: int32(yv), Months: int32(mv)}, Type: t}, t
	case 15:
		d, dv := digits(p+".d", 1)
		h, hv := digits(p+".h", 1)
		t := &types.IntervalDayType{Precision: 3, Nullability: n}
		v := &types.IntervalDayToSecond{Days: int32(dv), Seconds: int32(hv * 3600)}
		v.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: 3}
		return "'P" + d + "DT" + h + "H'::iday" + q + "<3>", &expr.ProtoLiteral{Value: v, Type: t}, t
	case 16:
		a, av := numText(p+".a", 1)
		b, bv := numText(p+".b", 1)
		t := &types.ListType{Type: &types.Int32Type{Nullability: types.NullabilityRequired}, Nullability: n}
		return "[" + a + ", " + b + "]::list" + q + "<i32>", &expr.ListLiteral{Value: expr.ListLiteralValue{literal.NewInt32(int32(av), false), literal.NewInt32(int32(bv), false)}, Type: t}, t
	case 17:
		s := letters(p+".s", 1)
		e := &types.ListType{Type: &types.StringType{Nullability: types.NullabilityRequired}, Nullability: types.NullabilityRequired}
		t := &types.ListType{Type: e, Nullability: n}
		one, _ := literal.NewList([]expr.Literal{literal.NewString(s, false)}, false)
		two, _ := literal.NewList([]expr.Literal{literal.NewString("x", false), literal.NewString(s, false)}, false)
		return "[['" + s + "'], ['x', '" + s + "']]::list" + q + "<list<str>>", &expr.ListLiteral{Value: expr.ListLiteralValue{one, two}, Type: t}, t
	case 18:
		t := &types.TimeType{Nullability: n}
		return "'00:01:01.5'::time" + q, &expr.PrimitiveLiteral[types.Time]{Value: 61500000, Type: t}, t
	}
	switch k {
	case 19:
		t := &types.PrecisionTimestampType{Precision: 3, Nullability: n}
		return "'1970-01-01T00:00:02.25'::pts" + q + "<3>", &expr.ProtoLiteral{Value: int64(2250), Type: t}, t
	case 20:
		i := sym.Choice(p+".float", 6)
		x := []float32{1.5, -0.25, 2, 0, 16777216, 0.1}[i]
		return []string{"1.5", "-0.25", "2", "0.0", "16777216", "0.1"}[i] + "::fp32" + q, literal.NewFloat32(x, null), &types.Float32Type{Nullability: n}
	case 21:
		i := sym.Choice(p+".float", 6)
		x := []float64{1.5, -0.25, 2, 0, 9007199254740993, 0.1}[i]
		return []string{"1.5", "-0.25", "2", "0.0", "9007199254740993", "0.1"}[i] + "::fp64" + q, literal.NewFloat64(x, null), &types.Float64Type{Nullability: n}
	case 22:
		t := &types.TimestampType{Nullability: n}
		i := sym.Choice(p+".ts", 3)
		return []string{"'1970-01-02T00:00:00'", "'1969-12-31T23:59:59.5'", "'2020-02-29T12:34:56.123456'"}[i] + []string{"::ts", "::timestamp"}[i%2] + q,
			&expr.PrimitiveLiteral[types.Timestamp]{Value: []types.Timestamp{86400000000, -500000, 1582979696123456}[i], Type: t}, t
	case 23:
		t := &types.TimestampTzType{Nullability: n}
		i := sym.Choice(p+".tstz", 3)
		return []string{"'1970-01-01T00:00:00+00:00'", "'1970-01-01T00:00:00+01:00'", "'1970-01-01T00:00:00.5-02:30'"}[i] + []string{"::tstz", "::timestamp_tz"}[i%2] + q,
			&expr.PrimitiveLiteral[types.TimestampTz]{Value: []types.TimestampTz{0, -3600000000, 9000500000}[i], Type: t}, t
	case 24:
		i := sym.Choice(p+".pt", 3)
		pr := []int32{0, 3, 9}[i]
		t := &types.PrecisionTimeType{Precision: types.TimePrecision(pr), Nullability: n}
		return []string{"'00:01:00'::pt", "'23:59:59.999'::precision_time", "'00:00:00.000001'::pt"}[i] + q + "<" + fmt.Sprint(pr) + ">",
			&expr.ProtoLiteral{Value: []int64{60, 86399999, 1000}[i], Type: t}, t
	case 25:
		i := sym.Choice(p+".ptstz", 3)
		pr := []int32{0, 3, 6}[i]
		t := &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: types.TimePrecision(pr), Nullability: n}}
		return []string{"'1970-01-01T00:01:00+00:00'::ptstz", "'1970-01-01T01:00:00.25+01:00'::precision_timestamp_tz", "'1970-01-01T00:00:00.000001-01:00'::ptstz"}[i] + q + "<" + fmt.Sprint(pr) + ">",
			&expr.ProtoLiteral{Value: []int64{60, 250, 3600000001}[i], Type: t}, t
	case 26:
		t := &types.ListType{Type: &types.Int32Type{Nullability: types.NullabilityRequired}, Nullability: n}
		return "[]::list" + q + "<i32>", expr.NewEmptyListLiteral(t.Type, null), t
	case 27:
		e := &types.ListType{Type: &types.Int32Type{Nullability: types.NullabilityRequired}, Nullability: types.NullabilityNullable}
		t := &types.ListType{Type: e, Nullability: n}
		a, av := numText(p+".a", 1)
		one := &expr.ListLiteral{Value: expr.ListLiteralValue{literal.NewInt32(int32(av), false)}, Type: e}
		return "[[], [" + a + "]]::list" + q + "<list?<i32>>", &expr.ListLiteral{Value: expr.ListLiteralValue{expr.NewEmptyListLiteral(e.Type, true), one}, Type: t}, t
	}
	ts := []string{"i8?", "boolean?", "fp32?", "fp64?", "str?", "binary?", "vbin?", "ts?", "tstz?", "date?", "time?", "iyear?", "iday?<4>", "uuid?", "fchar?<3>", "fbin?<3>", "dec?<6,2>", "pt?<2>", "pts?<2>", "ptstz?<2>", "list?<fp64?>"}
	i := sym.Choice(p+".type", len(ts))
	nn := types.NullabilityNullable
	t := []types.Type{&types.Int8Type{Nullability: nn}, &types.BooleanType{Nullability: nn}, &types.Float32Type{Nullability: nn}, &types.Float64Type{Nullability: nn}, &types.StringType{Nullability: nn},
		&types.BinaryType{Nullability: nn}, &types.BinaryType{Nullability: nn}, &types.TimestampType{Nullability: nn}, &types.TimestampTzType{Nullability: nn}, &types.DateType{Nullability: nn}, &types.TimeType{Nullability: nn},
		&types.IntervalYearType{Nullability: nn}, &types.IntervalDayType{Precision: 4, Nullability: nn}, &types.UUIDType{Nullability: nn}, &types.FixedCharType{Length: 3, Nullability: nn}, &types.FixedBinaryType{Length: 3, Nullability: nn},
		&types.DecimalType{Precision: 6, Scale: 2, Nullability: nn}, &types.PrecisionTimeType{Precision: 2, Nullability: nn}, &types.PrecisionTimestampType{Precision: 2, Nullability: nn},
		&types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: 2, Nullability: nn}}, &types.ListType{Type: &types.Float64Type{Nullability: nn}, Nullability: nn}}[i]
	return "null::" + ts[i], expr.NewNullLiteral(t), t
}

func sameCase(a *parser.CaseLiteral, v types.FuncArg, t types.Type, what string) {
	sym.Assert(a != nil && sym.DeepEqual(a.Type, t), what+" is of the type stated")
	sym.Assert(sym.DeepEqual(a.Value, v), what+" has the value stated")
}

func readCases(text string) (*parser.TestFile, error) {
	sym.Parse()
	var f *parser.TestFile
	var err error
	panicked := sym.Catch(func() { f, err = parser.ParseTestCasesFromString(text) })
	sym.Assert(!panicked, "does not panic")
	return f, err
}

func L03Scalar() {
	k := sym.Choice("kind", caseArgs)
	sym.Case(fmt.Sprintf("kind %d", k))
	text, v, t := caseArg("a", k)
	fixed := literal.NewInt8(7, false)
	place := sym.Choice("place", 3)
	src := []string{"fn(" + text + ", 7::i8) = 7::i8", "fn(7::i8, " + text + ") = 7::i8", "fn(7::i8, 7::i8) = " + text}[place]
	f, err := readCases(scalarCases + src)
	sym.Assert(err == nil, "parses")
	sym.Assert(len(f.TestCases) == 1 && len(f.TestCases[0].Args) == 2, "is a case of two arguments")
	c := f.TestCases[0]
	sym.Assert(c.FuncName == "fn" && c.FuncType == parser.ScalarFuncType && c.BaseURI == "/extensions/functions_x.yaml", "is of the function named")
	res, ok := c.Result.(*parser.CaseLiteral)
	sym.Assert(ok, "has a result")
	at := c.GetArgTypes()
	for i, a := range []*parser.CaseLiteral{c.Args[0], c.Args[1], res} {
		if i == place {
			sameCase(a, v, t, "the value")
		} else {
			sameCase(a, fixed, &types.Int8Type{Nullability: types.NullabilityRequired}, "another value")
		}
		sym.Assert(i == 2 || sym.DeepEqual(at[i], a.Type), "lists the types of the arguments")
	}
	sym.Assert(c.Result != nil, "has a result")
	sym.Reach("read")
}

func L03Cases() {
	type want struct {
		group, name string
		opts        parser.FuncOptions
		outcome     int
		val         int64
	}
	var ws []want
	text := ""
	group := ""
	nc := 1 + sym.Choice("cases", 2)
	for i := range nc {
		p := string(rune('a' + i))
		if sym.Choice(p+".group", 2) == 1 || i == 0 {
			group = "group " + p
			text += "# " + group + "\n"
		}
		w := want{group: group, name: word(p+".name", 1)}
		text += w.name + "(1::i8)"
		no := 0
		if i == nc-1 {
			no = sym.Choice(p+".opts", 3)
		}
		if no > 0 {
			w.opts = parser.FuncOptions{}
			text += " ["
			for j := range no {
				key := []string{"overflow", "qz"}[j]
				val := word(p+".v"+string(rune('0'+j)), 1)
				if j > 0 {
					text += ", "
				}
				text += key + ":" + val
				w.opts[key] = val
			}
			text += "]"
		}
		w.outcome = sym.Choice(p+".outcome", 3)
		switch w.outcome {
		case 0:
			s, v := numText(p+".n", 1)
			w.val = v
			text += " = " + s + "::i64\n"
		case 1:
			text += " = <!ERROR>\n"
		default:
			text += " = <!UNDEFINED>\n"
		}
		ws = append(ws, w)
	}
	f, err := readCases(scalarCases + text)
	sym.Assert(err == nil, "parses")
	sym.Assert(f.Header.Version == "v1.0" && f.Header.FuncType == parser.ScalarFuncType && f.Header.IncludedURI == "/extensions/functions_x.yaml", "has the header stated")
	sym.Assert(len(f.TestCases) == len(ws), "has the cases stated")
	for i, w := range ws {
		c := f.TestCases[i]
		sym.Assert(c.FuncName == w.name && c.GroupDesc == w.group, "is of the group and function stated")
		switch w.outcome {
		case 0:
			l, ok := c.Result.(*parser.CaseLiteral)
			sym.Assert(ok && sym.DeepEqual(l.Value, literal.NewInt64(w.val, false)), "has the result stated")
		case 1:
			sym.Assert(c.Result == parser.NonValueError, "must fail")
		default:
			sym.Assert(c.Result == parser.NonValueUndefined, "may give anything")
		}
		sym.MapOrder(true)
		o1, s1 := c.GetFunctionOptions(), c.String()
		o2, s2 := c.GetFunctionOptions(), c.String()
		sym.MapOrder(false)
		sym.Assert(len(o1) == len(w.opts), "has the options stated")
		for _, o := range o1 {
			sym.Assert(len(o.Preference) == 1 && o.Preference[0] == w.opts[o.Name], "has the option stated")
		}
		sym.Assert(sym.DeepEqual(o1, o2) && s1 == s2, "reads the same again")
		sym.Assert(len(o1) < 2 || o1[0].Name != o1[1].Name, "has each option once")
	}
	sym.Reach("read")
}

// placed writes a value at one of the places a value can have, in parentheses
// or brackets where it is declared for all.
func placed(place int, value, typ string) string {
	switch place {
	case 0:
		return scalarCases + "fn(" + value + "::" + typ + ") = 1::i8"
	case 1:
		return scalarCases + "fn(1::i8) = " + value + "::" + typ
	case 2:
		return scalarCases + "fn([" + value + "]::list<" + typ + ">) = 1::i8"
	case 3:
		return aggCases + "fn((" + value + ")::" + typ + ") = 1::i8"
	case 4:
		return aggCases + "((" + value + ")) fn(col0::" + typ + ") = 1::i8"
	}
	return aggCases + "DEFINE tab(" + typ + ") = ((" + value + "))\nfn(tab.col0) = 1::i8"
}

// valueAt is the value found at the place.
func valueAt(f *parser.TestFile, place int) types.FuncArg {
	if len(f.TestCases) != 1 {
		return nil
	}
	c := f.TestCases[0]
	switch place {
	case 0:
		return c.Args[0].Value
	case 1:
		return c.Result.(*parser.CaseLiteral).Value
	case 2:
		if l, ok := c.Args[0].Value.(*expr.ListLiteral); ok && len(l.Value) == 1 {
			return l.Value[0]
		}
		return nil
	}
	cols, err := c.GetAggregateColumnsData()
	if err != nil || len(cols) != 1 || len(cols[0]) != 1 {
		return nil
	}
	return cols[0][0]
}

func L03Fits() {
	k := sym.Choice("width", 4)
	place := sym.Choice("place", 6)
	bits := 8 << k
	var s string
	var v int64
	var fits bool
	if k < 3 {
		s, v = numText("n", []int{3, 5, 10}[k])
		fits = sym.And(v >= -1<<(bits-1), v < 1<<(bits-1))
	} else {
		var rest int64
		s, rest = digits("n", 18)
		s = "9" + s
		fits = rest <= 223372036854775807
		v = 9000000000000000000 + rest
		if sym.Choice("neg", 2) == 1 {
			s = "-" + s
			fits = rest <= 223372036854775808
			v = -9000000000000000000 - rest
		}
	}
	f, err := readCases(placed(place, s, caseInts[k]))
	sym.Assert((err == nil) == fits, "accepted just when it fits")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	l, _ := intLit(k, v, false)
	sym.Assert(sym.DeepEqual(valueAt(f, place), l), "has the value stated")
	sym.Reach("accepted")
}

func L03Lengths() {
	place := sym.Choice("place", 6)
	if sym.Choice("parameter", 2) == 1 {
		s, v := digits("p", 9+sym.Choice("digits", 2))
		sym.Assume(s[0] != '0')
		typ := []string{"fchar", "vchar", "fbin"}[sym.Choice("kind", 3)]
		f, err := readCases(placed(place, "'x'", typ+"<"+s+">"))
		sym.Assert((err == nil) == int32Fits(v), "accepted just when the length fits")
		if err != nil {
			sym.Reach("rejected")
			return
		}
		l, ok := valueAt(f, place).(expr.Literal)
		sym.Assert(ok, "has a value")
		lt, ok := l.GetType().(interface{ GetLength() int32 })
		sym.Assert(ok && int64(lt.GetLength()) == v, "has the length stated")
		sym.Reach("accepted")
		return
	}
	size := sym.Choice("size", 4)
	s := letters("s", size)
	n, v := digits("n", 1)
	var typ string
	var want expr.Literal
	switch sym.Choice("kind", 3) {
	case 0:
		typ, want = "fchar", &expr.PrimitiveLiteral[types.FixedChar]{Value: types.FixedChar(s), Type: &types.FixedCharType{Length: int32(v), Nullability: types.NullabilityRequired}}
	case 1:
		typ, want = "varchar", &expr.ProtoLiteral{Value: s, Type: &types.VarCharType{Length: int32(v), Nullability: types.NullabilityRequired}}
	default:
		typ, want = "fbin", &expr.ByteSliceLiteral[types.FixedBinary]{Value: types.FixedBinary(s), Type: &types.FixedBinaryType{Length: int32(v), Nullability: types.NullabilityRequired}}
	}
	f, err := readCases(placed(place, "'"+s+"'", typ+"<"+n+">"))
	if size == 0 || v == 0 {
		return // no such value or type
	}
	sym.Assert((err == nil) == (int64(size) <= v), "accepted just when it fits")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.DeepEqual(valueAt(f, place), want), "has the value stated")
	sym.Reach("accepted")
}

var caseFunctions = func() string {
	s := "urn: extension:io.substrait:functions_x\naggregate_functions:\n  - name: fn\n    impls:\n"
	ts := []string{"i8", "string", "boolean"}
	s += "      - return: i64\n"
	for _, a := range ts {
		s += "      - args: [{value: " + a + "}]\n        return: i64\n"
		for _, b := range ts {
			s += "      - args: [{value: " + a + "}, {value: " + b + "}]\n        return: i64\n"
		}
	}
	return s
}()

var cellTypes = []string{"i8", "str", "bool"}

func cellType(k int, null bool) types.Type {
	_, n := withNull(null)
	switch k {
	case 0:
		return &types.Int8Type{Nullability: n}
	case 1:
		return &types.StringType{Nullability: n}
	}
	return &types.BooleanType{Nullability: n}
}

// L03Tables: an argument has the column that it names.
func L03Tables() {
	format := sym.Choice("format", 3)
	sym.Case([]string{"columns", "compact", "defined"}[format])
	most := 2
	if sym.Deep() {
		most = 3
	}
	nc := 1
	if format > 0 {
		nc = 1 + sym.Choice("columns", most)
	}
	nr := sym.Choice("rows", 3)
	type column struct {
		kind  int
		null  bool
		text  []string
		cells []expr.Literal
		raw   []expr.Literal
	}
	cols := make([]column, nc)
	for j := range cols {
		c := &cols[j]
		p := "c" + string(rune('0'+j))
		switch {
		case j == 0 || sym.Deep():
			c.kind = sym.Choice(p+".kind", 3)
			c.null = sym.Choice(p+".null", 2) == 1
		default:
			c.kind = (cols[0].kind + 1) % 3
			c.null = !cols[0].null
		}
		for i := range nr {
			q := p + "." + string(rune('0'+i))
			if c.null && i == 1 {
				c.text = append(c.text, "null")
				c.cells = append(c.cells, expr.NewNullLiteral(cellType(c.kind, true)))
				c.raw = append(c.raw, nil)
				continue
			}
			switch c.kind {
			case 0:
				s, v := digits(q+".n", 1)
				c.text = append(c.text, s)
				c.cells = append(c.cells, literal.NewInt8(int8(v), c.null))
				c.raw = append(c.raw, literal.NewString(s, false))
			case 1:
				s := letters(q+".s", 1)
				c.text = append(c.text, "'"+s+"'")
				c.cells = append(c.cells, literal.NewString(s, c.null))
				c.raw = append(c.raw, literal.NewString(s, false))
			default:
				b := i == 0
				c.text = append(c.text, fmt.Sprint(b))
				c.cells = append(c.cells, literal.NewBool(b, c.null))
				c.raw = append(c.raw, literal.NewBool(b, false))
			}
		}
	}
	rows := "("
	for i := range nr {
		if i > 0 {
			rows += ", "
		}
		rows += "("
		for j, c := range cols {
			if j > 0 {
				rows += ", "
			}
			rows += c.text[i]
		}
		rows += ")"
	}
	rows += ")"
	typ := func(c column) string {
		q, _ := withNull(c.null)
		return cellTypes[c.kind] + q
	}
	type argument struct {
		scalar bool
		col    int
	}
	var args []argument
	var valid = true
	call := "fn("
	if format == 0 {
		c := cols[0]
		rows = "("
		for i := range nr {
			if i > 0 {
				rows += ", "
			}
			rows += c.text[i]
		}
		call += rows + ")::" + typ(c)
		args = []argument{{false, 0}}
	} else {
		for i := range sym.Choice("args", 3) {
			p := "a" + string(rune('0'+i))
			if i > 0 {
				call += ", "
			}
			k := 0
			if i == 0 || sym.Deep() {
				k = sym.Choice(p+".of", nc+3)
			} else {
				k = sym.Choice(p+".of", nc+1)
			}
			switch {
			case k < nc && format == 1 && nr == 0: // which has no columns
				valid = false
				call += fmt.Sprintf("col%d::str", k)
			case k < nc:
				args = append(args, argument{false, k})
				if format == 1 {
					call += fmt.Sprintf("col%d::%s", k, typ(cols[k]))
				} else {
					call += fmt.Sprintf("tab.col%d", k)
				}
			case k == nc:
				args = append(args, argument{true, 0})
				call += "','::str"
			default:
				valid = false
				s := fmt.Sprint(nc)
				if k > nc+1 {
					d, _ := digits(p+".col", 10)
					sym.Assume(d[0] != '0')
					s = d
				}
				if format == 1 {
					call += "col" + s + "::str"
				} else {
					call += "tab.col" + s
				}
			}
		}
	}
	call += ") = 1::i64"
	text := aggCases
	switch format {
	case 0:
		text += call
	case 1:
		text += rows + " " + call
	default:
		text += "DEFINE tab("
		for j, c := range cols {
			if j > 0 {
				text += ", "
			}
			text += typ(c)
		}
		text += ") = " + rows + "\n" + call
	}
	f, err := readCases(text)
	sym.Assert((err == nil) == valid, "accepted just when the columns exist")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(f.TestCases) == 1 && f.TestCases[0].FuncType == parser.AggregateFuncType, "is an aggregate case")
	c := f.TestCases[0]
	data, err := c.GetAggregateColumnsData()
	if format == 1 && nr == 0 {
		sym.Assert(len(data) == 0, "has no columns")
		return
	}
	sym.Assert(err == nil && len(data) == nc, "has the columns stated")
	for j, col := range cols {
		used := format != 1
		for _, a := range args {
			used = used || !a.scalar && a.col == j
		}
		sym.Assert(len(data[j]) == nr, "has the rows stated")
		for i := range nr {
			want := col.cells[i]
			if !used {
				want = col.raw[i]
			}
			null, isNull := data[j][i].(*expr.NullLiteral)
			if col.text[i] == "null" {
				sym.Assert(isNull && (!used || sym.DeepEqual(null.Type, cellType(col.kind, true))), "has the null stated")
				continue
			}
			sym.Assert(sym.DeepEqual(data[j][i], want), "has the value stated")
		}
	}
	sym.Assert(len(c.AggregateArgs) == len(args), "has the arguments stated")
	ts := c.GetArgTypes()
	for i, a := range args {
		g := c.AggregateArgs[i]
		sym.Assert(g.IsScalar == a.scalar, "has columns and values as stated")
		if a.scalar {
			sameCase(g.Argument, literal.NewString(",", false), &types.StringType{Nullability: types.NullabilityRequired}, "the argument")
			continue
		}
		sym.Assert(int(g.ColumnIndex) == a.col, "is the column named")
		sym.Assert(sym.DeepEqual(ts[i], cellType(cols[a.col].kind, cols[a.col].null)), "is of the column's type")
	}
	coll := &extensions.Collection{}
	if err := coll.Load(&yamlFile{text: caseFunctions}); err != nil {
		sym.Assert(false, "the functions load")
		return
	}
	r := expr.NewExtensionRegistry(extensions.NewSet(), coll)
	var fr functions.FunctionRegistry
	inv, err := c.GetAggregateFunctionInvocation(&r, fr)
	sym.Assert(err == nil, "can be invoked")
	sym.Assert(inv.NArgs() == len(args), "is invoked with the arguments stated")
	for i, a := range args {
		if a.scalar {
			sym.Assert(sym.DeepEqual(inv.Arg(i), literal.NewString(",", false)), "is invoked with the value stated")
			continue
		}
		ref, ok := inv.Arg(i).(*expr.FieldReference)
		sym.Assert(ok, "is invoked with a column")
		seg, ok := ref.Reference.(*expr.StructFieldRef)
		sym.Assert(ok && int(seg.Field) == a.col && seg.Child == nil, "is invoked with the column named")
		sym.Assert(sym.DeepEqual(ref.GetType(), cellType(cols[a.col].kind, cols[a.col].null)), "is invoked with a column of its type")
	}
	sym.Reach("read")
}

// L03Kinds: a literal is rejected where another kind of type is declared.
func L03Kinds() {
	place := 2 + sym.Choice("place", 4)
	lits := []string{"1", "'a'", "true", "'2020-01-02'", "'00:00:01'", "'P1Y2M'", "'P1DT2H'"}
	ts := []string{"i32", "str", "bool", "date", "time", "iyear", "iday"}
	l, t := sym.Choice("literal", len(lits)), sym.Choice("type", len(ts))
	if l == 0 && t == 1 {
		return // numbers are texts until their column's type is known
	}
	sym.Case(lits[l] + " as " + ts[t])
	f, err := readCases(placed(place, lits[l], ts[t]))
	sym.Assert((err == nil) == (l == t), "accepted just when it is of the type")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	v, ok := valueAt(f, place).(expr.Literal)
	sym.Assert(ok && v.GetType().ShortString() == []string{"i32", "str", "bool", "date", "time", "iyear", "iday"}[t], "is of the type")
	sym.Reach("accepted")
}

func L03Malformed() {
	n, _ := numText("n", 1)
	w := word("w", 1)
	all := []string{
		"", scalarCases, aggCases, scalarCases + w, scalarCases + w + "()", scalarCases + w + "(" + n + ")", scalarCases + w + "(" + n + "::i8)", scalarCases + w + "(" + n + "::i8) =",
		scalarCases + w + "(" + n + "::i8) = " + n, scalarCases + w + "(" + n + "::" + w + ") = 1::i8", scalarCases + w + "('x'::i8) = 1::i8", scalarCases + w + "(" + n + "::str) = 1::i8",
		scalarCases + w + "(null::i8) = 1::i8", scalarCases + w + "(1::i8) = null::i8", scalarCases + w + "(1::i8) [" + w + "] = 1::i8", scalarCases + w + "(1::i8) [" + w + ":] = 1::i8",
		scalarCases + w + "(1::i8) = <!" + w + ">", scalarCases + w + "((1)::i8) = 1::i8", aggCases + w + "(1::i8) = 1::i8", scalarCases + w + "(1.5::i8) = 1::i8",
		scalarCases + w + "(1::vchar<1>) = 1::i8", scalarCases + w + "('x'::vchar) = 1::i8", scalarCases + w + "('x'::vchar<" + w + ">) = 1::i8", scalarCases + w + "(1::dec<5>) = 1::i8",
		aggCases + "((1, 2), (" + n + ")) fn(col0::i8) = 1::i8", aggCases + "((1), (2, " + n + ")) fn(col0::i8) = 1::i8", aggCases + "((1), ()) fn(col0::i8) = 1::i8",
		aggCases + "DEFINE tab(i8, i8) = ((1, 2), (" + n + "))\nfn(tab.col0) = 1::i8", aggCases + "DEFINE tab(i8) = ((1, " + n + "))\nfn(tab.col0) = 1::i8", aggCases + "DEFINE tab(i8) = ((1))\nfn(" + w + ".col0) = 1::i8",
		aggCases + "((1)) fn(col" + w + "::i8) = 1::i8", aggCases + "((" + w + ")) fn(col0::i8) = 1::i8", scalarCases + "fn(1::i8) = 1::i8 ;", scalarCases + "fn(1::i8 \\ ) = 1::i8",
	}
	k := sym.Choice("text", len(all))
	sym.Case(fmt.Sprintf("text %d", k))
	f, err := readCases(all[k])
	sym.Assert(err != nil, "is an error")
	sym.Assert(f == nil, "has no cases")
	sym.Reach("rejected")
}

// L03Places: a value is the same in a list, a column and the cell of a table.
func L03Places() {
	k := sym.Choice("kind", caseArgs)
	if k == 6 {
		return // enum values have no type to declare
	}
	place := 2 + sym.Choice("place", 4)
	if place > 2 && (k == 16 || k == 17 || k == 26 || k == 27) {
		return // columns have no lists
	}
	sym.Case(fmt.Sprintf("kind %d at %d", k, place))
	text, v, t := caseArg("a", k)
	i := 0
	for j := range len(text) - 1 {
		if text[j] == ':' && text[j+1] == ':' {
			i = j
		}
	}
	f, err := readCases(placed(place, text[:i], text[i+2:]))
	sym.Assert(err == nil, "parses")
	l, ok := valueAt(f, place).(expr.Literal)
	sym.Assert(ok, "has a value")
	// times of a precision are kept as times in microseconds
	micros := func(pr types.TimePrecision) int64 {
		return v.(*expr.ProtoLiteral).Value.(int64) * 1000000 / pow10[pr]
	}
	of := t
	if _, null := v.(*expr.NullLiteral); null {
		of = nil
	}
	switch pt := of.(type) {
	case *types.PrecisionTimeType:
		t = &types.TimeType{Nullability: pt.Nullability}
		v = &expr.PrimitiveLiteral[types.Time]{Value: types.Time(micros(pt.Precision)), Type: t}
	case *types.PrecisionTimestampType:
		t = &types.TimestampType{Nullability: pt.Nullability}
		v = &expr.PrimitiveLiteral[types.Timestamp]{Value: types.Timestamp(micros(pt.Precision)), Type: t}
	case *types.PrecisionTimestampTzType:
		t = &types.TimestampTzType{Nullability: pt.Nullability}
		v = &expr.PrimitiveLiteral[types.TimestampTz]{Value: types.TimestampTz(micros(pt.Precision)), Type: t}
	}
	sym.Assert(l.GetType().Equals(t), "is of the type stated")
	sym.Assert(sym.DeepEqual(l, v), "has the value stated")
	sym.Reach("read")
}
