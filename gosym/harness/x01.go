package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("X01",
	H{F: X01RoundTrip, Bounds: "every literal kind; nested kinds to depth 1 (2 when deep) with every kind in each child position; nullable and required; every variation reference, precision, length, scale and value of the kind's width (non-NaN floats; strings and byte strings up to 3 bytes)",
		Reach: []string{"leaf", "nested"}},
	H{F: X01Built, Bounds: "literals made by NewLiteral and the New* constructors of every kind, every value (strings up to 3 bytes), both nullabilities", Reach: []string{"built"}},
	H{F: X01CompoundParts, Bounds: "interval compound messages with each part present or absent, deprecated microseconds included, every value", Reach: []string{"decoded", "rejected"}},
)

func X01RoundTrip() {
	d := 1
	if sym.Deep() {
		d = 2
	}
	x := anyLit("l", d)
	sym.Case(x.Kind)
	p := x.L.ToProtoLiteral()
	sym.Assert(sym.ProtoEqual(p, x.P), "encoding is the message the literal stands for")
	sym.Assert(sym.ProtoEqual(x.L.ToProto(), &pb.Expression{RexType: &pb.Expression_Literal_{Literal: x.P}}), "expression encoding holds the literal")
	sym.Assert(x.L.GetType().Equals(x.T), "literal has its kind's type")
	l := expr.LiteralFromProto(p)
	sym.Assert(l != nil, "decodes")
	sym.Assert(l.Equals(x.L), "decode(encode(l)) equals l")
	sym.Assert(x.L.Equals(l), "l equals decode(encode(l))")
	sym.Assert(sym.DeepEqual(l.GetType(), x.L.GetType()), "type kept")
	sym.Assert(l.GetType().GetNullability() == x.T.GetNullability(), "nullability kept")
	sym.Assert(l.GetType().GetTypeVariationReference() == x.T.GetTypeVariationReference(), "variation reference kept")
	sym.Assert(sym.ProtoEqual(l.ToProtoLiteral(), x.P), "encode(decode(m)) equals m")
	m := expr.LiteralFromProto(x.P)
	sym.Assert(m.Equals(l), "decoding is a function of the message")
	switch x.Kind {
	case "struct", "list", "map":
		sym.Reach("nested")
	default:
		sym.Reach("leaf")
	}
}

// builtLit makes a literal with the public constructors.
func builtLit(kind string) (expr.Literal, error) {
	nullable := sym.Bool("nullable")
	switch kind {
	case "bool":
		return expr.NewLiteral(sym.Bool("v"), nullable)
	case "i8":
		return expr.NewLiteral(sym.Int8("v"), nullable)
	case "i16":
		return expr.NewLiteral(sym.Int16("v"), nullable)
	case "i32":
		return expr.NewLiteral(sym.Int32("v"), nullable)
	case "i64":
		return expr.NewLiteral(sym.Int64("v"), nullable)
	case "fp32":
		x := sym.Float32("v")
		sym.Assume(x == x)
		return expr.NewLiteral(x, nullable)
	case "fp64":
		x := sym.Float64("v")
		sym.Assume(x == x)
		return expr.NewLiteral(x, nullable)
	case "string":
		return expr.NewLiteral(sym.String("v", 0, 3), nullable)
	case "binary":
		return expr.NewLiteral(sym.Bytes("v", 0, 3), nullable)
	case "timestamp":
		return expr.NewLiteral(types.Timestamp(sym.Int64("v")), nullable)
	case "timestamp_tz":
		return expr.NewLiteral(types.TimestampTz(sym.Int64("v")), nullable)
	case "date":
		return expr.NewLiteral(types.Date(sym.Int32("v")), nullable)
	case "time":
		return expr.NewLiteral(types.Time(sym.Int64("v")), nullable)
	case "fixedchar":
		return expr.NewLiteral(types.FixedChar(sym.String("v", 0, 3)), nullable)
	case "uuid":
		return expr.NewLiteral(types.UUID(sym.Bytes("v", 16, 16)), nullable)
	case "fixedbinary":
		return expr.NewLiteral(types.FixedBinary(sym.Bytes("v", 0, 3)), nullable)
	case "varchar":
		return expr.NewLiteral(&types.VarChar{Value: sym.String("v", 0, 3), Length: sym.Uint32("len")}, nullable)
	case "decimal":
		return expr.NewLiteral(&types.Decimal{Value: sym.Bytes("v", 16, 16), Precision: sym.Int32("p"), Scale: sym.Int32("s")}, nullable)
	case "interval_year":
		return expr.NewLiteral(&types.IntervalYearToMonth{Years: sym.Int32("y"), Months: sym.Int32("m")}, nullable)
	case "interval_day":
		return expr.NewLiteral(&types.IntervalDayToSecond{Days: sym.Int32("d"), Seconds: sym.Int32("s"), Subseconds: sym.Int64("u"),
			PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: sym.Int32("prec")}}, nullable)
	case "interval_day_us":
		return expr.NewLiteral(&types.IntervalDayToSecond{Days: sym.Int32("d"), Seconds: sym.Int32("s"),
			PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: sym.Int32("u")}}, nullable)
	case "precision_time":
		x := sym.Int64("v")
		sym.Assume(x >= 0)
		return expr.NewLiteral(&types.PrecisionTime{Value: x, Precision: sym.Int32("prec")}, nullable)
	case "precision_timestamp":
		return expr.NewLiteral(&types.PrecisionTimestamp{PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Value: sym.Int64("v"), Precision: sym.Int32("prec")}}, nullable)
	case "precision_timestamp_tz":
		return expr.NewLiteral(&types.PrecisionTimestampTz{PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Value: sym.Int64("v"), Precision: sym.Int32("prec")}}, nullable)
	case "udt":
		return expr.NewLiteral(&types.UserDefinedLiteral{
			Val:            &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{Fields: []*pb.Expression_Literal{{LiteralType: &pb.Expression_Literal_I32{I32: sym.Int32("v")}}}}},
			TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: sym.Uint32("ref")},
			TypeParameters: []*pb.Type_Parameter{{Parameter: &pb.Type_Parameter_Integer{Integer: sym.Int64("param")}}}}, nullable)
	case "struct":
		return expr.NewLiteral(expr.StructLiteralValue{litOf("i32", "a").L, litOf("string", "b").L}, nullable)
	case "list":
		n, v := nul2("nul"), sym.Uint32("var")
		return expr.NewLiteral(expr.ListLiteralValue{litWith("i32", "a", n, v).L, litWith("i32", "b", n, v).L}, nullable)
	case "map":
		n, v := nul2("nul"), sym.Uint32("var")
		return expr.NewLiteral(expr.MapLiteralValue{
			{Key: litWith("string", "a", n, v).L, Value: litWith("date", "b", n, v).L},
			{Key: litWith("string", "c", n, v).L, Value: litWith("date", "d", n, v).L}}, nullable)
	case "emptylist":
		return expr.NewEmptyListLiteral(leafType("decimal", "t").T, nullable), nil
	case "emptymap":
		return expr.NewEmptyMapLiteral(leafType("i8", "k").T, leafType("string", "t").T, nullable), nil
	case "null":
		return expr.NewNullLiteral(leafType(leafKinds[sym.Choice("null", len(leafKinds))], "t").T), nil
	case "interval_compound":
		return litOf("interval_compound", "l").L, nil
	}
	panic("builtLit " + kind)
}

var builtKinds = append(append([]string{}, litKinds...), litNests...)

func X01Built() {
	kind := builtKinds[sym.Choice("kind", len(builtKinds))]
	sym.Case(kind)
	l, err := builtLit(kind)
	if err != nil {
		sym.Assert(kind == "interval_day" || kind == "precision_time" || kind == "precision_timestamp" || kind == "precision_timestamp_tz", "only an invalid precision is rejected")
		return
	}
	p := l.ToProtoLiteral()
	if pl, ok := l.(*expr.ProtoLiteral); ok {
		if v, ok := pl.Value.(*types.IntervalYearToMonth); ok {
			w := p.GetIntervalYearToMonth()
			sym.Assert(sym.And(v.Years == w.GetYears(), v.Months == w.GetMonths()), "years and months encoded")
			sym.Assert(p.Nullable == (l.GetType().GetNullability() == types.NullabilityNullable), "nullability encoded")
		}
	}
	d := expr.LiteralFromProto(p)
	sym.Assert(d != nil, "decodes")
	sym.Assert(d.Equals(l), "decode(encode(l)) equals l")
	sym.Assert(l.Equals(d), "l equals decode(encode(l))")
	sym.Assert(d.GetType().Equals(l.GetType()), "type kept")
	sym.Assert(sym.ProtoEqual(d.ToProtoLiteral(), p), "encode(decode(m)) equals m")
	sym.Reach("built")
}

func X01CompoundParts() {
	c := &pb.Expression_Literal_IntervalCompound{}
	nullable, v := sym.Bool("nullable"), sym.Uint32("var")
	y, m, d, s, u := sym.Int32("y"), sym.Int32("m"), sym.Int32("d"), sym.Int32("s"), sym.Int64("u")
	hasY, dk := sym.Choice("years", 2) == 1, sym.Choice("days", 4)
	if hasY {
		c.IntervalYearToMonth = &pb.Expression_Literal_IntervalYearToMonth{Years: y, Months: m}
	} else {
		sym.Assume(sym.And(y == 0, m == 0))
	}
	var want expr.IntervalCompoundLiteral
	valid := true
	pr, us := sym.Int32("prec"), sym.Int32("us")
	switch dk {
	case 0:
		sym.Assume(sym.And(sym.And(d == 0, s == 0), u == 0))
	case 1:
		c.IntervalDayToSecond = &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: u,
			PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: pr}}
		want.SubSeconds, want.SubSecondPrecision = u, types.TimePrecision(pr)
		valid = sym.And(pr >= 0, pr <= 9)
	case 2:
		c.IntervalDayToSecond = &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: u,
			PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: us}}
		want.SubSeconds, want.SubSecondPrecision = int64(us), types.PrecisionMicroSeconds
		valid = u == 0
	case 3:
		c.IntervalDayToSecond = &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: u}
		valid = false
	}
	want.Years, want.Months, want.Days, want.Seconds = y, m, d, s
	want.Nullability, want.TypeVariationRef = types.NullabilityRequired, v
	if nullable {
		want.Nullability = types.NullabilityNullable
	}
	l := expr.LiteralFromProto(&pb.Expression_Literal{Nullable: nullable, TypeVariationReference: v,
		LiteralType: &pb.Expression_Literal_IntervalCompound_{IntervalCompound: c}})
	sym.Assert((l != nil) == valid, "accepted exactly when well-formed")
	if l == nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(l.Equals(want), "value of the message")
	back := expr.LiteralFromProto(l.ToProtoLiteral())
	sym.Assert(back != nil && back.Equals(l), "re-encoding keeps it")
	sym.Reach("decoded")
}
