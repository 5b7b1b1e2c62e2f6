package harness

import (
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

// lp is a literal together with the message and the type the specification
// assigns to it.
type lp struct {
	L    expr.Literal
	P    *pb.Expression_Literal
	T    types.Type
	Kind string
}

var litKinds = []string{"bool", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "date", "time",
	"interval_year", "interval_day", "interval_day_us", "timestamp_tz", "uuid", "fixedchar", "varchar", "fixedbinary", "decimal",
	"precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_compound", "udt", "null", "emptylist", "emptymap"}

var litNests = []string{"struct", "list", "map"}

// anyLit forks over every literal kind, the children of nested ones being of any kind.
func anyLit(name string, depth int) lp {
	nk := len(litKinds)
	if depth > 0 {
		nk += len(litNests)
	}
	k := sym.Choice(name+".kind", nk)
	if k < len(litKinds) {
		return litOf(litKinds[k], name)
	}
	return nestLit(litNests[k-len(litKinds)], name, depth)
}

// litOf is a literal of a kind without literal children, with symbolic nullability,
// variation and value.
func litOf(kind, name string) lp {
	return litWith(kind, name, nul2(name+".nul"), sym.Uint32(name+".var"))
}

func litWith(kind, name string, n types.Nullability, v uint32) lp {
	p := &pb.Expression_Literal{Nullable: n == types.NullabilityNullable, TypeVariationReference: v}
	var l expr.Literal
	var t types.Type
	switch kind {
	case "bool":
		x := sym.Bool(name + ".v")
		t = &types.BooleanType{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[bool]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_Boolean{Boolean: x}
	case "i8":
		x := sym.Int8(name + ".v")
		t = &types.Int8Type{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[int8]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_I8{I8: int32(x)}
	case "i16":
		x := sym.Int16(name + ".v")
		t = &types.Int16Type{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[int16]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_I16{I16: int32(x)}
	case "i32":
		x := sym.Int32(name + ".v")
		t = &types.Int32Type{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[int32]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_I32{I32: x}
	case "i64":
		x := sym.Int64(name + ".v")
		t = &types.Int64Type{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[int64]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_I64{I64: x}
	case "fp32":
		x := sym.Float32(name + ".v")
		sym.Assume(x == x)
		t = &types.Float32Type{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[float32]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_Fp32{Fp32: x}
	case "fp64":
		x := sym.Float64(name + ".v")
		sym.Assume(x == x)
		t = &types.Float64Type{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[float64]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_Fp64{Fp64: x}
	case "string":
		x := sym.String(name+".v", 0, 3)
		t = &types.StringType{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[string]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_String_{String_: x}
	case "binary":
		x := sym.Bytes(name+".v", 0, 3)
		t = &types.BinaryType{Nullability: n, TypeVariationRef: v}
		l = &expr.ByteSliceLiteral[[]byte]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_Binary{Binary: x}
	case "timestamp":
		x := sym.Int64(name + ".v")
		t = &types.TimestampType{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[types.Timestamp]{Value: types.Timestamp(x), Type: t}
		p.LiteralType = &pb.Expression_Literal_Timestamp{Timestamp: x}
	case "date":
		x := sym.Int32(name + ".v")
		t = &types.DateType{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[types.Date]{Value: types.Date(x), Type: t}
		p.LiteralType = &pb.Expression_Literal_Date{Date: x}
	case "time":
		x := sym.Int64(name + ".v")
		t = &types.TimeType{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[types.Time]{Value: types.Time(x), Type: t}
		p.LiteralType = &pb.Expression_Literal_Time{Time: x}
	case "timestamp_tz":
		x := sym.Int64(name + ".v")
		t = &types.TimestampTzType{Nullability: n, TypeVariationRef: v}
		l = &expr.PrimitiveLiteral[types.TimestampTz]{Value: types.TimestampTz(x), Type: t}
		p.LiteralType = &pb.Expression_Literal_TimestampTz{TimestampTz: x}
	case "interval_year":
		y, m := sym.Int32(name+".y"), sym.Int32(name+".m")
		t = types.NewIntervalYearToMonthType().WithTypeVariationRef(v).WithNullability(n)
		l = expr.IntervalYearToMonthLiteral{Years: y, Months: m, Nullability: n, TypeVariationRef: v}
		p.LiteralType = &pb.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: &pb.Expression_Literal_IntervalYearToMonth{Years: y, Months: m}}
	case "interval_day":
		d, s, u, pr := sym.Int32(name+".d"), sym.Int32(name+".s"), sym.Int64(name+".u"), prec(name+".prec")
		mk := func() *pb.Expression_Literal_IntervalDayToSecond {
			return &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: u,
				PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(pr)}}
		}
		t = &types.IntervalDayType{Nullability: n, TypeVariationRef: v, Precision: pr}
		l = &expr.ProtoLiteral{Value: mk(), Type: t}
		p.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: mk()}
	case "interval_day_us":
		d, s, u := sym.Int32(name+".d"), sym.Int32(name+".s"), sym.Int32(name+".u")
		mk := func() *pb.Expression_Literal_IntervalDayToSecond {
			return &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s,
				PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: u}}
		}
		t = &types.IntervalDayType{Nullability: n, TypeVariationRef: v, Precision: types.PrecisionMicroSeconds}
		l = &expr.ProtoLiteral{Value: mk(), Type: t}
		p.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: mk()}
	case "uuid":
		x := sym.Bytes(name+".v", 16, 16)
		t = &types.UUIDType{Nullability: n, TypeVariationRef: v}
		l = &expr.ByteSliceLiteral[types.UUID]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_Uuid{Uuid: x}
	case "fixedchar":
		x := sym.String(name+".v", 0, 3)
		t = &types.FixedCharType{Nullability: n, TypeVariationRef: v, Length: int32(len(x))}
		l = &expr.PrimitiveLiteral[types.FixedChar]{Value: types.FixedChar(x), Type: t}
		p.LiteralType = &pb.Expression_Literal_FixedChar{FixedChar: x}
	case "varchar":
		x, ln := sym.String(name+".v", 0, 3), sym.Int32(name+".len")
		if strings.Contains(name, sym.Plain) {
			ln = int32(len(x))
		}
		sym.Assume(ln >= int32(len(x)))
		t = &types.VarCharType{Nullability: n, TypeVariationRef: v, Length: ln}
		l = &expr.ProtoLiteral{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: x, Length: uint32(ln)}}
	case "fixedbinary":
		x := sym.Bytes(name+".v", 0, 3)
		t = &types.FixedBinaryType{Nullability: n, TypeVariationRef: v, Length: int32(len(x))}
		l = &expr.ByteSliceLiteral[types.FixedBinary]{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_FixedBinary{FixedBinary: x}
	case "decimal":
		x, pr, sc := sym.Bytes(name+".v", 16, 16), sym.Int32(name+".p"), sym.Int32(name+".s")
		t = &types.DecimalType{Nullability: n, TypeVariationRef: v, Precision: pr, Scale: sc}
		l = &expr.ProtoLiteral{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: x, Precision: pr, Scale: sc}}
	case "precision_time":
		x, pr := sym.Int64(name+".v"), prec(name+".prec")
		sym.Assume(x >= 0)
		t = &types.PrecisionTimeType{Nullability: n, TypeVariationRef: v, Precision: pr}
		l = &expr.ProtoLiteral{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Value: x, Precision: int32(pr)}}
	case "precision_timestamp":
		x, pr := sym.Int64(name+".v"), prec(name+".prec")
		t = &types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: pr}
		l = &expr.ProtoLiteral{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Value: x, Precision: int32(pr)}}
	case "precision_timestamp_tz":
		x, pr := sym.Int64(name+".v"), prec(name+".prec")
		t = &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: pr}}
		l = &expr.ProtoLiteral{Value: x, Type: t}
		p.LiteralType = &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Value: x, Precision: int32(pr)}}
	case "interval_compound":
		y, m := sym.Int32(name+".y"), sym.Int32(name+".m")
		d, s, u, pr := sym.Int32(name+".d"), sym.Int32(name+".s"), sym.Int64(name+".u"), prec(name+".prec")
		t = types.NewIntervalCompoundType().WithPrecision(pr).WithTypeVariationRef(v).WithNullability(n)
		l = expr.IntervalCompoundLiteral{Years: y, Months: m, Days: d, Seconds: s, SubSeconds: u, SubSecondPrecision: pr, Nullability: n, TypeVariationRef: v}
		c := &pb.Expression_Literal_IntervalCompound{}
		// a part that is zero may be left out; the canonical message leaves it out
		if sym.Or(y != 0, m != 0) {
			c.IntervalYearToMonth = &pb.Expression_Literal_IntervalYearToMonth{Years: y, Months: m}
		}
		if sym.Or(sym.Or(d != 0, s != 0), sym.Or(u != 0, pr != 0)) {
			c.IntervalDayToSecond = &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: u,
				PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(pr)}}
		}
		p.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: c}
	case "udt":
		ref, i, x := sym.Uint32(name+".ref"), sym.Int64(name+".param"), sym.Int32(name+".v")
		t = &types.UserDefinedType{Nullability: n, TypeVariationRef: v, TypeReference: ref, TypeParameters: []types.TypeParam{types.IntegerParameter(i)}}
		mk := func() *pb.Expression_Literal_UserDefined_Struct {
			return &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{Fields: []*pb.Expression_Literal{
				{LiteralType: &pb.Expression_Literal_I32{I32: x}}}}}
		}
		l = &expr.ProtoLiteral{Value: mk(), Type: t}
		p.LiteralType = &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{
			Val:            mk(),
			TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: ref},
			TypeParameters: []*pb.Type_Parameter{{Parameter: &pb.Type_Parameter_Integer{Integer: i}}},
		}}
	case "null":
		e := simpleTypeOf(leafKinds[sym.Choice(name+".null", len(leafKinds))], name+".null", types.NullabilityNullable, v)
		t = e.T
		l = &expr.NullLiteral{Type: e.T}
		p.Nullable = true
		p.LiteralType = &pb.Expression_Literal_Null{Null: e.P}
	case "emptylist":
		e := leafType("decimal", name+".elem")
		t = &types.ListType{Nullability: n, TypeVariationRef: v, Type: e.T}
		l = &expr.ListLiteral{Type: t}
		p.LiteralType = &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Type: e.P, Nullability: pb.Type_Nullability(n), TypeVariationReference: v}}
	case "emptymap":
		a, b := leafType("varchar", name+".key"), leafType("precision_time", name+".val")
		t = &types.MapType{Nullability: n, TypeVariationRef: v, Key: a.T, Value: b.T}
		l = &expr.MapLiteral{Type: t}
		p.LiteralType = &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: a.P, Value: b.P, Nullability: pb.Type_Nullability(n), TypeVariationReference: v}}
	default:
		panic("litWith " + kind)
	}
	return lp{l, p, t, kind}
}

func simpleTypeOf(kind, name string, n types.Nullability, v uint32) tp {
	return leafTypeWith(kind, name, n, v)
}

// nestLit is a non-empty struct, list or map literal (or an empty struct). The
// members of a list and of a map share a type.
func nestLit(kind, name string, depth int) lp {
	n, v := nul2(name+".nul"), sym.Uint32(name+".var")
	p := &pb.Expression_Literal{Nullable: n == types.NullabilityNullable, TypeVariationReference: v}
	switch kind {
	case "struct":
		var c []lp
		switch sym.Choice(name+".members", 4) {
		case 1:
			c = []lp{anyLit(name+".0", depth-1)}
		case 2:
			c = []lp{litOf("i32", name+".0"), anyLit(name+".1", depth-1)}
		case 3:
			c = []lp{anyLit(name+".0", depth-1), litOf("string", name+".1")}
		}
		vs, ts, ps := make(expr.StructLiteralValue, len(c)), make([]types.Type, len(c)), make([]*pb.Expression_Literal, len(c))
		for i, x := range c {
			vs[i], ts[i], ps[i] = x.L, x.T, x.P
		}
		t := &types.StructType{Nullability: n, TypeVariationRef: v, Types: ts}
		p.LiteralType = &pb.Expression_Literal_Struct_{Struct: &pb.Expression_Literal_Struct{Fields: ps}}
		return lp{&expr.StructLiteral{Value: vs, Type: t}, p, t, kind}
	case "list":
		var c []lp
		if sym.Choice(name+".members", 2) == 0 {
			c = []lp{anyLit(name+".0", depth-1)}
		} else {
			en, ev := nul2(name+".elem.nul"), sym.Uint32(name+".elem.var")
			c = []lp{litWith("i64", name+".0", en, ev), litWith("i64", name+".1", en, ev), litWith("i64", name+".2", en, ev)}
		}
		vs, ps := make(expr.ListLiteralValue, len(c)), make([]*pb.Expression_Literal, len(c))
		for i, x := range c {
			vs[i], ps[i] = x.L, x.P
		}
		t := &types.ListType{Nullability: n, TypeVariationRef: v, Type: c[0].T}
		p.LiteralType = &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: ps}}
		return lp{&expr.ListLiteral{Value: vs, Type: t}, p, t, kind}
	}
	var ks, xs []lp
	switch sym.Choice(name+".members", 3) {
	case 0:
		ks, xs = []lp{anyLit(name+".k0", depth-1)}, []lp{litOf("string", name+".v0")}
	case 1:
		ks, xs = []lp{litOf("i16", name+".k0")}, []lp{anyLit(name+".v0", depth-1)}
	case 2:
		en, ev := nul2(name+".elem.nul"), sym.Uint32(name+".elem.var")
		ks = []lp{litWith("string", name+".k0", en, ev), litWith("string", name+".k1", en, ev)}
		xs = []lp{litWith("date", name+".v0", en, ev), litWith("date", name+".v1", en, ev)}
	}
	vs, ps := make(expr.MapLiteralValue, len(ks)), make([]*pb.Expression_Literal_Map_KeyValue, len(ks))
	for i := range ks {
		vs[i].Key, vs[i].Value = ks[i].L, xs[i].L
		ps[i] = &pb.Expression_Literal_Map_KeyValue{Key: ks[i].P, Value: xs[i].P}
	}
	t := &types.MapType{Nullability: n, TypeVariationRef: v, Key: ks[0].T, Value: xs[0].T}
	p.LiteralType = &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: ps}}
	return lp{&expr.MapLiteral{Value: vs, Type: t}, p, t, kind}
}
