package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

// tp is a type together with the protobuf message the specification assigns to it.
type tp struct {
	T    types.Type
	P    *pb.Type
	Name string // kind
}

// nul is any of the three nullabilities, symbolically.
func nul(name string) types.Nullability {
	n := sym.Int32(name)
	sym.Assume(sym.And(n >= 0, n <= 2))
	return types.Nullability(n)
}

// nul2 is NULLABLE or REQUIRED.
func nul2(name string) types.Nullability {
	n := sym.Int32(name)
	sym.Assume(sym.Or(n == 1, n == 2))
	return types.Nullability(n)
}

// prec is any of the ten time precisions, symbolically.
func prec(name string) types.TimePrecision {
	n := sym.Int32(name)
	sym.Assume(sym.And(n >= 0, n <= 9))
	return types.TimePrecision(n)
}

var leafKinds = []string{"bool", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "date", "time",
	"interval_year", "timestamp_tz", "uuid", "fixedchar", "varchar", "fixedbinary", "decimal",
	"precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day", "interval_compound"}

var nestKinds = []string{"struct", "list", "map", "func", "udt"}

// leafType makes the leaf type of the given kind with symbolic nullability,
// variation reference and parameters.
func leafType(kind, name string) tp {
	n, v := nul(name+".nul"), sym.Uint32(name+".var")
	return leafTypeWith(kind, name, n, v)
}

func leafTypeWith(kind, name string, n types.Nullability, v uint32) tp {
	pn := pb.Type_Nullability(n)
	var t types.Type
	var p *pb.Type
	switch kind {
	case "bool":
		t = &types.BooleanType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Bool{Bool: &pb.Type_Boolean{Nullability: pn, TypeVariationReference: v}}}
	case "i8":
		t = &types.Int8Type{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{Nullability: pn, TypeVariationReference: v}}}
	case "i16":
		t = &types.Int16Type{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_I16_{I16: &pb.Type_I16{Nullability: pn, TypeVariationReference: v}}}
	case "i32":
		t = &types.Int32Type{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: pn, TypeVariationReference: v}}}
	case "i64":
		t = &types.Int64Type{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: pn, TypeVariationReference: v}}}
	case "fp32":
		t = &types.Float32Type{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Fp32{Fp32: &pb.Type_FP32{Nullability: pn, TypeVariationReference: v}}}
	case "fp64":
		t = &types.Float64Type{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Fp64{Fp64: &pb.Type_FP64{Nullability: pn, TypeVariationReference: v}}}
	case "string":
		t = &types.StringType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: pn, TypeVariationReference: v}}}
	case "binary":
		t = &types.BinaryType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Binary_{Binary: &pb.Type_Binary{Nullability: pn, TypeVariationReference: v}}}
	case "timestamp":
		t = &types.TimestampType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Timestamp_{Timestamp: &pb.Type_Timestamp{Nullability: pn, TypeVariationReference: v}}}
	case "date":
		t = &types.DateType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Date_{Date: &pb.Type_Date{Nullability: pn, TypeVariationReference: v}}}
	case "time":
		t = &types.TimeType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Time_{Time: &pb.Type_Time{Nullability: pn, TypeVariationReference: v}}}
	case "interval_year":
		t = &types.IntervalYearType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_IntervalYear_{IntervalYear: &pb.Type_IntervalYear{Nullability: pn, TypeVariationReference: v}}}
	case "timestamp_tz":
		t = &types.TimestampTzType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_TimestampTz{TimestampTz: &pb.Type_TimestampTZ{Nullability: pn, TypeVariationReference: v}}}
	case "uuid":
		t = &types.UUIDType{Nullability: n, TypeVariationRef: v}
		p = &pb.Type{Kind: &pb.Type_Uuid{Uuid: &pb.Type_UUID{Nullability: pn, TypeVariationReference: v}}}
	case "fixedchar":
		l := sym.Int32(name + ".len")
		t = &types.FixedCharType{Nullability: n, TypeVariationRef: v, Length: l}
		p = &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Length: l, Nullability: pn, TypeVariationReference: v}}}
	case "varchar":
		l := sym.Int32(name + ".len")
		t = &types.VarCharType{Nullability: n, TypeVariationRef: v, Length: l}
		p = &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Length: l, Nullability: pn, TypeVariationReference: v}}}
	case "fixedbinary":
		l := sym.Int32(name + ".len")
		t = &types.FixedBinaryType{Nullability: n, TypeVariationRef: v, Length: l}
		p = &pb.Type{Kind: &pb.Type_FixedBinary_{FixedBinary: &pb.Type_FixedBinary{Length: l, Nullability: pn, TypeVariationReference: v}}}
	case "decimal":
		pr, sc := sym.Int32(name+".p"), sym.Int32(name+".s")
		t = &types.DecimalType{Nullability: n, TypeVariationRef: v, Precision: pr, Scale: sc}
		p = &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Precision: pr, Scale: sc, Nullability: pn, TypeVariationReference: v}}}
	case "precision_time":
		pr := prec(name + ".prec")
		x := types.NewPrecisionTimeType(pr)
		x.Nullability, x.TypeVariationRef = n, v
		t = x
		p = &pb.Type{Kind: &pb.Type_PrecisionTime_{PrecisionTime: &pb.Type_PrecisionTime{Precision: int32(pr), Nullability: pn, TypeVariationReference: v}}}
	case "precision_timestamp":
		pr := prec(name + ".prec")
		x := types.NewPrecisionTimestampType(pr)
		x.Nullability, x.TypeVariationRef = n, v
		t = x
		p = &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Precision: int32(pr), Nullability: pn, TypeVariationReference: v}}}
	case "precision_timestamp_tz":
		pr := prec(name + ".prec")
		x := types.NewPrecisionTimestampTzType(pr)
		x.Nullability, x.TypeVariationRef = n, v
		t = x
		p = &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Precision: int32(pr), Nullability: pn, TypeVariationReference: v}}}
	case "interval_day":
		pr := prec(name + ".prec")
		t = &types.IntervalDayType{Precision: pr, Nullability: n, TypeVariationRef: v}
		pv := int32(pr)
		p = &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Precision: &pv, Nullability: pn, TypeVariationReference: v}}}
	case "interval_compound":
		pr := prec(name + ".prec")
		t = types.NewIntervalCompoundType().WithPrecision(pr).WithTypeVariationRef(v).WithNullability(n)
		p = &pb.Type{Kind: &pb.Type_IntervalCompound_{IntervalCompound: &pb.Type_IntervalCompound{Precision: int32(pr), Nullability: pn, TypeVariationReference: v}}}
	default:
		panic("leafType " + kind)
	}
	return tp{t, p, kind}
}

// anyType forks over every type kind; nested kinds hold children of anyType(depth-1)
// (any kind) and fixed simple siblings.
func anyType(name string, depth int) tp {
	nk := len(leafKinds)
	if depth > 0 {
		nk += len(nestKinds)
	}
	k := sym.Choice(name+".kind", nk)
	if k < len(leafKinds) {
		return leafType(leafKinds[k], name)
	}
	return nestType(nestKinds[k-len(leafKinds)], name, depth)
}

func nestType(kind, name string, depth int) tp {
	n := nul(name + ".nul")
	pn := pb.Type_Nullability(n)
	var r tp
	switch kind {
	case "struct":
		v := sym.Uint32(name + ".var")
		// 0..2 members, one of them of any kind
		m := sym.Choice(name+".members", 4)
		var ts []types.Type
		var ps []*pb.Type
		add := func(x tp) { ts, ps = append(ts, x.T), append(ps, x.P) }
		switch m {
		case 0:
			ts, ps = []types.Type{}, []*pb.Type{}
		case 1:
			add(anyType(name+".0", depth-1))
		case 2:
			add(leafType("i32", name+".0"))
			add(anyType(name+".1", depth-1))
		case 3:
			add(anyType(name+".0", depth-1))
			add(leafType("string", name+".1"))
		}
		r = tp{&types.StructType{Nullability: n, TypeVariationRef: v, Types: ts},
			&pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: ps, Nullability: pn, TypeVariationReference: v}}}, ""}
	case "list":
		v := sym.Uint32(name + ".var")
		e := anyType(name+".elem", depth-1)
		r = tp{&types.ListType{Nullability: n, TypeVariationRef: v, Type: e.T},
			&pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: e.P, Nullability: pn, TypeVariationReference: v}}}, ""}
	case "map":
		v := sym.Uint32(name + ".var")
		var a, b tp
		if sym.Choice(name+".which", 2) == 0 {
			a, b = anyType(name+".key", depth-1), leafType("string", name+".val")
		} else {
			a, b = leafType("i64", name+".key"), anyType(name+".val", depth-1)
		}
		r = tp{&types.MapType{Nullability: n, TypeVariationRef: v, Key: a.T, Value: b.T},
			&pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: a.P, Value: b.P, Nullability: pn, TypeVariationReference: v}}}, ""}
	case "func":
		var ts []types.Type
		var ps []*pb.Type
		var ret tp
		if sym.Choice(name+".which", 2) == 0 {
			x := anyType(name+".param", depth-1)
			y := leafType("i8", name+".param2")
			ts, ps = []types.Type{x.T, y.T}, []*pb.Type{x.P, y.P}
			ret = leafType("bool", name+".ret")
		} else {
			x := leafType("i16", name+".param")
			ts, ps = []types.Type{x.T}, []*pb.Type{x.P}
			ret = anyType(name+".ret", depth-1)
		}
		r = tp{&types.FuncType{Nullability: n, ParameterTypes: ts, ReturnType: ret.T},
			&pb.Type{Kind: &pb.Type_Func_{Func: &pb.Type_Func{ParameterTypes: ps, ReturnType: ret.P, Nullability: pn}}}, ""}
	case "udt":
		v := sym.Uint32(name + ".var")
		ref := sym.Uint32(name + ".ref")
		np := sym.Choice(name+".params", 3)
		ts := make([]types.TypeParam, np)
		ps := make([]*pb.Type_Parameter, np)
		for i := range ts {
			if i == 1 {
				x := sym.Int64(name + ".intparam")
				ts[i], ps[i] = types.IntegerParameter(x), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: x}}
				continue
			}
			ts[i], ps[i] = udtParam(name+".p"+strconv.Itoa(i), depth)
		}
		r = tp{&types.UserDefinedType{Nullability: n, TypeVariationRef: v, TypeReference: ref, TypeParameters: ts},
			&pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{TypeReference: ref, TypeParameters: ps, Nullability: pn, TypeVariationReference: v}}}, ""}
	}
	r.Name = kind
	return r
}

func udtParam(name string, depth int) (types.TypeParam, *pb.Type_Parameter) {
	np := 6
	if depth <= 0 {
		np = 5
	}
	switch sym.Choice(name, np) {
	case 0:
		return types.NullParameter{}, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Null{}}
	case 1:
		b := sym.Bool(name + ".b")
		return types.BooleanParameter(b), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Boolean{Boolean: b}}
	case 2:
		i := sym.Int64(name + ".i")
		return types.IntegerParameter(i), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: i}}
	case 3:
		s := sym.String(name+".enum", 0, 2)
		return types.EnumParameter(s), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Enum{Enum: s}}
	case 4:
		s := sym.String(name+".str", 0, 2)
		return types.StringParameter(s), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_String_{String_: s}}
	}
	x := anyType(name+".t", depth-1)
	return &types.DataTypeParameter{Type: x.T}, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: x.P}}
}

var allKinds = append(append([]string{}, leafKinds...), nestKinds...)

// simpleType is a type of the given kind with plain i32 children.
func simpleType(kind, name string) tp {
	n := nul(name + ".nul")
	pn := pb.Type_Nullability(n)
	i32 := leafTypeWith("i32", name, types.NullabilityRequired, 0)
	switch kind {
	case "struct":
		v := sym.Uint32(name + ".var")
		return tp{&types.StructType{Nullability: n, TypeVariationRef: v, Types: []types.Type{i32.T}},
			&pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: []*pb.Type{i32.P}, Nullability: pn, TypeVariationReference: v}}}, kind}
	case "list":
		v := sym.Uint32(name + ".var")
		return tp{&types.ListType{Nullability: n, TypeVariationRef: v, Type: i32.T},
			&pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: i32.P, Nullability: pn, TypeVariationReference: v}}}, kind}
	case "map":
		v := sym.Uint32(name + ".var")
		return tp{&types.MapType{Nullability: n, TypeVariationRef: v, Key: i32.T, Value: i32.T},
			&pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: i32.P, Value: i32.P, Nullability: pn, TypeVariationReference: v}}}, kind}
	case "func":
		return tp{&types.FuncType{Nullability: n, ParameterTypes: []types.Type{i32.T}, ReturnType: i32.T},
			&pb.Type{Kind: &pb.Type_Func_{Func: &pb.Type_Func{ParameterTypes: []*pb.Type{i32.P}, ReturnType: i32.P, Nullability: pn}}}, kind}
	case "udt":
		v, r := sym.Uint32(name+".var"), sym.Uint32(name+".ref")
		return tp{&types.UserDefinedType{Nullability: n, TypeVariationRef: v, TypeReference: r, TypeParameters: []types.TypeParam{}},
			&pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{TypeReference: r, Nullability: pn, TypeVariationReference: v}}}, kind}
	}
	return leafTypeWith(kind, name, n, sym.Uint32(name+".var"))
}

// pairType makes two types: of two different kinds, or of one kind with
// independent fields and paired children.
func pairType(name string, depth int) (tp, tp) {
	nk := len(leafKinds)
	if depth > 0 {
		nk = len(allKinds)
	}
	k := sym.Choice(name+".kind", nk)
	if sym.Choice(name+".differ", 2) == 1 {
		o := sym.Choice(name+".other", nk-1)
		if o >= k {
			o++
		}
		return simpleType(allKinds[k], name+".a"), simpleType(allKinds[o], name+".b")
	}
	kind := allKinds[k]
	if k < len(leafKinds) {
		return leafType(kind, name+".a"), leafType(kind, name+".b")
	}
	na, nb := nul(name+".a.nul"), nul(name+".b.nul")
	pa, pbn := pb.Type_Nullability(na), pb.Type_Nullability(nb)
	var va, vb uint32
	if kind != "func" {
		va, vb = sym.Uint32(name+".a.var"), sym.Uint32(name+".b.var")
	}
	switch kind {
	case "struct", "func":
		// lists of 0..2 children with one pair differing
		la, lb := sym.Choice(name+".a.n", 3), sym.Choice(name+".b.n", 3)
		ta, tb := []types.Type{}, []types.Type{}
		pta, ptb := []*pb.Type{}, []*pb.Type{}
		pos := 0
		if la == 2 && lb == 2 {
			pos = sym.Choice(name+".pos", 2)
		}
		for i := 0; i < la || i < lb; i++ {
			var x, y tp
			if i == pos && depth > 0 && la == lb {
				x, y = pairType(name+"."+strconv.Itoa(i), depth-1)
			} else {
				x, y = leafType("i32", name+".a."+strconv.Itoa(i)), leafType("i32", name+".b."+strconv.Itoa(i))
			}
			if i < la {
				ta, pta = append(ta, x.T), append(pta, x.P)
			}
			if i < lb {
				tb, ptb = append(tb, y.T), append(ptb, y.P)
			}
		}
		if kind == "struct" {
			return tp{&types.StructType{Nullability: na, TypeVariationRef: va, Types: ta},
					&pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: pta, Nullability: pa, TypeVariationReference: va}}}, kind},
				tp{&types.StructType{Nullability: nb, TypeVariationRef: vb, Types: tb},
					&pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: ptb, Nullability: pbn, TypeVariationReference: vb}}}, kind}
		}
		ra, rb := leafType("i64", name+".a.ret"), leafType("i64", name+".b.ret")
		if la == 0 && lb == 0 && depth > 0 {
			ra, rb = pairType(name+".ret", depth-1)
		}
		return tp{&types.FuncType{Nullability: na, ParameterTypes: ta, ReturnType: ra.T},
				&pb.Type{Kind: &pb.Type_Func_{Func: &pb.Type_Func{ParameterTypes: pta, ReturnType: ra.P, Nullability: pa}}}, kind},
			tp{&types.FuncType{Nullability: nb, ParameterTypes: tb, ReturnType: rb.T},
				&pb.Type{Kind: &pb.Type_Func_{Func: &pb.Type_Func{ParameterTypes: ptb, ReturnType: rb.P, Nullability: pbn}}}, kind}
	case "list":
		x, y := pairType(name+".elem", depth-1)
		return tp{&types.ListType{Nullability: na, TypeVariationRef: va, Type: x.T},
				&pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: x.P, Nullability: pa, TypeVariationReference: va}}}, kind},
			tp{&types.ListType{Nullability: nb, TypeVariationRef: vb, Type: y.T},
				&pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: y.P, Nullability: pbn, TypeVariationReference: vb}}}, kind}
	case "map":
		var ka, kb, wa, wb tp
		if sym.Choice(name+".which", 2) == 0 {
			ka, kb = pairType(name+".key", depth-1)
			wa, wb = leafType("i32", name+".a.val"), leafType("i32", name+".b.val")
		} else {
			ka, kb = leafType("i32", name+".a.key"), leafType("i32", name+".b.key")
			wa, wb = pairType(name+".val", depth-1)
		}
		return tp{&types.MapType{Nullability: na, TypeVariationRef: va, Key: ka.T, Value: wa.T},
				&pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: ka.P, Value: wa.P, Nullability: pa, TypeVariationReference: va}}}, kind},
			tp{&types.MapType{Nullability: nb, TypeVariationRef: vb, Key: kb.T, Value: wb.T},
				&pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: kb.P, Value: wb.P, Nullability: pbn, TypeVariationReference: vb}}}, kind}
	}
	// udt
	refA, refB := sym.Uint32(name+".a.ref"), sym.Uint32(name+".b.ref")
	la, lb := sym.Choice(name+".a.n", 3), sym.Choice(name+".b.n", 3)
	ta, tb := []types.TypeParam{}, []types.TypeParam{}
	pta, ptb := []*pb.Type_Parameter{}, []*pb.Type_Parameter{}
	for i := 0; i < la || i < lb; i++ {
		var x, y types.TypeParam
		var px, py *pb.Type_Parameter
		if i == 0 && la == lb {
			if depth > 0 && sym.Choice(name+".typeparam", 2) == 1 {
				c, d := pairType(name+".p", depth-1)
				x, px = &types.DataTypeParameter{Type: c.T}, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: c.P}}
				y, py = &types.DataTypeParameter{Type: d.T}, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: d.P}}
			} else {
				x, px = udtParam(name+".a.p", 0)
				y, py = udtParam(name+".b.p", 0)
			}
		} else {
			i1, i2 := sym.Int64(name+".a.int"), sym.Int64(name+".b.int")
			x, px = types.IntegerParameter(i1), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: i1}}
			y, py = types.IntegerParameter(i2), &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: i2}}
		}
		if i < la {
			ta, pta = append(ta, x), append(pta, px)
		}
		if i < lb {
			tb, ptb = append(tb, y), append(ptb, py)
		}
	}
	return tp{&types.UserDefinedType{Nullability: na, TypeVariationRef: va, TypeReference: refA, TypeParameters: ta},
			&pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{TypeReference: refA, TypeParameters: pta, Nullability: pa, TypeVariationReference: va}}}, kind},
		tp{&types.UserDefinedType{Nullability: nb, TypeVariationRef: vb, TypeReference: refB, TypeParameters: tb},
			&pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{TypeReference: refB, TypeParameters: ptb, Nullability: pbn, TypeVariationReference: vb}}}, kind}
}
