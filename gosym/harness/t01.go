package harness

import (
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("T01",
	H{F: T01RoundTrip, Bounds: "every type kind; nested kinds to depth 1 (2 when deep) with every kind in each child position; all nullabilities; all 32-bit variation references, lengths, precisions, scales, type references; precisions 0..9; up to 2 UDT parameters, strings up to 2 bytes",
		Reach: []string{"leaf", "nested"}},
	H{F: T01PrecisionRejected, Bounds: "ProtoToTimePrecision on every int32", Reach: []string{"ok", "rejected"}},
	H{F: T01IntervalDayDefault, Bounds: "interval_day without precision, every nullability and variation", Reach: []string{"default"}},
)

// T01RoundTrip: encode equals the specified message; decode gives back the type; and
// both directions compose to the identity.
func T01RoundTrip() {
	d := 1
	if sym.Deep() {
		d = 2
	}
	x := anyType("t", d)
	sym.Case(x.Name)
	p := types.TypeToProto(x.T)
	sym.Assert(sym.ProtoEqual(p, x.P), "encoding is the message the type stands for")
	t := types.TypeFromProto(p)
	sym.Assert(t.Equals(x.T), "decode(encode(t)) equals t")
	sym.Assert(x.T.Equals(t), "t equals decode(encode(t))")
	sym.Assert(t.GetNullability() == x.T.GetNullability(), "nullability kept")
	sym.Assert(t.GetTypeVariationReference() == x.T.GetTypeVariationReference(), "variation reference kept")
	sym.Assert(t.ShortString() == x.T.ShortString(), "kind kept")
	q := types.TypeToProto(t)
	sym.Assert(sym.ProtoEqual(q, x.P), "encode(decode(m)) equals m")
	u := types.TypeFromProto(x.P)
	sym.Assert(sym.DeepEqual(u, t), "decoding is a function of the message")
	if a, ok := x.T.(interface{ ToProto() *pb.Type }); ok {
		sym.Assert(sym.ProtoEqual(a.ToProto(), x.P), "the type encodes itself as that message")
	}
	if a, ok := x.T.(types.FuncArg); ok {
		sym.Assert(sym.ProtoEqual(a.ToProtoFuncArg(), &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Type{Type: x.P}}), "a type argument holds the message")
	}
	switch x.Name {
	case "struct", "list", "map", "func", "udt":
		sym.Reach("nested")
	default:
		sym.Reach("leaf")
	}
}

func T01PrecisionRejected() {
	v := sym.Int32("v")
	p, err := types.ProtoToTimePrecision(v)
	ok := v >= 0 && v <= 9
	sym.Assert((err == nil) == ok, "accepted exactly for 0..9")
	if err == nil {
		sym.Assert(p.ToProtoVal() == v, "value kept")
		sym.Reach("ok")
	} else {
		sym.Reach("rejected")
	}
}

func T01IntervalDayDefault() {
	n, v := nul("n"), sym.Uint32("v")
	m := &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Nullability: pb.Type_Nullability(n), TypeVariationReference: v}}}
	t, ok := types.TypeFromProto(m).(*types.IntervalDayType)
	sym.Assert(ok, "kind")
	sym.Assert(t.Precision == types.PrecisionMicroSeconds, "absent precision reads as microseconds")
	sym.Assert(t.Nullability == n && t.TypeVariationRef == v, "other fields kept")
	sym.Reach("default")
}
