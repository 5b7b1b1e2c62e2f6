package harness

import (
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("T04",
	H{F: T04NameCount, Bounds: "1..2 columns; every nesting of struct, list, map, function and leaf types to depth 2 (3 when deep); 0..count+2 names, in a decoded plan and through the builder", Reach: []string{"accepted", "rejected"}},
	H{F: T04NamedStruct, Bounds: "named structs with 0..2 columns of every kind (depth 1), every nullability and variation", Reach: []string{"done"}},
	H{F: T04Concat, Bounds: "record types with 0..2 columns each, every spare capacity 0..2 of the left, two concatenations with the same left and one nested", Reach: []string{"done"}},
)

// shape forks over nestings and returns the type and its depth-first name count.
func shape(name string, depth int) (*pb.Type, int) {
	n := 1
	if depth > 0 {
		n = 6
	}
	i32 := func() *pb.Type {
		return &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: pb.Type_NULLABILITY_REQUIRED}}}
	}
	switch sym.Choice(name, n) {
	case 1: // struct of one
		c, k := shape(name+".0", depth-1)
		return &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: []*pb.Type{c}}}}, k + 1
	case 2: // struct of two
		c, k := shape(name+".0", depth-1)
		return &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: []*pb.Type{c, i32()}}}}, k + 2
	case 3:
		c, k := shape(name+".elem", depth-1)
		return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: c}}}, k
	case 4:
		c, k := shape(name+".key", depth-1)
		d, l := shape(name+".val", depth-1)
		return &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: c, Value: d}}}, k + l
	case 5:
		return &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: []*pb.Type{}}}}, 0
	}
	return i32(), 0
}

func names(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = "n" + string(rune('a'+i))
	}
	return r
}

func T04NameCount() {
	d := 2
	if sym.Deep() {
		d = 3
	}
	c, k := shape("t", d)
	cols := []*pb.Type{c}
	k++
	if sym.Choice("two", 2) == 1 {
		cols = append([]*pb.Type{{Kind: &pb.Type_I32_{I32: &pb.Type_I32{}}}}, c)
		k++
	}
	st := &pb.Type_Struct{Types: cols, Nullability: pb.Type_NULLABILITY_REQUIRED}
	schema := &pb.NamedStruct{Names: names(k), Struct: st}
	n := sym.Choice("names", 4) + k - 2
	if n < 0 {
		n = 0
	}
	var err error
	if sym.Choice("via", 2) == 0 {
		m := &pb.Plan{Relations: []*pb.PlanRel{{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Names: names(n), Input: &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{
			Common:     &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}},
			BaseSchema: schema,
			ReadType:   &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"t"}}}}}}}}}}}
		_, err = plan.FromProto(m, &extensions.Collection{})
	} else {
		b := plan.NewBuilder(&extensions.Collection{})
		_, err = b.Plan(b.NamedScan([]string{"t"}, types.NewNamedStructFromProto(schema)), names(n))
	}
	sym.Assert((err == nil) == (n == k), "accepted exactly with one name per field counted depth first")
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	ns := types.NewNamedStructFromProto(schema)
	sym.Assert(ns.Struct.DepthFirstNameCount() == k, "depth-first name count")
	sym.Assert(!sym.Catch(func() { _ = ns.String() }), "a consistent schema prints")
}

func T04NamedStruct() {
	n := sym.Choice("cols", 3)
	var ts []*pb.Type
	for i := 0; i < n; i++ {
		if i == 0 {
			ts = append(ts, anyType("c", 1).P)
		} else {
			ts = append(ts, leafType("string", "d").P)
		}
	}
	m := &pb.NamedStruct{Names: names(n), Struct: &pb.Type_Struct{Types: ts, Nullability: pb.Type_Nullability(nul("n")), TypeVariationReference: sym.Uint32("v")}}
	s := types.NewNamedStructFromProto(m)
	sym.Assert(len(s.Struct.Types) == n, "every column")
	sym.Assert(sym.ProtoEqual(s.ToProto(), m), "encode(decode(m)) equals m")
	sym.Reach("done")
}

func T04Concat() {
	mk := func(name string, n, spare int) ([]types.Type, *types.RecordType) {
		s := make([]types.Type, n, n+spare)
		for i := range s {
			s[i] = &types.FixedCharType{Nullability: types.NullabilityRequired, Length: sym.Int32(name)}
		}
		return append([]types.Type(nil), s...), types.NewRecordTypeFromTypes(s)
	}
	ls, l := mk("l", sym.Choice("nl", 3), sym.Choice("spare", 3))
	as, a := mk("a", sym.Choice("na", 3), 0)
	bs, b := mk("b", sym.Choice("nb", 3), 1)
	want := func(r types.RecordType, label string, parts ...[]types.Type) {
		var w []types.Type
		for _, p := range parts {
			w = append(w, p...)
		}
		sym.Assert(int(r.FieldCount()) == len(w), label+": column count")
		sym.Assert(len(r.Types()) == len(w), label+": types")
		for i := range w {
			sym.Assert(r.GetFieldRef(int32(i)) == w[i], label+": columns in order")
			sym.Assert(r.Types()[i] == w[i], label+": types in order")
		}
	}
	r1 := l.Concat(*a)
	r2 := l.Concat(*b)
	r3 := r1.Concat(*b)
	r4 := r1.Concat(*a)
	want(r1, "first", ls, as)
	want(r2, "second", ls, bs)
	want(r3, "nested", ls, as, bs)
	want(r4, "nested again", ls, as, as)
	want(*l, "left", ls)
	want(*a, "right a", as)
	want(*b, "right b", bs)
	sym.Reach("done")
}
