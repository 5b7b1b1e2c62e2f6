package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"

	"verif/gosym/sym"
)

var _ = reg("P07",
	H{F: P07Types, Bounds: "every type up to depth 2 with 0..2 members, one part of the message missing", Reach: []string{"decoded", "rejected"}},
	H{F: P07Schemas, Bounds: "schemas of 0..2 columns of every kind of type, one part missing", Reach: []string{"decoded", "rejected"}},
	H{F: P07Literals, Bounds: "every literal with 0..2 elements, one part missing", Reach: []string{"decoded", "rejected"}},
	H{F: P07Exprs, Bounds: "every expression of every shape over i32 literals, one part missing", Reach: append([]string{"decoded", "rejected"}, exprKinds...)},
	H{F: P07Parts, Bounds: "references, masks, aggregate functions, sorts, bounds, function arguments and rows decoded alone, one part missing", Reach: []string{"decoded", "rejected"}},
	H{F: P07Rels, Bounds: "every relation over scans with its parts present, one part missing", Reach: append([]string{"decoded", "rejected"}, relKinds...)},
	H{F: P07Subquery, Bounds: "every subquery over a scan, one part missing", Reach: []string{"decoded", "rejected"}},
	H{F: P07Precision, Bounds: "every 32-bit precision of every kind of type that has one", Reach: []string{"decoded", "rejected"}},
	H{F: P07Extended, Bounds: "extended expressions of a call and a measure, one part missing", Reach: []string{"decoded", "rejected"}},
	H{F: P07Plan, Bounds: "plans of two relations, extensions, a binding and an advanced extension, one part missing", Reach: []string{"decoded", "rejected"}},
)

// missing makes one part of a message missing.
func missing[M proto.Message](m M) M {
	m = proto.Clone(m).(M)
	n := sym.Parts(m)
	if n == 0 {
		return m
	}
	k := sym.Choice("missing", n)
	sym.Case("part " + strconv.Itoa(k))
	sym.Drop(m, k)
	if n = sym.Parts(m); sym.Deep() && n > 0 {
		sym.Drop(m, sym.Choice("missing too", n))
	}
	return m
}

func outcome(err error) bool {
	if err != nil {
		sym.Reach("rejected")
		return false
	}
	sym.Reach("decoded")
	return true
}

func useType(t types.Type) {
	sym.Assert(t != nil, "a type or an error")
	_ = t.String()
	_ = t.ShortString()
	types.TypeToProto(t)
	sym.Assert(t.Equals(t), "a type equals itself")
	t.WithNullability(types.NullabilityNullable)
}

func useExpr(e expr.Expression) {
	sym.Assert(e != nil, "an expression or an error")
	_ = e.String()
	e.ToProto()
	e.GetType()
	e.IsScalar()
	e.Visit(func(x expr.Expression) expr.Expression { return x })
	sym.Assert(e.Equals(e), "an expression equals itself")
}

func P07Types() {
	k := sym.Choice("kind", len(leafKinds)+len(nestKinds))
	var p *pb.Type
	if k < len(leafKinds) {
		sym.Case(leafKinds[k])
		p = leafType(leafKinds[k], "t=").P
	} else {
		sym.Case(nestKinds[k-len(leafKinds)])
		p = nestType(nestKinds[k-len(leafKinds)], "t=", 1).P
	}
	t, err := types.TypeFromProtoChecked(missing(p))
	if outcome(err) {
		useType(t)
	}
}

func P07Precision() {
	v := sym.Int32("precision")
	var p *pb.Type
	k := sym.Choice("kind", 5)
	switch k {
	case 0:
		p = &pb.Type{Kind: &pb.Type_PrecisionTime_{PrecisionTime: &pb.Type_PrecisionTime{Precision: v}}}
	case 1:
		p = &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Precision: v}}}
	case 2:
		p = &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Precision: v}}}
	case 3:
		p = &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Precision: &v}}}
	case 4:
		p = &pb.Type{Kind: &pb.Type_IntervalCompound_{IntervalCompound: &pb.Type_IntervalCompound{Precision: v}}}
	}
	valid := sym.And(v >= 0, v <= 9)
	c := newRctx()
	var err error
	if sym.Choice("in", 2) == 0 {
		_, err = types.TypeFromProtoChecked(p)
	} else {
		_, err = expr.ExprFromProto(litP(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: p}}), nil, c.reg)
	}
	if outcome(err) {
		sym.Assert(valid, "a precision outside 0..9 is rejected")
	} else {
		sym.Assert(!valid, "a precision in 0..9 is accepted")
	}
}

func P07Schemas() {
	k := sym.Choice("kind", len(leafKinds)+len(nestKinds))
	var p *pb.Type
	if k < len(leafKinds) {
		p = leafType(leafKinds[k], "t=").P
	} else {
		p = nestType(nestKinds[k-len(leafKinds)], "t=", 0).P
	}
	n, err := types.NamedStructFromProtoChecked(missing(&pb.NamedStruct{Names: []string{"a"},
		Struct: &pb.Type_Struct{Types: []*pb.Type{leafType("i32", "first=").P, p}, Nullability: pb.Type_NULLABILITY_REQUIRED}}))
	if outcome(err) {
		n.ToProto()
		_ = n.String()
		for _, t := range n.Struct.Types {
			useType(t)
		}
	}
}

func P07Literals() {
	x := anyLit("l=", 1)
	l := expr.LiteralFromProto(missing(x.P))
	if l == nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("decoded")
	useExpr(l)
	_ = l.ValueString()
	l.ToProtoLiteral()
}

func P07Exprs() {
	c := newCtx()
	c.short = true
	x := c.anyExpr("e=", 1)
	sym.Case(x.Kind)
	e, err := expr.ExprFromProto(missing(x.P), c.schema, c.reg)
	if outcome(err) {
		useExpr(e)
		sym.Reach(x.Kind)
	}
}

func useRel(r plan.Rel) {
	sym.Assert(r != nil, "a relation or an error")
	r.ToProto()
	r.OutputMapping()
	for _, i := range r.GetInputs() {
		useRel(i)
	}
	t := r.RecordType()
	for _, x := range t.Types() {
		if x != nil {
			_ = x.String()
		}
	}
	d, err := r.Copy(r.GetInputs()...)
	sym.Assert(err == nil && d != nil, "can be copied")
}

func P07Rels() {
	c := newRctx()
	c.focus, c.short = []string{"pathtype", "format"}, true
	x, _ := c.over("r=")
	r, err := plan.RelFromProto(missing(x.P), c.reg)
	if outcome(err) {
		useRel(r)
		sym.Reach(x.Kind)
	}
}

func P07Parts() {
	c := newCtx()
	c.short = true
	switch sym.Choice("part", 5) {
	case 0:
		sym.Case("aggregate function")
		_, p := c.aggregate("a=")
		a, err := expr.NewAggregateFunctionFromProto(missing(p), c.schema, c.reg)
		if outcome(err) {
			a.ToProto()
			_ = a.String()
			a.GetType()
		}
	case 1:
		sym.Case("reference")
		x := c.exprOf([]string{"field", "outer", "exprref", "mask"}[sym.Choice("kind", 4)], "e=", func(i int, _ string) ep { return i32Lit("k=" + strconv.Itoa(i)) })
		f, err := expr.FieldReferenceFromProto(missing(x.P.GetSelection()), c.schema, c.reg)
		if outcome(err) {
			useExpr(f)
			f.ToProtoFieldRef()
		}
	case 2:
		sym.Case("sort")
		_, set := sortKind("s=", sym.Choice("fn", 2) == 1)
		p := &pb.SortField{Expr: i32Lit("l=").P}
		set(p)
		s, err := expr.SortFieldFromProto(missing(p), c.schema, c.reg)
		if outcome(err) {
			s.ToProto()
		}
	case 3:
		sym.Case("segment")
		_, p := segs(c.validPath("p="))
		s := expr.RefSegmentFromProto(missing(p))
		if s == nil {
			sym.Reach("rejected")
			return
		}
		sym.Reach("decoded")
		s.ToProto()
		_ = s.String()
	case 4:
		sym.Case("mask")
		m, err := expr.MaskExpressionFromProtoChecked(missing(c.maskP("m=")))
		if outcome(err) {
			m.ToProto()
			m.Select()
		}
	}
}

func P07Subquery() {
	c := newRctx()
	c.focus, c.plain = []string{}, "r=.sub"
	kind := subKinds[sym.Choice("sub", len(subKinds))]
	sym.Case(kind)
	in := c.scan("r=.in0", columns("r=.in0", 2))
	over := c.scan("r=.sub", columns("r=.sub", 1))
	e := c.subquery(kind, "r=.e", over, in.Out)
	r, err := plan.RelFromProto(missing(&pb.Rel{RelType: &pb.Rel_Project{Project: &pb.ProjectRel{Common: common(nil, nil, nil), Input: in.P, Expressions: []*pb.Expression{e.P}}}}), c.reg)
	if outcome(err) {
		useRel(r)
		useExpr(r.(*plan.ProjectRel).Expressions()[0])
	}
}

func P07Plan() {
	c := newRctx()
	c.focus, c.plain = []string{}, "r"
	x := c.scan("r", columns("r", 2))
	e := c.call("f", leafType("i64", "out"), i32Lit("arg"))
	root := &pb.Rel{RelType: &pb.Rel_Project{Project: &pb.ProjectRel{Common: common([]int32{2, 0}, nil, nil), Input: x.P, Expressions: []*pb.Expression{e.P}}}}
	other := c.scan("o", columns("o", 1))
	m := &pb.Plan{
		Version:            &pb.Version{MajorNumber: 1, Producer: "p"},
		ExpectedTypeUrls:   []string{"u"},
		AdvancedExtensions: extP("adv"),
		Relations: []*pb.PlanRel{{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: root, Names: []string{"a", "b"}}}},
			{RelType: &pb.PlanRel_Rel{Rel: other.P}}},
		ParameterBindings: []*pb.DynamicParameterBinding{{ParameterAnchor: 1, Value: i32Lit("v").P.GetLiteral()}},
	}
	m.ExtensionUrns, m.Extensions = c.reg.ExtensionsToProto()
	p, err := plan.FromProto(missing(m), dialectCollection())
	if !outcome(err) {
		return
	}
	_, err = p.ToProto()
	sym.Assert(err == nil, "encodes")
	for _, r := range p.GetRoots() {
		useRel(r.Input())
		r.RecordType()
		r.ToProtoPlanRel()
	}
	for _, r := range p.GetNonRootRelations() {
		useRel(r)
	}
	p.ParameterBindings()
	_ = p.Version()
}

func P07Extended() {
	c := newRctx()
	e := c.call("f", leafType("i64", "out"), i32Lit("arg"))
	_, a := c.measure("m", typesOf(columns("c", 2)))
	_, schema := c.namedStruct("s", columns("c", 2))
	m := &pb.ExtendedExpression{
		Version:            &pb.Version{MajorNumber: 1},
		BaseSchema:         schema,
		AdvancedExtensions: extP("adv"),
		ReferredExpr: []*pb.ExpressionReference{{OutputNames: []string{"a"}, ExprType: &pb.ExpressionReference_Expression{Expression: e.P}},
			{OutputNames: []string{"b"}, ExprType: &pb.ExpressionReference_Measure{Measure: a}}},
	}
	m.ExtensionUrns, m.Extensions = c.reg.ExtensionsToProto()
	x, err := expr.ExtendedFromProto(missing(m), dialectCollection())
	if outcome(err) {
		x.ToProto()
	}
}
