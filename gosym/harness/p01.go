package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("P01",
	H{F: P01Common, Bounds: "every relation over scans of two columns of symbolic types, with every presence of hint and extensions and any emit mapping of 0..2 indices", Reach: []string{"common", "built"}},
	H{F: P01Shape, Bounds: "every relation over scans of two columns of symbolic types, with 0..2 columns, rows, files, names, keys, sorts, expressions, groups and measures, any join type, operation and output mode, all numbers symbolic", Reach: []string{"shape", "built"}},
	H{F: P01Detail, Bounds: "every relation over scans of two columns of symbolic types, with every presence of filters and every kind of file, format, key comparison and output mode, all numbers symbolic", Reach: []string{"detail", "built"}},
	H{F: P01Exprs, Bounds: "every relation over scans of two columns, whose expressions are a literal, a field or a function of both", Reach: []string{"exprs", "built"}},
	H{F: P01Nested, Bounds: "every relation over every relation that emits two of its columns, which is over a scan, all numbers symbolic", Reach: []string{"nested", "built"}},
	H{F: P01Subquery, Bounds: "projections and filters with any of the four kinds of subquery over every relation, any operation", Reach: []string{"subquery", "built"}},
	H{F: P01OldForm, Bounds: "aggregates with expressions in 1..2 grouping sets of 1..2 expressions, of which any two may be equal; virtual tables of 1..2 rows of literals", Reach: []string{"old groups", "old values"}},
	H{F: P01Plan, Bounds: "plans with any relation as root or other relation, 0..1 others, 0..2 bindings, expected types, extensions and declarations with symbolic anchors", Reach: []string{"root", "other", "built"}},
)

func sameTypes(r types.RecordType, want []types.Type, what string) {
	sym.Assert(int(r.FieldCount()) == len(want), "number of columns of "+what)
	for i, t := range r.Types() {
		sym.Assert(t.Equals(want[i]), "columns of "+what)
	}
}

func (c *rctx) relRoundTrip(x rp, build builder) {
	d, err := plan.RelFromProto(x.P, c.reg)
	sym.Assert(err == nil && d != nil, "decodes")
	sym.Assert(sym.ProtoEqual(d.ToProto(), x.P), "encode(decode(m)) equals m")
	sameTypes(d.RecordType(), x.Out, "the decoded relation")
	sees(d, x.P)
	if build == nil {
		return
	}
	r := build.made()
	sym.Assert(sym.ProtoEqual(r.ToProto(), x.P), "encoding is the message the relation stands for")
	sameTypes(r.RecordType(), x.Out, "the built relation")
	sees(r, x.P)
	sym.Reach("built")
}

// over makes a relation of any kind over scans.
func (c *rctx) over(name string) (rp, builder) {
	return c.overScans(c.relKind("kind"), name)
}

func (c *rctx) relKind(name string) string {
	kind := relKinds[sym.Choice(name, len(relKinds))]
	sym.Case(kind)
	return kind
}

// overScans makes a relation of the kind over scans.
func (c *rctx) overScans(kind, name string) (rp, builder) {
	var in []rp
	var cols []tp
	for i := range inputs(kind) {
		n := name + ".in" + string(rune('0'+i))
		if i == 0 || kind != "set" {
			cols = columns(n, 2)
		}
		in = append(in, c.scan(n, cols))
	}
	return c.relOf(kind, name, in...)
}

func P01Common() {
	c := newRctx()
	c.focus = commonParts
	c.relRoundTrip(c.over("r"))
	sym.Reach("common")
}

func P01Shape() {
	c := newRctx()
	c.focus = shapeParts
	c.relRoundTrip(c.over("r"))
	sym.Reach("shape")
}

func P01Detail() {
	c := newRctx()
	c.focus = detailParts
	c.relRoundTrip(c.over("r"))
	sym.Reach("detail")
}

func P01Exprs() {
	c := newRctx()
	c.focus = []string{"expr", "cond", "filtered", "post"}
	c.relRoundTrip(c.over("r"))
	sym.Reach("exprs")
}

// input makes an input from a relation of the kind over a scan.
func (c *rctx) input(kind, name string) rp {
	x, _ := c.overScans(kind, name)
	x.R = c.decoded(x.P)
	return x
}

func P01Nested() {
	c := newRctx()
	c.focus, c.plain = []string{}, ".in"
	kind := relKinds[relLeaves+sym.Choice("kind", len(relKinds)-relLeaves)]
	in := []rp{c.input(c.relKind("inner"), "r.in0")}
	sym.Case(kind + " over " + in[0].Kind)
	if inputs(kind) == 2 {
		in = append(in, in[0])
		if kind != "set" {
			in[1] = c.scan("r.in1", columns("r.in1", 2))
		}
		if sym.Choice("side", 2) == 1 {
			in[0], in[1] = in[1], in[0]
		}
	}
	c.relRoundTrip(c.relOf(kind, "r", in...))
	sym.Reach("nested")
}

var subKinds = []string{"scalar", "in", "exists", "compare"}

// subquery is a subquery of the kind over a relation.
func (c *rctx) subquery(kind, name string, over rp, outer []types.Type) ep {
	c.reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: c.reg})
	var r ep
	sub := &pb.Expression_Subquery{}
	switch kind {
	case "scalar":
		r.E, sub.SubqueryType = plan.NewScalarSubquery(over.R), &pb.Expression_Subquery_Scalar_{Scalar: &pb.Expression_Subquery_Scalar{Input: over.P}}
	case "in":
		var es []expr.Expression
		p := &pb.Expression_Subquery_InPredicate{Haystack: over.P}
		for i := range over.Out {
			x := c.value(name+".needle"+string(rune('0'+i)), outer)
			es, p.Needles = append(es, x.E), append(p.Needles, x.P)
		}
		r.E, sub.SubqueryType = plan.NewInPredicateSubquery(es, over.R), &pb.Expression_Subquery_InPredicate_{InPredicate: p}
	case "exists":
		op := sym.Int32(name + ".op")
		r.E = plan.NewSetPredicateSubquery(plan.SetPredicateOp(op), over.R)
		sub.SubqueryType = &pb.Expression_Subquery_SetPredicate_{SetPredicate: &pb.Expression_Subquery_SetPredicate{PredicateOp: plan.SetPredicateOp(op), Tuples: over.P}}
	case "compare":
		x := c.value(name+".left", outer)
		red, cmp := plan.SetComparisonReductionOp(sym.Int32(name+".red")), plan.SetComparisonComparisonOp(sym.Int32(name+".cmp"))
		r.E = plan.NewSetComparisonSubquery(red, cmp, x.E, over.R)
		sub.SubqueryType = &pb.Expression_Subquery_SetComparison_{SetComparison: &pb.Expression_Subquery_SetComparison{
			ReductionOp: red, ComparisonOp: cmp, Left: x.P, Right: over.P}}
	}
	r.P = &pb.Expression{RexType: &pb.Expression_Subquery_{Subquery: sub}}
	r.Kind = kind
	return r
}

func P01Subquery() {
	c := newRctx()
	c.focus, c.plain = []string{}, ".sub"
	kind := subKinds[sym.Choice("sub", len(subKinds))]
	in := c.scan("r.in0", columns("r.in0", 2))
	over := c.input(c.relKind("inner"), "r.sub")
	sym.Case(kind + " over " + over.Kind)
	if kind == "scalar" {
		// one column
		m := []int32{1}
		if len(over.Out) == 0 {
			return
		}
		if len(over.Out) == 1 {
			m[0] = 0
		}
		r, err := over.R.Remap(m...)
		sym.Assert(err == nil, "remapped")
		over.R, over.P, over.Out = r, r.ToProto(), []types.Type{over.Out[m[0]]}
	}
	e := c.subquery(kind, "r.e", over, in.Out)
	var x rp
	var b builder
	if kind == "scalar" || sym.Choice("where", 2) == 0 {
		x.P = &pb.Rel{RelType: &pb.Rel_Project{Project: &pb.ProjectRel{Common: common(nil, nil, nil), Input: in.P, Expressions: []*pb.Expression{e.P}}}}
		var t types.Type = &types.BooleanType{Nullability: types.NullabilityRequired}
		if kind == "scalar" {
			t = over.Out[0]
		}
		x.Out = append(append([]types.Type{}, in.Out...), t)
		b = func() (plan.Rel, error) { return res(c.b.Project(in.R, e.E)) }
	} else {
		x.P = &pb.Rel{RelType: &pb.Rel_Filter{Filter: &pb.FilterRel{Common: common(nil, nil, nil), Input: in.P, Condition: e.P}}}
		x.Out = in.Out
		b = func() (plan.Rel, error) { return res(c.b.Filter(in.R, e.E)) }
	}
	c.relRoundTrip(x, b)
	sym.Reach("subquery")
}

func P01OldForm() {
	c := newRctx()
	c.focus = []string{}
	var m *pb.Rel
	var out []types.Type
	if sym.Choice("what", 2) == 0 {
		in := c.scan("in", columns("in", 2))
		// the expressions are references, which are equal exactly if they refer to the same column
		p := &pb.AggregateRel{Common: common(nil, nil, nil), Input: in.P}
		for i := range 1 + sym.Choice("sets", 2) {
			g := &pb.AggregateRel_Grouping{}
			for j := range 1 + sym.Choice("exprs"+string(rune('0'+i)), 2) {
				g.GroupingExpressions = append(g.GroupingExpressions, c.fieldRef("e"+string(rune('0'+i))+string(rune('0'+j)), in.Out).P)
			}
			p.Groupings = append(p.Groupings, g)
		}
		m = &pb.Rel{RelType: &pb.Rel_Aggregate{Aggregate: p}}
		sym.Reach("old groups")
		d, err := plan.RelFromProto(m, c.reg)
		sym.Assert(err == nil, "old form decodes")
		n := d.ToProto().GetAggregate()
		sym.Assert(len(n.Groupings) == len(p.Groupings), "as many sets")
		for i, g := range p.Groupings {
			sym.Assert(len(n.Groupings[i].ExpressionReferences) == len(g.GroupingExpressions), "as many keys")
			for j, e := range g.GroupingExpressions {
				k := n.Groupings[i].ExpressionReferences[j]
				sym.Assert(k < uint32(len(n.GroupingExpressions)), "key exists")
				sym.Assert(sym.ProtoEqual(n.GroupingExpressions[k], e), "key is the expression")
			}
		}
	} else {
		tab := columns("t", 2)
		for i := range tab {
			tab[i] = leafTypeWith("i32", "", types.NullabilityRequired, 0)
		}
		s, sp := c.namedStruct("t", tab)
		vt := &pb.ReadRel_VirtualTable{}
		for i := range 1 + sym.Choice("rows", 2) {
			st := &pb.Expression_Literal_Struct{}
			for j := range tab {
				st.Fields = append(st.Fields, i32Lit("v"+string(rune('0'+i))+string(rune('0'+j))).P.GetLiteral())
			}
			vt.Values = append(vt.Values, st)
		}
		m = &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{Common: common(nil, nil, nil), BaseSchema: sp, ReadType: &pb.ReadRel_VirtualTable_{VirtualTable: vt}}}}
		out = s.Struct.Types
		sym.Reach("old values")
		d, err := plan.RelFromProto(m, c.reg)
		sym.Assert(err == nil, "old form decodes")
		sameTypes(d.RecordType(), out, "the decoded table")
		n := d.ToProto().GetRead().GetVirtualTable()
		sym.Assert(len(n.Expressions) == len(vt.Values) && len(n.Values) == 0, "as many rows")
		for i, row := range vt.Values {
			sym.Assert(len(n.Expressions[i].Fields) == len(row.Fields), "as many values")
			for j, f := range row.Fields {
				sym.Assert(sym.ProtoEqual(n.Expressions[i].Fields[j].GetLiteral(), f), "value kept")
			}
		}
	}
	d, err := plan.RelFromProto(m, c.reg)
	sym.Assert(err == nil, "old form decodes")
	n := d.ToProto()
	d2, err := plan.RelFromProto(n, c.reg)
	sym.Assert(err == nil, "new form decodes")
	sym.Assert(sym.ProtoEqual(d2.ToProto(), n), "new form is kept")
	sameTypes(d2.RecordType(), d.RecordType().Types(), "both forms")
}

func P01Plan() {
	c := newRctx()
	c.focus, c.plain = []string{}, "r"
	collection := dialectCollection()
	kind := c.relKind("root")
	x, _ := c.overScans(kind, "r")
	x.R = c.decoded(x.P)
	names := []string{}
	for i := range x.Out {
		names = append(names, sym.String("name"+string(rune('0'+i)), 0, 1))
	}
	urls := []string{}
	for i := range sym.Choice("urls", 2) {
		urls = append(urls, sym.String("url"+string(rune('0'+i)), 1, 1))
	}
	m := &pb.Plan{ExpectedTypeUrls: urls}
	m.Version = &pb.Version{MajorNumber: sym.Uint32("major"), MinorNumber: sym.Uint32("minor"), PatchNumber: sym.Uint32("patch"), GitHash: "h", Producer: sym.String("producer", 0, 1)}
	if sym.Choice("adv", 2) == 1 {
		m.AdvancedExtensions = extP("adv")
	}
	reg := c.reg
	m.ExtensionUrns, m.Extensions = reg.ExtensionsToProto()
	other := c.scan("o", columns("o", 2))
	hasOther := sym.Choice("other", 2) == 1
	root := &pb.PlanRel{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: x.P, Names: names}}}
	m.Relations = []*pb.PlanRel{root}
	var others []plan.Rel
	if hasOther {
		o := &pb.PlanRel{RelType: &pb.PlanRel_Rel{Rel: other.P}}
		others = append(others, other.R)
		m.Relations = append(m.Relations, o)
		if sym.Choice("first", 2) == 1 {
			m.Relations[0], m.Relations[1] = o, root
			others = nil
		}
	}
	for i := range sym.Choice("bindings", 2) {
		v := i32Lit("bind" + string(rune('0'+i)))
		m.ParameterBindings = append(m.ParameterBindings, &pb.DynamicParameterBinding{ParameterAnchor: sym.Uint32("anchor" + string(rune('0'+i))), Value: v.P.GetLiteral()})
	}
	d, err := plan.FromProtoWithDecoder(m, collection, c.decoders)
	sym.Assert(err == nil, "plan decodes")
	got, err := d.ToProto()
	sym.Assert(err == nil && sym.ProtoEqual(got, m), "encode(decode(plan)) equals the plan")
	v, ae := d.Version(), d.AdvancedExtension()
	sym.Assert(v.GetMajorNumber() == m.Version.MajorNumber && v.GetMinorNumber() == m.Version.MinorNumber && v.GetPatchNumber() == m.Version.PatchNumber, "version of the plan")
	sym.Assert(v.GetGitHash() == m.Version.GitHash && v.GetProducer() == m.Version.Producer, "producer of the plan")
	sym.Assert(len(ae.GetOptimization()) == len(m.AdvancedExtensions.GetOptimization()), "optimizations of the plan")
	for i, o := range ae.GetOptimization() {
		sym.Assert(sym.ProtoEqual(o, m.AdvancedExtensions.Optimization[i]), "optimizations of the plan")
	}
	seesDetail(ae.GetEnhancement(), m.AdvancedExtensions.GetEnhancement())
	seesNames(d.ExpectedTypeURLs(), urls)
	rels := d.Relations()
	sym.Assert(len(rels) == len(m.Relations), "number of relations of the plan")
	for i := range rels {
		if w := m.Relations[i].GetRoot(); w != nil {
			sym.Assert(rels[i].IsRoot() && rels[i].Rel() == nil, "a root")
			sym.Assert(sym.ProtoEqual(rels[i].Root().ToProtoPlanRel().GetRoot(), w), "root of the plan")
			seesNames(rels[i].Root().Names(), names)
		} else {
			sym.Assert(!rels[i].IsRoot() && rels[i].Root() == nil, "no root")
			sym.Assert(sym.ProtoEqual(rels[i].Rel().ToProto(), m.Relations[i].GetRel()), "relation of the plan")
		}
	}
	binds := d.ParameterBindings()
	sym.Assert(len(binds) == len(m.ParameterBindings), "number of bindings of the plan")
	for i, b := range binds {
		sym.Assert(b.ParameterAnchor == m.ParameterBindings[i].ParameterAnchor, "anchor of the binding")
		sym.Assert(sym.ProtoEqual(b.Value.ToProtoLiteral(), m.ParameterBindings[i].Value), "value of the binding")
	}
	roots := d.GetRoots()
	sym.Assert(len(roots) == 1 && sym.ProtoEqual(roots[0].ToProtoPlanRel(), root), "the root")
	sym.Assert(sym.ProtoEqual(roots[0].Input().ToProto(), x.P), "the root relation")
	rt := roots[0].RecordType()
	sym.Assert(len(rt.Names) == len(names), "names")
	for i := range names {
		sym.Assert(rt.Names[i] == names[i], "names")
	}
	sameTypes(roots[0].Input().RecordType(), x.Out, "the root")
	sym.Reach("root")
	nr := d.GetNonRootRelations()
	if hasOther {
		sym.Assert(len(nr) == 1 && sym.ProtoEqual(nr[0].ToProto(), other.P), "the other relation")
		sym.Reach("other")
	} else {
		sym.Assert(len(nr) == 0, "no other relation")
	}
	if len(m.ParameterBindings) > 0 || m.AdvancedExtensions != nil || hasOther && others == nil {
		return
	}
	b, err := c.b.PlanWithTypes(x.R, names, urls, others...)
	sym.Assert(err == nil, "plan built")
	got, err = b.ToProto()
	sym.Assert(err == nil, "built plan encodes")
	m.Version = &plan.CurrentVersion
	sym.Assert(sym.ProtoEqual(got, m), "the built plan")
	sym.Reach("built")
}
