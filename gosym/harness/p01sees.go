package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/gosym/sym"
)

func seesExpr(e expr.Expression, p *pb.Expression, what string) {
	if p == nil {
		t, ok := e.(*expr.PrimitiveLiteral[bool])
		sym.Assert(ok && t.Value, "no "+what+" is true")
		return
	}
	sym.Assert(sym.ProtoEqual(e.ToProto(), p), what+" of the relation")
}

func seesExprs(es []expr.Expression, ps []*pb.Expression, what string) {
	sym.Assert(len(es) == len(ps), "number of "+what)
	for i, e := range es {
		sym.Assert(sym.ProtoEqual(e.ToProto(), ps[i]), what+" of the relation")
	}
}

func seesNames(got, want []string) {
	sym.Assert(len(got) == len(want), "number of names of the relation")
	for i := range got {
		sym.Assert(got[i] == want[i], "names of the relation")
	}
}

func seesExt(e, p *extensions.AdvancedExtension) {
	if p == nil {
		sym.Assert(e == nil, "no extension")
		return
	}
	sym.Assert(e != nil && sym.ProtoEqual(e, p), "extension of the relation")
}

func seesInputs(got []plan.Rel, want ...*pb.Rel) {
	sym.Assert(len(got) == len(want), "number of inputs")
	for i, r := range got {
		sym.Assert(sym.ProtoEqual(r.ToProto(), want[i]), "inputs of the relation")
	}
}

func seesKeys(ks []*plan.ComparisonJoinKey, l, r []*expr.FieldReference, ps []*pb.ComparisonJoinKey) {
	sym.Assert(len(ks) == len(ps) && len(l) == len(ps) && len(r) == len(ps), "number of keys")
	for i, k := range ks {
		sym.Assert(sym.ProtoEqual(k.Left().ToProtoFieldRef(), ps[i].Left) && sym.ProtoEqual(l[i].ToProtoFieldRef(), ps[i].Left), "left keys of the relation")
		sym.Assert(sym.ProtoEqual(k.Right().ToProtoFieldRef(), ps[i].Right) && sym.ProtoEqual(r[i].ToProtoFieldRef(), ps[i].Right), "right keys of the relation")
		switch c := k.Comparison().(type) {
		case plan.SimpleComparison:
			sym.Assert(ps[i].Comparison.GetSimple() == c.Type, "comparison of the key")
		case plan.CustomComparison:
			_, custom := ps[i].Comparison.InnerType.(*pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference)
			sym.Assert(custom && ps[i].Comparison.GetCustomFunctionReference() == c.FunctionReference, "function of the key")
		default:
			sym.Assert(false, "kind of comparison")
		}
	}
}

type reader interface {
	BaseSchema() types.NamedStruct
	Filter() expr.Expression
	BestEffortFilter() expr.Expression
	Projection() *expr.MaskExpression
}

// sees checks that the accessors of the relation report the fields of the message it stands for.
func sees(r plan.Rel, p *pb.Rel) {
	sym.Assert(sym.ProtoEqual(r.ToProtoPlanRel().GetRel(), p), "as part of a plan")
	var cm *pb.RelCommon
	ext := func(e *extensions.AdvancedExtension) { seesExt(r.GetAdvancedExtension(), e) }
	switch x := r.(type) {
	case reader:
		m := p.GetRead()
		cm = m.Common
		s := x.BaseSchema()
		sym.Assert(sym.ProtoEqual(s.ToProto(), m.BaseSchema), "schema of the relation")
		if m.Filter == nil {
			sym.Assert(x.Filter() == nil, "no filter")
		} else {
			seesExpr(x.Filter(), m.Filter, "filter")
		}
		if m.BestEffortFilter == nil {
			sym.Assert(x.BestEffortFilter() == nil, "no best effort filter")
		} else {
			seesExpr(x.BestEffortFilter(), m.BestEffortFilter, "best effort filter")
		}
		if m.Projection == nil {
			sym.Assert(x.Projection() == nil, "no projection")
		} else {
			sym.Assert(sym.ProtoEqual(x.Projection().ToProto(), m.Projection), "projection of the relation")
		}
		seesInputs(r.GetInputs())
		switch x := r.(type) {
		case *plan.NamedTableReadRel:
			seesNames(x.Names(), m.GetNamedTable().Names)
			seesExt(x.NamedTableAdvancedExtension(), m.GetNamedTable().AdvancedExtension)
			ext(m.AdvancedExtension)
		case *plan.VirtualTableReadRel:
			vs := m.GetVirtualTable().Expressions
			sym.Assert(len(x.Values()) == len(vs), "number of rows")
			for i, v := range x.Values() {
				seesExprs(v, vs[i].Fields, "values")
			}
			ext(m.AdvancedExtension)
		case *plan.ExtensionTableReadRel:
			seesDetail(x.Detail(), m.GetExtensionTable().Detail)
			ext(m.AdvancedExtension)
		case *plan.IcebergTableReadRel:
			ext(m.AdvancedExtension)
		case *plan.LocalFileReadRel:
			for i, f := range m.GetLocalFiles().Items {
				it := x.Item(i)
				sym.Assert(sym.ProtoEqual(it.ToProto(), f), "files of the relation")
			}
			ext(m.GetLocalFiles().AdvancedExtension)
		default:
			sym.Assert(false, "kind of read")
		}
	case *plan.ProjectRel:
		m := p.GetProject()
		cm = m.Common
		seesExprs(x.Expressions(), m.Expressions, "expressions")
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(m.AdvancedExtension)
	case *plan.JoinRel:
		m := p.GetJoin()
		cm = m.Common
		seesExpr(x.Expr(), m.Expression, "condition")
		seesExpr(x.PostJoinFilter(), m.PostJoinFilter, "filter")
		sym.Assert(x.Type() == m.Type, "type of join")
		seesInputs([]plan.Rel{x.Left(), x.Right()}, m.Left, m.Right)
		seesInputs(r.GetInputs(), m.Left, m.Right)
		ext(m.AdvancedExtension)
	case *plan.CrossRel:
		m := p.GetCross()
		cm = m.Common
		seesInputs([]plan.Rel{x.Left(), x.Right()}, m.Left, m.Right)
		seesInputs(r.GetInputs(), m.Left, m.Right)
		ext(m.AdvancedExtension)
	case *plan.FetchRel:
		m := p.GetFetch()
		cm = m.Common
		sym.Assert(x.Offset() == m.GetOffset() && x.Count() == m.GetCount(), "bounds of the relation")
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(m.AdvancedExtension)
	case *plan.AggregateRel:
		m := p.GetAggregate()
		cm = m.Common
		seesExprs(x.GroupingExpressions(), m.GroupingExpressions, "grouping expressions")
		sym.Assert(len(x.GroupingReferences()) == len(m.Groupings), "number of grouping sets")
		for i, g := range x.GroupingReferences() {
			sym.Assert(len(g) == len(m.Groupings[i].ExpressionReferences), "size of the grouping set")
			for j, k := range g {
				sym.Assert(k == m.Groupings[i].ExpressionReferences[j], "grouping sets of the relation")
			}
		}
		sym.Assert(len(x.Measures()) == len(m.Measures), "number of measures")
		for i, f := range x.Measures() {
			sym.Assert(sym.ProtoEqual(f.Measure().ToProto(), m.Measures[i].Measure), "measures of the relation")
			seesExpr(f.Filter(), m.Measures[i].Filter, "filter")
		}
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(m.AdvancedExtension)
	case *plan.SortRel:
		m := p.GetSort()
		cm = m.Common
		sym.Assert(len(x.Sorts()) == len(m.Sorts), "number of sorts")
		for i, f := range x.Sorts() {
			sym.Assert(sym.ProtoEqual(f.ToProto(), m.Sorts[i]), "sorts of the relation")
		}
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(m.AdvancedExtension)
	case *plan.FilterRel:
		m := p.GetFilter()
		cm = m.Common
		seesExpr(x.Condition(), m.Condition, "condition")
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(m.AdvancedExtension)
	case *plan.SetRel:
		m := p.GetSet()
		cm = m.Common
		sym.Assert(x.Op() == m.Op, "operation of the relation")
		seesInputs(x.Inputs(), m.Inputs...)
		seesInputs(r.GetInputs(), m.Inputs...)
		ext(m.AdvancedExtension)
	case *plan.ExtensionSingleRel:
		m := p.GetExtensionSingle()
		cm = m.Common
		seesDetail(x.Detail(), m.Detail)
		seesDetail(x.Definition().Build(r.GetInputs()), m.Detail)
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(cm.AdvancedExtension)
	case *plan.ExtensionLeafRel:
		m := p.GetExtensionLeaf()
		cm = m.Common
		seesDetail(x.Detail(), m.Detail)
		seesDetail(x.Definition().Build(r.GetInputs()), m.Detail)
		seesInputs(r.GetInputs())
		ext(cm.AdvancedExtension)
	case *plan.ExtensionMultiRel:
		m := p.GetExtensionMulti()
		cm = m.Common
		seesDetail(x.Detail(), m.Detail)
		seesDetail(x.Definition().Build(r.GetInputs()), m.Detail)
		seesInputs(x.Inputs(), m.Inputs...)
		seesInputs(r.GetInputs(), m.Inputs...)
		ext(cm.AdvancedExtension)
	case *plan.HashJoinRel:
		m := p.GetHashJoin()
		cm = m.Common
		seesKeys(x.Keys(), x.LeftKeys(), x.RightKeys(), m.Keys)
		seesExpr(x.PostJoinFilter(), m.PostJoinFilter, "filter")
		sym.Assert(int32(x.Type()) == int32(m.Type), "type of join")
		seesInputs([]plan.Rel{x.Left(), x.Right()}, m.Left, m.Right)
		seesInputs(r.GetInputs(), m.Left, m.Right)
		ext(m.AdvancedExtension)
	case *plan.MergeJoinRel:
		m := p.GetMergeJoin()
		cm = m.Common
		seesKeys(x.Keys(), x.LeftKeys(), x.RightKeys(), m.Keys)
		seesExpr(x.PostJoinFilter(), m.PostJoinFilter, "filter")
		sym.Assert(int32(x.Type()) == int32(m.Type), "type of join")
		seesInputs([]plan.Rel{x.Left(), x.Right()}, m.Left, m.Right)
		seesInputs(r.GetInputs(), m.Left, m.Right)
		ext(m.AdvancedExtension)
	case *plan.NamedTableWriteRel:
		m := p.GetWrite()
		cm = m.Common
		seesNames(x.Names(), m.GetNamedTable().Names)
		seesExt(x.NamedTableAdvancedExtension(), m.GetNamedTable().AdvancedExtension)
		s := x.TableSchema()
		sym.Assert(sym.ProtoEqual(s.ToProto(), m.TableSchema), "schema of the relation")
		sym.Assert(x.Op() == m.Op, "operation of the relation")
		if m.Output != plan.OutputModeUnspecified {
			sym.Assert(x.OutputMode() == m.Output, "output of the relation")
		}
		seesInputs([]plan.Rel{x.Input()}, m.Input)
		seesInputs(r.GetInputs(), m.Input)
		ext(cm.AdvancedExtension)
	default:
		sym.Assert(false, "kind of relation")
	}
	if h, ok := r.(interface{ Hint() *plan.Hint }); ok {
		if cm.Hint == nil {
			sym.Assert(h.Hint() == nil, "no hint")
		} else {
			sym.Assert(sym.ProtoEqual(h.Hint(), cm.Hint), "hint of the relation")
		}
	}
	// setting the extension gives back the one that was there, and keeps the new one
	e := &extensions.AdvancedExtension{Optimization: []*anypb.Any{{TypeUrl: "x"}}}
	was := r.GetAdvancedExtension()
	sym.Assert(r.SetAdvancedExtension(e) == was && r.GetAdvancedExtension() == e, "extension set")
	sym.Assert(r.SetAdvancedExtension(was) == e && r.GetAdvancedExtension() == was, "extension put back")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "accessors change nothing")
}

func seesDetail(d, p *anypb.Any) {
	if p == nil {
		sym.Assert(d == nil, "no detail")
		return
	}
	sym.Assert(d != nil && sym.ProtoEqual(d, p), "detail of the relation")
}
