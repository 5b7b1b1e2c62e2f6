package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("X02",
	H{F: X02Parts, Bounds: "every expression kind over i32 literals, built and decoded, with every presence of optional parts as in X02RoundTrip", Reach: []string{"parts"}},
	H{F: X02Measure, Bounds: "aggregate functions with 0..3 arguments, options and sorts; clones; references to expressions and measures with 0..2 names", Reach: []string{"measure"}},
)

func isP(e expr.Expression, p *pb.Expression) bool {
	if e == nil {
		return p == nil
	}
	return p != nil && sym.ProtoEqual(e.ToProto(), p)
}

func sameOptions(opts []*types.FunctionOption, ps []*pb.FunctionOption, get func(string) []string) {
	sym.Assert(len(opts) == len(ps), "options of the function")
	for i, o := range ps {
		sym.Assert(sym.ProtoEqual(opts[i], o), "option of the function")
		if get == nil {
			continue
		}
		first := true
		for j := range i {
			if ps[j].Name == o.Name {
				first = false
			}
		}
		if first {
			sym.Assert(sym.DeepEqual(get(o.Name), o.Preference), "preference of an option")
		}
	}
	if get != nil && len(ps) < 2 {
		sym.Assert(get("none") == nil, "no preference for other options")
	}
}

func sameArgs(n int, arg func(int) types.FuncArg, ts []types.Type, ps []*pb.FunctionArgument) {
	sym.Assert(n == len(ps), "number of arguments")
	for i, p := range ps {
		sym.Assert(sym.ProtoEqual(arg(i).ToProtoFuncArg(), p), "argument of the function")
	}
	sym.Assert(len(ts) == n, "a type for each argument")
	for i, p := range ps {
		switch a := arg(i).(type) {
		case expr.Expression:
			sym.Assert(typeSame(ts[i], a.GetType()), "type of a value argument")
		case types.Enum:
			sym.Assert(ts[i] == types.CommonEnumType, "type of an enum argument")
		case types.Type:
			sym.Assert(p.GetType() != nil && ts[i].Equals(a), "type of a type argument")
		}
	}
}

func boundIs(b expr.Bound, p *pb.Expression_WindowFunction_Bound) bool {
	switch x := b.(type) {
	case expr.PrecedingBound:
		return p.GetPreceding() != nil && p.GetPreceding().Offset == int64(x)
	case expr.FollowingBound:
		return p.GetFollowing() != nil && p.GetFollowing().Offset == int64(x)
	case expr.CurrentRow:
		return p.GetCurrentRow() != nil
	case expr.Unbounded:
		return p.GetUnbounded() != nil
	}
	return p == nil
}

func maskSelectIs(m expr.MaskSelect, p *pb.Expression_MaskExpression_Select) {
	if p == nil {
		sym.Assert(m == nil, "no selection")
		return
	}
	switch x := m.(type) {
	case expr.MaskStructSelect:
		maskIs(x, p.GetStruct())
	case *expr.MaskListSelect:
		l := p.GetList()
		sym.Assert(l != nil, "a list selection")
		maskSelectIs(x.Child(), l.Child)
		items := x.Selection()
		sym.Assert(len(items) == len(l.Selection), "items of a list selection")
		for i, s := range l.Selection {
			switch it := items[i].(type) {
			case *expr.MaskListElement:
				sym.Assert(s.GetItem() != nil && it.GetField() == s.GetItem().Field, "element of a list selection")
			case *expr.MaskListSlice:
				a, b := it.GetBounds()
				sym.Assert(s.GetSlice() != nil && a == s.GetSlice().Start && b == s.GetSlice().End, "slice of a list selection")
			default:
				sym.Assert(false, "kind of a list selection")
			}
		}
	case *expr.MaskMapSelect:
		mp := p.GetMap()
		sym.Assert(mp != nil, "a map selection")
		maskSelectIs(x.Child(), mp.Child)
		if mp.GetKey() != nil {
			sym.Assert(x.KeyKind() == expr.MapSelectKey && x.Key() == mp.GetKey().MapKey, "key of a map selection")
		} else {
			sym.Assert(x.KeyKind() == expr.MapSelectExpr && x.Key() == mp.GetExpression().MapKeyExpression, "key expression of a map selection")
		}
	default:
		sym.Assert(false, "kind of a selection")
	}
}

func maskIs(m expr.MaskStructSelect, p *pb.Expression_MaskExpression_StructSelect) {
	sym.Assert(p != nil && len(m) == len(p.StructItems), "fields of a mask")
	for i, it := range p.StructItems {
		sym.Assert(m[i].Field() == it.Field, "field of a mask")
		maskSelectIs(m[i].Child(), it.Child)
	}
}

func segmentIs(s expr.ReferenceSegment, p *pb.Expression_ReferenceSegment) {
	for p != nil {
		sym.Assert(s != nil, "a segment")
		switch x := s.(type) {
		case *expr.StructFieldRef:
			sym.Assert(p.GetStructField() != nil && x.Field == p.GetStructField().Field, "field of a reference")
			p = p.GetStructField().Child
		case *expr.ListElementRef:
			sym.Assert(p.GetListElement() != nil && x.Offset == p.GetListElement().Offset, "element of a reference")
			p = p.GetListElement().Child
		case *expr.MapKeyRef:
			sym.Assert(p.GetMapKey() != nil && sym.ProtoEqual(x.MapKey.ToProtoLiteral(), p.GetMapKey().MapKey), "key of a reference")
			p = p.GetMapKey().Child
		default:
			sym.Assert(false, "kind of a segment")
		}
		s = s.GetChild()
	}
	sym.Assert(s == nil, "the last segment")
}

// partsSeen: an expression shows the parts of its message.
func partsSeen(c *ectx, e expr.Expression, p *pb.Expression) {
	switch x := e.(type) {
	case *expr.IfThen:
		m := p.GetIfThen()
		sym.Assert(x.NIfs() == len(m.Ifs), "number of conditions")
		for i, f := range m.Ifs {
			sym.Assert(isP(x.IfPair(i).If, f.If) && isP(x.IfPair(i).Then, f.Then), "condition and result")
		}
		sym.Assert(isP(x.Else(), m.Else), "result otherwise")
	case *expr.SwitchExpr:
		m := p.GetSwitchExpression()
		sym.Assert(isP(x.MatchExpr(), m.Match), "value to match")
		sym.Assert(x.NCases() == len(m.Ifs), "number of cases")
		for i, f := range m.Ifs {
			sym.Assert(sym.ProtoEqual(x.Case(i).If.ToProtoLiteral(), f.If) && isP(x.Case(i).Then, f.Then), "case and result")
		}
		sym.Assert(isP(x.Else(), m.Else), "result otherwise")
	case expr.NestedExpr:
		m := p.GetNested()
		sym.Assert(x.IsNullable() == m.Nullable && x.TypeVariation() == m.TypeVariationReference, "nullability and variation of a nested value")
	case *expr.ScalarFunction:
		m := p.GetScalarFunction()
		sym.Assert(x.FuncRef() == m.FunctionReference, "reference of the function")
		id, ok := c.reg.DecodeFunc(m.FunctionReference)
		sym.Assert(ok && x.ID() == id && x.CompoundName() == id.Name, "the function of the reference")
		sym.Assert(id.Name == x.Name() || len(id.Name) > len(x.Name()) && id.Name[:len(x.Name())+1] == x.Name()+":", "name of the function")
		sameArgs(x.NArgs(), x.Arg, x.GetArgTypes(), m.Arguments)
		sameOptions(x.GetOptions(), m.Options, x.GetOption)
		sym.Assert(sym.ProtoEqual(types.TypeToProto(x.GetType()), m.OutputType), "type of the result")
	case *expr.WindowFunction:
		m := p.GetWindowFunction()
		id, ok := c.reg.DecodeFunc(m.FunctionReference)
		sym.Assert(ok && x.ID() == id && x.CompoundName() == id.Name, "the function of the reference")
		sameArgs(x.NArgs(), x.Arg, x.GetArgTypes(), m.Arguments)
		sameOptions(x.GetOptions(), m.Options, nil)
		sym.Assert(sym.ProtoEqual(types.TypeToProto(x.GetType()), m.OutputType), "type of the result")
		sym.Assert(int32(x.Phase()) == int32(m.Phase) && int32(x.Invocation()) == int32(m.Invocation) && int32(x.BoundsType) == int32(m.BoundsType), "phase, invocation and kind of bounds")
		sym.Assert(boundIs(x.LowerBound, m.LowerBound) && boundIs(x.UpperBound, m.UpperBound), "bounds of the window")
		sym.Assert(len(x.Partitions) == len(m.Partitions) && len(x.Sorts) == len(m.Sorts), "partitions and sorts")
		for i, q := range m.Partitions {
			sym.Assert(isP(x.Partitions[i], q), "partition of the window")
		}
		for i, q := range m.Sorts {
			sym.Assert(isP(x.Sorts[i].Expr, q.Expr), "sort of the window")
		}
	case *expr.FieldReference:
		m := p.GetSelection()
		switch r := x.Reference.(type) {
		case *expr.MaskExpression:
			sym.Assert(m.GetMaskedReference() != nil && r.MaintainSingularStruct() == m.GetMaskedReference().MaintainSingularStruct, "a mask keeps single fields or not")
			maskIs(r.Select(), m.GetMaskedReference().Select)
		case expr.ReferenceSegment:
			segmentIs(r, m.GetDirectReference())
			if x.Root == expr.RootReference {
				y, err := expr.NewRootFieldRefFromType(r, x.GetType())
				sym.Assert(err == nil && y.Equals(x) && typeSame(y.GetType(), x.GetType()), "a reference of a known type")
			}
		}
	case *expr.Cast:
		m := p.GetCast()
		sym.Assert(isP(x.Input, m.Input) && sym.ProtoEqual(types.TypeToProto(x.Type), m.Type) && int32(x.FailureBehavior) == int32(m.FailureBehavior), "input, type and failure of a cast")
		sym.Assert(x.GetType().Equals(x.Type), "a cast has its type")
	case *expr.SingularOrList:
		m := p.GetSingularOrList()
		sym.Assert(isP(x.Value, m.Value) && len(x.Options) == len(m.Options), "value and options")
		for i, o := range m.Options {
			sym.Assert(isP(x.Options[i], o), "option")
		}
	case *expr.MultiOrList:
		m := p.GetMultiOrList()
		sym.Assert(len(x.Value) == len(m.Value) && len(x.Options) == len(m.Options), "values and options")
		for i, v := range m.Value {
			sym.Assert(isP(x.Value[i], v), "value")
		}
		for i, o := range m.Options {
			sym.Assert(len(x.Options[i]) == len(o.Fields), "record of options")
			for j, f := range o.Fields {
				sym.Assert(isP(x.Options[i][j], f), "field of an option")
			}
		}
	}
}

func X02Parts() {
	c := newCtx()
	x := c.anyExpr("e", 1)
	sym.Case(x.Kind)
	partsSeen(c, x.E, x.P)
	d, err := expr.ExprFromProto(x.P, c.schema, c.reg)
	sym.Assert(err == nil && d != nil, "decodes")
	partsSeen(c, d, x.P)
	if l, ok := x.E.(*expr.ListExpr); ok {
		n := expr.NewListExpr(l.Nullable, l.Values...)
		n.TypeVariationRef = l.TypeVariationRef
		sym.Assert(n.Equals(l), "a list of the values")
	}
	sym.Reach("parts")
}

func X02Measure() {
	c := newCtx()
	x, p := c.aggregate("a")
	seen := func(a *expr.AggregateFunction, m *pb.AggregateFunction) {
		sameArgs(a.NArgs(), a.Arg, a.GetArgTypes(), m.Arguments)
		sameOptions(a.GetOptions(), m.Options, a.GetOption)
		sym.Assert(len(a.Sorts) == len(m.Sorts) && int32(a.Phase()) == int32(m.Phase) && int32(a.Invocation()) == int32(m.Invocation), "parts of the measure")
		id, ok := c.reg.DecodeFunc(m.FunctionReference)
		sym.Assert(ok && a.ID() == id && a.CompoundName() == id.Name, "the function of the reference")
		sym.Assert(sym.ProtoEqual(a.ToProto(), m), "message of the measure")
	}
	seen(x, p)
	y := x.Clone()
	seen(y, p)
	if y.NArgs() > 0 {
		other := i32Lit("other")
		y.SetArg(y.NArgs()-1, other.E)
		sym.Assert(sym.ProtoEqual(y.Arg(y.NArgs()-1).ToProtoFuncArg(), argP(other.P)), "an argument is replaced")
		seen(x, p)
	}
	if len(y.Sorts) > 0 {
		y.Sorts[0].Expr = i32Lit("sorted").E
		seen(x, p)
	}
	names := []string{"u", c.text("name")}[:sym.Choice("names", 3)]
	l := i32Lit("lit")
	er, mr := expr.NewExpressionReference(names, l.E), expr.NewMeasureReference(names, x)
	ep := &pb.ExpressionReference{OutputNames: names, ExprType: &pb.ExpressionReference_Expression{Expression: l.P}}
	mp := &pb.ExpressionReference{OutputNames: names, ExprType: &pb.ExpressionReference_Measure{Measure: p}}
	sym.Assert(sym.ProtoEqual(er.ToProto(), ep) && er.GetExpr() == l.E && er.GetMeasure() == nil, "a reference to an expression")
	sym.Assert(sym.ProtoEqual(mr.ToProto(), mp) && mr.GetMeasure() == x && mr.GetExpr() == nil, "a reference to a measure")
	er.SetMeasure(x)
	mr.SetExpr(l.E)
	sym.Assert(sym.ProtoEqual(er.ToProto(), mp) && er.GetMeasure() == x && er.GetExpr() == nil, "a measure replaces the expression")
	sym.Assert(sym.ProtoEqual(mr.ToProto(), ep) && mr.GetExpr() == l.E && mr.GetMeasure() == nil, "an expression replaces the measure")
	sym.Reach("measure")
}
