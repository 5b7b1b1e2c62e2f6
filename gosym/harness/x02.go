package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("X02",
	H{F: X02RoundTrip, Bounds: "every expression kind over i32 literals, with every presence of optional parts (0..3 arguments, 0..2 options, sorts, partitions, cases, else), every enum, bound, offset, index, type parameter, 2-letter option, enum argument and map key; functions declared or not", Reach: []string{"flat"}},
	H{F: X02Nested, Bounds: "every expression kind with all optional parts, one child in any of the first six positions being any expression kind", Reach: []string{"nested"}},
	H{F: X02Aggregate, Bounds: "aggregate functions with 0..3 arguments, options, sorts of both kinds, every phase and invocation, declared or not", Reach: []string{"aggregate"}},
	H{F: X02LambdaRefs, Bounds: "references to either of two parameters of the inner or outer of two nested lambdas", Reach: []string{"lambda"}},
)

func typeSame(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equals(b)
}

// typed tells whether the type of an expression is known: outer references and
// references to the parameters of a lambda outside of it have none.
func typed(x ep) bool {
	switch x.Kind {
	case "outer", "lambdaref", "mask":
		return false
	case "ifthen", "switch", "mapexpr", "structexpr", "listexpr", "lambda", "exprref":
		for _, k := range x.Kids {
			if !typed(k) {
				return false
			}
		}
	}
	return true
}

func roundTrip(c *ectx, x ep) {
	p := x.E.ToProto()
	sym.Assert(sym.ProtoEqual(p, x.P), "encoding is the message the expression stands for")
	sym.Assert(sym.ProtoEqual(x.E.ToProtoFuncArg(), argP(x.P)), "encoding as an argument holds the message")
	d, err := expr.ExprFromProto(x.P, c.schema, c.reg)
	sym.Assert(err == nil && d != nil, "decodes")
	sym.Assert(d.Equals(x.E), "decode(encode(e)) equals e")
	sym.Assert(x.E.Equals(d), "e equals decode(encode(e))")
	if typed(x) {
		sym.Assert(typeSame(d.GetType(), x.E.GetType()), "type kept")
	}
	sym.Assert(d.IsScalar() == x.E.IsScalar(), "scalar or not kept")
	sym.Assert(sym.ProtoEqual(d.ToProto(), x.P), "encode(decode(m)) equals m")
}

func X02RoundTrip() {
	c := newCtx()
	x := c.anyExpr("e", 1)
	sym.Case(x.Kind)
	roundTrip(c, x)
	sym.Reach("flat")
}

func X02Nested() {
	c := newCtx()
	c.vary = false
	kind := exprKinds[exprLeaves+sym.Choice("kind", len(exprKinds)-exprLeaves)]
	sym.Case(kind)
	x := c.anyExprOf(kind, "e", 2)
	roundTrip(c, x)
	sym.Reach("nested")
}

func X02Aggregate() {
	c := newCtx()
	x, p := c.aggregate("a")
	sym.Assert(sym.ProtoEqual(x.ToProto(), p), "encoding is the message the function stands for")
	d, err := expr.NewAggregateFunctionFromProto(p, c.schema, c.reg)
	sym.Assert(err == nil && d != nil, "decodes")
	sym.Assert(sym.ProtoEqual(d.ToProto(), p), "encode(decode(m)) equals m")
	sym.Assert(d.GetType().Equals(x.GetType()), "type kept")
	sym.Assert(d.Phase() == x.Phase() && d.Invocation() == x.Invocation() && d.NArgs() == x.NArgs() && len(d.Sorts) == len(x.Sorts), "parts kept")
	for i := range x.Sorts {
		sym.Assert(d.Sorts[i].Kind == x.Sorts[i].Kind && d.Sorts[i].Expr.Equals(x.Sorts[i].Expr), "sorts kept")
	}
	for i := range x.NArgs() {
		sym.Assert(expr.FuncArgsEqual(d.Arg(i), x.Arg(i)), "arguments kept")
	}
	sym.Assert(d.ID() == x.ID(), "function kept")
	sym.Reach("aggregate")
}

func X02LambdaRefs() {
	c := newCtx()
	mk := func(n string) *types.StructType {
		return &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{leafType("decimal", n+"0").T, leafType("fixedchar", n+"1").T}}
	}
	outer, inner := mk("o"), mk("i")
	steps, field := uint32(sym.Choice("steps", 2)), int32(sym.Choice("field", 2))
	b := &expr.ExprBuilder{Reg: c.reg, BaseSchema: c.schema}
	e, err := b.Lambda(outer, b.Lambda(inner, b.LambdaParamRef(expr.StructFieldRef{Field: field}, steps))).BuildExpr()
	sym.Assert(err == nil, "built")
	want := []*types.StructType{inner, outer}[steps].Types[field]
	ref := func(e expr.Expression) expr.Expression { return e.(*expr.Lambda).Body.(*expr.Lambda).Body }
	sym.Assert(ref(e).GetType().Equals(want), "type of the parameter")
	d, err := expr.ExprFromProto(e.ToProto(), c.schema, c.reg)
	sym.Assert(err == nil, "decodes")
	sym.Assert(d.Equals(e), "decode(encode(e)) equals e")
	sym.Assert(ref(d).GetType() != nil && ref(d).GetType().Equals(want), "type of the parameter after decoding")
	sym.Assert(d.GetType().Equals(e.GetType()), "type kept")
	sym.Reach("lambda")
}

func (c *ectx) aggregate(name string) (*expr.AggregateFunction, *pb.AggregateFunction) {
	out := leafType("varchar", name+".out")
	na, ns := c.pick(name+".args", 3, 2), c.pick(name+".sorts", 3, 2)
	var k []ep
	for i := range na {
		k = append(k, i32Lit(name+".arg"+string(rune('0'+i))))
	}
	opts := c.optionsP(name, c.pick(name+".opts", 3, 1))
	ph, inv := sym.Int32(name+".phase"), sym.Int32(name+".inv")
	var sorts []expr.SortField
	var sp []*pb.SortField
	for i := range ns {
		n := name + ".sort" + string(rune('0'+i))
		kd, set := sortKind(n, i == 1)
		x := i32Lit(n)
		s := &pb.SortField{Expr: x.P}
		set(s)
		sorts, sp = append(sorts, expr.SortField{Expr: x.E, Kind: kd}), append(sp, s)
	}
	a, ap := c.funcArgs(name, na == 2)(k)
	v := aggVariant(c.pick(name+".declared", 3, 0))
	e, err := expr.NewCustomAggregateFunc(c.reg, v, out.T, opts, types.AggregationInvocation(inv), types.AggregationPhase(ph), sorts, a...)
	if err != nil {
		panic(err)
	}
	return e, &pb.AggregateFunction{FunctionReference: c.reg.GetFuncAnchor(v.ID()), Arguments: ap, Options: opts, OutputType: out.P,
		Phase: pb.AggregationPhase(ph), Invocation: pb.AggregateFunction_AggregationInvocation(inv), Sorts: sp}
}
