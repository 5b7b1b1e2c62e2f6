package harness

import (
	"strconv"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

// ep is an expression together with the message the specification assigns to it.
type ep struct {
	E    expr.Expression
	P    *pb.Expression
	Kind string
	Kids []ep            // direct children, in the order of the message
	Mk   func(k []ep) ep // the same expression over other children
	Lits map[int]bool    // children that can only be literals
	Refs bool            // the children are within the root of a reference
}

// ectx is what expressions are built in.
type ectx struct {
	reg    expr.ExtensionRegistry
	schema *types.RecordType
	vary   bool           // vary the optional parts
	short  bool           // texts are one letter long
	shapes map[string]int // if not nil: what to pick for each part
}

func required(kind string) types.Type {
	return leafTypeWith(kind, "", types.NullabilityRequired, 0).T
}

func newCtx() *ectx {
	_, r := dialectRegistry()
	nn := types.NullabilityRequired
	return &ectx{reg: r, vary: true, schema: types.NewRecordTypeFromTypes([]types.Type{
		required("i32"),
		&types.StructType{Nullability: types.NullabilityNullable, Types: []types.Type{required("string"), &types.ListType{Nullability: nn, Type: required("i64")}}},
		&types.ListType{Nullability: nn, Type: &types.StructType{Nullability: nn, Types: []types.Type{required("date")}}},
		&types.MapType{Nullability: types.NullabilityNullable, Key: required("string"), Value: &types.StructType{Nullability: nn, Types: []types.Type{required("i8"), required("bool")}}},
	})}
}

func (c *ectx) pick(name string, n, fixed int) int {
	if !c.vary {
		return fixed
	}
	if c.shapes != nil {
		_, part, _ := strings.Cut(name, ".")
		if _, ok := c.shapes[part]; !ok {
			c.shapes[part] = sym.Choice(name, n)
		}
		return c.shapes[part]
	}
	return sym.Choice(name, n)
}

// text is a string of 0..2 letters, of one where nothing varies.
func (c *ectx) text(name string) string {
	if !c.vary || c.short || c.shapes != nil {
		return sym.String(name, 1, 1)
	}
	return sym.String(name, 0, 2)
}

// i32Lit is a required i32 literal of any value.
func i32Lit(name string) ep {
	x := sym.Int32(name)
	l := &expr.PrimitiveLiteral[int32]{Value: x, Type: &types.Int32Type{Nullability: types.NullabilityRequired}}
	return ep{E: l, P: litP(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: x}}), Kind: "literal"}
}

func litP(l *pb.Expression_Literal) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Literal_{Literal: l}}
}

func nullLit(t types.Type) ep {
	l := &expr.NullLiteral{Type: t.WithNullability(types.NullabilityNullable)}
	return ep{E: l, P: l.ToProto(), Kind: "literal"}
}

func argP(p *pb.Expression) *pb.FunctionArgument {
	return &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Value{Value: p}}
}

func es(k []ep) []expr.Expression {
	r := make([]expr.Expression, len(k))
	for i := range k {
		r[i] = k[i].E
	}
	return r
}

func ps(k []ep) []*pb.Expression {
	r := make([]*pb.Expression, len(k))
	for i := range k {
		r[i] = k[i].P
	}
	return r
}

// seg is a path of reference segments.
type seg struct {
	kind string // field, list, key
	n    int32
	key  lp
}

func segs(path []seg) (expr.ReferenceSegment, *pb.Expression_ReferenceSegment) {
	if len(path) == 0 {
		return nil, nil
	}
	c, p := segs(path[1:])
	switch s := path[0]; s.kind {
	case "field":
		return &expr.StructFieldRef{Field: s.n, Child: c},
			&pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{StructField: &pb.Expression_ReferenceSegment_StructField{Field: s.n, Child: p}}}
	case "list":
		return &expr.ListElementRef{Offset: s.n, Child: c},
			&pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_ListElement_{ListElement: &pb.Expression_ReferenceSegment_ListElement{Offset: s.n, Child: p}}}
	default:
		return &expr.MapKeyRef{MapKey: s.key.L, Child: c},
			&pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_MapKey_{MapKey: &pb.Expression_ReferenceSegment_MapKey{MapKey: s.key.P, Child: p}}}
	}
}

func fld(n int32) seg { return seg{kind: "field", n: n} }

// validPath is a path within the schema of newCtx.
func (c *ectx) validPath(name string) []seg {
	off := func() seg { return seg{kind: "list", n: sym.Int32(name + ".off")} }
	key := func() seg {
		return seg{kind: "key", key: litWith("string", name+".key", types.NullabilityRequired, 0)}
	}
	switch c.pick(name+".path", 7, 5) {
	case 0:
		return []seg{fld(0)}
	case 1:
		return []seg{fld(1)}
	case 2:
		return []seg{fld(1), fld(0)}
	case 3:
		return []seg{fld(1), fld(1), off()}
	case 4:
		return []seg{fld(2), off()}
	case 5:
		return []seg{fld(2), off(), fld(0)}
	}
	return []seg{fld(3), key(), fld(1)}
}

func selP(root any, p *pb.Expression_ReferenceSegment) *pb.Expression {
	f := &pb.Expression_FieldReference{ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: p}}
	switch r := root.(type) {
	case nil:
		f.RootType = &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}
	case expr.OuterReference:
		f.RootType = &pb.Expression_FieldReference_OuterReference_{OuterReference: &pb.Expression_FieldReference_OuterReference{StepsOut: uint32(r)}}
	case expr.LambdaParameterReference:
		f.RootType = &pb.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &pb.Expression_FieldReference_LambdaParameterReference{StepsOut: r.StepsOut}}
	case *pb.Expression:
		f.RootType = &pb.Expression_FieldReference_Expression{Expression: r}
	}
	return &pb.Expression{RexType: &pb.Expression_Selection{Selection: f}}
}

// maskP is a mask expression.
func (c *ectx) maskP(name string) *pb.Expression_MaskExpression {
	type (
		M  = pb.Expression_MaskExpression
		L  = pb.Expression_MaskExpression_ListSelect
		LI = pb.Expression_MaskExpression_ListSelect_ListSelectItem
		S  = pb.Expression_MaskExpression_Select
	)
	i := func(s string) int32 { return sym.Int32(name + "." + s) }
	str := func(n string, child *S) *pb.Expression_MaskExpression_StructSelect {
		return &pb.Expression_MaskExpression_StructSelect{StructItems: []*pb.Expression_MaskExpression_StructItem{{Field: i(n), Child: child}}}
	}
	leaf := func(n string) *S {
		return &S{Type: &pb.Expression_MaskExpression_Select_Struct{Struct: str(n, nil)}}
	}
	lst := func(child *S) *S {
		return &S{Type: &pb.Expression_MaskExpression_Select_List{List: &L{Child: child, Selection: []*LI{
			{Type: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Item{Item: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: i("elem")}}},
			{Type: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{Slice: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: i("start"), End: i("end")}}}}}}}
	}
	mp := func(child *S, byKey bool) *S {
		m := &pb.Expression_MaskExpression_MapSelect{Child: child}
		k := c.text(name + ".mapkey")
		if byKey {
			m.Select = &pb.Expression_MaskExpression_MapSelect_Key{Key: &pb.Expression_MaskExpression_MapSelect_MapKey{MapKey: k}}
		} else {
			m.Select = &pb.Expression_MaskExpression_MapSelect_Expression{Expression: &pb.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: k}}
		}
		return &S{Type: &pb.Expression_MaskExpression_Select_Map{Map: m}}
	}
	m := &M{MaintainSingularStruct: sym.Bool(name + ".singular")}
	switch c.pick(name+".mask", 8, 5) {
	case 0:
		m.Select = str("a", nil)
	case 1:
		m.Select = str("a", leaf("b"))
	case 2:
		m.Select = str("a", lst(nil))
	case 3:
		m.Select = str("a", lst(leaf("b")))
	case 4:
		m.Select = str("a", mp(nil, true))
	case 5:
		m.Select = str("a", mp(lst(nil), false))
	case 6:
		m.Select = str("a", mp(leaf("b"), true))
	case 7:
		m.Select = &pb.Expression_MaskExpression_StructSelect{StructItems: []*pb.Expression_MaskExpression_StructItem{{Field: i("a")}, {Field: i("b"), Child: lst(nil)}}}
	}
	return m
}

func (c *ectx) optionsP(name string, n int) []*types.FunctionOption {
	switch n {
	case 1:
		return []*types.FunctionOption{{Name: c.text(name + ".opt"), Preference: []string{c.text(name + ".pref"), "X"}}}
	case 2:
		return []*types.FunctionOption{{Name: "a"}, {Name: "b", Preference: []string{sym.String(name+".pref", 1, 1)}}}
	}
	return nil
}

func sortKind(name string, fn bool) (types.SortKind, func(*pb.SortField)) {
	if fn {
		r := sym.Uint32(name + ".cmp")
		return types.FunctionRef(r), func(s *pb.SortField) {
			s.SortKind = &pb.SortField_ComparisonFunctionReference{ComparisonFunctionReference: r}
		}
	}
	d := sym.Int32(name + ".dir")
	return types.SortDirection(d), func(s *pb.SortField) {
		s.SortKind = &pb.SortField_Direction{Direction: pb.SortField_SortDirection(d)}
	}
}

func bound(name string, k int) (expr.Bound, *pb.Expression_WindowFunction_Bound) {
	type B = pb.Expression_WindowFunction_Bound
	n := sym.Int64(name)
	switch k {
	case 1:
		return expr.PrecedingBound(n), &B{Kind: &pb.Expression_WindowFunction_Bound_Preceding_{Preceding: &pb.Expression_WindowFunction_Bound_Preceding{Offset: n}}}
	case 2:
		return expr.FollowingBound(n), &B{Kind: &pb.Expression_WindowFunction_Bound_Following_{Following: &pb.Expression_WindowFunction_Bound_Following{Offset: n}}}
	case 3:
		return expr.CurrentRow{}, &B{Kind: &pb.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &pb.Expression_WindowFunction_Bound_CurrentRow{}}}
	case 4:
		return expr.Unbounded{}, &B{Kind: &pb.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &pb.Expression_WindowFunction_Bound_Unbounded{}}}
	}
	return nil, nil
}

var exprKinds = []string{"literal", "field", "outer", "lambdaref", "mask", "dynparam",
	"exprref", "scalar", "window", "ifthen", "switch", "singularor", "multior", "cast", "mapexpr", "structexpr", "listexpr", "lambda"}

const exprLeaves = 6 // the first kinds have no children

// funcID is a declared or an undeclared function of the registry.
func funcID(name string, declared int) extensions.FunctionID {
	return []extensions.FunctionID{{URN: urnA, Name: name}, {URN: urnB, Name: "undeclared:dec_x"}, {URN: urnB, Name: "plain"}}[declared]
}

// funcArgs combines argument expressions with a type and an enum argument.
func (c *ectx) funcArgs(name string, extra bool) func(k []ep) ([]types.FuncArg, []*pb.FunctionArgument) {
	var e string
	var t tp
	if extra {
		e, t = c.text(name+".enum"), leafType("varchar", name+".typearg")
	}
	return func(k []ep) (a []types.FuncArg, p []*pb.FunctionArgument) {
		if extra {
			a = append(a, types.Enum(e))
			p = append(p, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: e}})
		}
		for _, x := range k {
			a, p = append(a, x.E), append(p, argP(x.P))
		}
		if extra {
			a = append(a, t.T.(types.FuncArg))
			p = append(p, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Type{Type: t.P}})
		}
		return a, p
	}
}

// exprOf makes an expression of a kind. kid(i, group) gives its children;
// children of one group have the same type.
func (c *ectx) exprOf(kind, name string, kid func(i int, group string) ep) ep {
	var n int
	groups := map[int]string{}
	var mk func(k []ep) ep
	lits := map[int]bool{}
	switch kind {
	case "literal":
		kinds := []string{"i32", "decimal", "interval_year", "null", "string", "interval_day_us"}
		l := litOf(kinds[c.pick(name+".lit", len(kinds), 1)], name)
		mk = func([]ep) ep { return ep{E: l.L, P: litP(l.P)} }
	case "field":
		path := c.validPath(name)
		s, p := segs(path)
		e, err := expr.NewRootFieldRef(s, c.schema)
		if err != nil {
			panic(err)
		}
		mk = func([]ep) ep { return ep{E: e, P: selP(nil, p)} }
	case "outer", "lambdaref":
		s, p := segs([]seg{fld(sym.Int32(name + ".field"))})
		var root expr.RootRefType = expr.OuterReference(sym.Uint32(name + ".steps"))
		if kind == "lambdaref" {
			root = expr.LambdaParameterReference{StepsOut: sym.Uint32(name + ".steps")}
		}
		mk = func([]ep) ep { return ep{E: &expr.FieldReference{Root: root, Reference: s}, P: selP(root, p)} }
	case "mask":
		m := c.maskP(name)
		p := selP(nil, nil)
		p.GetSelection().ReferenceType = &pb.Expression_FieldReference_MaskedReference{MaskedReference: m}
		mk = func([]ep) ep {
			return ep{E: &expr.FieldReference{Reference: expr.MaskExpressionFromProto(m)}, P: p}
		}
	case "dynparam":
		t := leafType("decimal", name+".t")
		r := sym.Uint32(name + ".ref")
		mk = func([]ep) ep {
			return ep{E: &expr.DynamicParameter{OutputType: t.T, ParameterReference: r},
				P: &pb.Expression{RexType: &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: t.P, ParameterReference: r}}}}
		}
	case "exprref":
		// a reference into a struct made of the child
		n = 1
		s, p := segs([]seg{fld(0)})
		mk = func(k []ep) ep {
			root := &expr.StructExpr{Fields: es(k)}
			e, err := expr.NewFieldRef(root, s, nil)
			if err != nil {
				panic(err)
			}
			return ep{E: e, P: selP(nestedP(false, 0, &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: ps(k)}}), p), Refs: true}
		}
	case "scalar":
		out := leafType("decimal", name+".out")
		shape := c.pick(name+".shape", 4, 3) // number of arguments; 3: two with further ones
		n = shape
		if shape == 3 {
			n = 2
		}
		opts := c.optionsP(name, c.pick(name+".opts", 3, 1))
		declared := c.pick(name+".declared", 3, 0)
		v := c.scalarVariant(declared)
		ref := c.reg.GetFuncAnchor(v.ID())
		args := c.funcArgs(name, shape == 3)
		mk = func(k []ep) ep {
			a, ap := args(k)
			e, err := expr.NewCustomScalarFunc(c.reg, v, out.T, opts, a...)
			if err != nil {
				panic(err)
			}
			return ep{E: e, P: &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{
				FunctionReference: ref, Arguments: ap, Options: opts, OutputType: out.P}}}}
		}
	case "window":
		out := leafType("varchar", name+".out")
		shape := c.pick(name+".shape", 3, 2)
		na, np, ns := shape, shape, shape
		n = na + np + ns
		opts := c.optionsP(name, c.pick(name+".opts", 2, 1))
		lo, lop := bound(name+".lower", c.pick(name+".lo", 5, 1))
		hi, hip := bound(name+".upper", c.pick(name+".hi", 5, 2))
		ph, inv, bt := sym.Int32(name+".phase"), sym.Int32(name+".inv"), sym.Int32(name+".bt")
		declared := c.pick(name+".declared", 3, 0)
		kinds := make([]types.SortKind, ns)
		sets := make([]func(*pb.SortField), ns)
		for i := range kinds {
			kinds[i], sets[i] = sortKind(name+".sort"+strconv.Itoa(i), i == 1)
		}
		v := c.windowVariant(declared)
		ref := c.reg.GetFuncAnchor(v.ID())
		args := c.funcArgs(name, shape == 2)
		mk = func(k []ep) ep {
			a, ap := args(k[:na])
			e, err := expr.NewCustomWindowFunc(c.reg, v, out.T, opts, types.AggregationInvocation(inv), types.AggregationPhase(ph), a...)
			if err != nil {
				panic(err)
			}
			e.Partitions = es(k[na : na+np])
			var sp []*pb.SortField
			for i, x := range k[na+np:] {
				e.Sorts = append(e.Sorts, expr.SortField{Expr: x.E, Kind: kinds[i]})
				s := &pb.SortField{Expr: x.P}
				sets[i](s)
				sp = append(sp, s)
			}
			e.LowerBound, e.UpperBound, e.BoundsType = lo, hi, types.BoundsType(bt)
			return ep{E: e, P: &pb.Expression{RexType: &pb.Expression_WindowFunction_{WindowFunction: &pb.Expression_WindowFunction{
				FunctionReference: ref, Arguments: ap, Options: opts, OutputType: out.P,
				Phase: pb.AggregationPhase(ph), Invocation: pb.AggregateFunction_AggregationInvocation(inv),
				BoundsType: pb.Expression_WindowFunction_BoundsType(bt), LowerBound: lop, UpperBound: hip, Partitions: ps(k[na : na+np]), Sorts: sp}}}}
		}
	case "ifthen":
		ifs := 1 + c.pick(name+".ifs", 2, 1)
		n = 2*ifs + 1
		for i := range ifs {
			groups[2*i+1] = "result"
		}
		groups[n-1] = "result"
		mk = func(k []ep) ep {
			var pairs []expr.IfThenPair
			var pp []*pb.Expression_IfThen_IfClause
			for i := range ifs {
				pairs = append(pairs, expr.IfThenPair{If: k[2*i].E, Then: k[2*i+1].E})
				pp = append(pp, &pb.Expression_IfThen_IfClause{If: k[2*i].P, Then: k[2*i+1].P})
			}
			e, err := expr.NewIfThen(pairs[0], k[n-1].E, pairs[1:]...)
			if err != nil {
				panic(err)
			}
			return ep{E: e, P: &pb.Expression{RexType: &pb.Expression_IfThen_{IfThen: &pb.Expression_IfThen{Ifs: pp, Else: k[n-1].P}}}}
		}
	case "switch":
		cases, els := 1+c.pick(name+".cases", 2, 1), c.pick(name+".else", 2, 1) == 1
		n = 1 + 2*cases
		groups[0] = "match"
		for i := range cases {
			groups[1+2*i], groups[2+2*i] = "case", "result"
			lits[1+2*i] = true
		}
		if els {
			groups[n] = "result"
			n++
		}
		mk = func(k []ep) ep {
			cs := make([]struct {
				If   expr.Literal
				Then expr.Expression
			}, cases)
			var pp []*pb.Expression_SwitchExpression_IfValue
			for i := range cases {
				cs[i].If, cs[i].Then = k[1+2*i].E.(expr.Literal), k[2+2*i].E
				pp = append(pp, &pb.Expression_SwitchExpression_IfValue{If: k[1+2*i].P.GetLiteral(), Then: k[2+2*i].P})
			}
			sw := &pb.Expression_SwitchExpression{Match: k[0].P, Ifs: pp}
			var el expr.Expression
			if els {
				el, sw.Else = k[n-1].E, k[n-1].P
			}
			e, err := expr.NewSwitch(k[0].E, el, cs...)
			if err != nil {
				panic(err)
			}
			return ep{E: e, P: &pb.Expression{RexType: &pb.Expression_SwitchExpression_{SwitchExpression: sw}}}
		}
	case "singularor":
		n = 1 + c.pick(name+".options", 3, 2)
		mk = func(k []ep) ep {
			return ep{E: &expr.SingularOrList{Value: k[0].E, Options: es(k[1:])},
				P: &pb.Expression{RexType: &pb.Expression_SingularOrList_{SingularOrList: &pb.Expression_SingularOrList{Value: k[0].P, Options: ps(k[1:])}}}}
		}
	case "multior":
		nv, no := 1+c.pick(name+".values", 2, 1), c.pick(name+".options", 3, 2)
		n = nv * (1 + no)
		mk = func(k []ep) ep {
			e := &expr.MultiOrList{Value: es(k[:nv]), Options: [][]expr.Expression{}}
			p := &pb.Expression_MultiOrList{Value: ps(k[:nv])}
			for i := 1; i <= no; i++ {
				e.Options = append(e.Options, es(k[i*nv:(i+1)*nv]))
				p.Options = append(p.Options, &pb.Expression_MultiOrList_Record{Fields: ps(k[i*nv : (i+1)*nv])})
			}
			return ep{E: e, P: &pb.Expression{RexType: &pb.Expression_MultiOrList_{MultiOrList: p}}}
		}
	case "cast":
		n = 1
		t := leafType("precision_time", name+".t")
		f := sym.Int32(name + ".fail")
		mk = func(k []ep) ep {
			return ep{E: &expr.Cast{Type: t.T, Input: k[0].E, FailureBehavior: types.CastFailBehavior(f)},
				P: &pb.Expression{RexType: &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Type: t.P, Input: k[0].P, FailureBehavior: pb.Expression_Cast_FailureBehavior(f)}}}}
		}
	case "mapexpr":
		pairs := 1 + c.pick(name+".pairs", 2, 1)
		n = 2 * pairs
		nl, tv := sym.Bool(name+".nullable"), sym.Uint32(name+".var")
		mk = func(k []ep) ep {
			kv := make([]struct{ Key, Value expr.Expression }, pairs)
			var pp []*pb.Expression_Nested_Map_KeyValue
			for i := range kv {
				kv[i].Key, kv[i].Value = k[2*i].E, k[2*i+1].E
				pp = append(pp, &pb.Expression_Nested_Map_KeyValue{Key: k[2*i].P, Value: k[2*i+1].P})
			}
			return ep{E: &expr.MapExpr{Nullable: nl, TypeVariationRef: tv, KeyValues: kv}, P: nestedP(nl, tv, &pb.Expression_Nested_Map_{Map: &pb.Expression_Nested_Map{KeyValues: pp}})}
		}
	case "structexpr":
		n = c.pick(name+".fields", 3, 2)
		nl, tv := sym.Bool(name+".nullable"), sym.Uint32(name+".var")
		mk = func(k []ep) ep {
			return ep{E: &expr.StructExpr{Nullable: nl, TypeVariationRef: tv, Fields: es(k)}, P: nestedP(nl, tv, &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: ps(k)}})}
		}
	case "listexpr":
		n = 1 + c.pick(name+".values", 2, 1)
		nl, tv := sym.Bool(name+".nullable"), sym.Uint32(name+".var")
		mk = func(k []ep) ep {
			return ep{E: &expr.ListExpr{Nullable: nl, TypeVariationRef: tv, Values: es(k)}, P: nestedP(nl, tv, &pb.Expression_Nested_List_{List: &pb.Expression_Nested_List{Values: ps(k)}})}
		}
	case "lambda":
		n = 1
		var ts []types.Type
		var tps []*pb.Type
		for i := range c.pick(name+".params", 3, 2) {
			t := leafType([]string{"i32", "varchar"}[i], name+".p"+strconv.Itoa(i))
			ts, tps = append(ts, t.T), append(tps, t.P)
		}
		tv := sym.Uint32(name + ".var")
		mk = func(k []ep) ep {
			return ep{E: &expr.Lambda{Parameters: &types.StructType{Nullability: types.NullabilityRequired, TypeVariationRef: tv, Types: ts}, Body: k[0].E},
				P: &pb.Expression{RexType: &pb.Expression_Lambda_{Lambda: &pb.Expression_Lambda{Body: k[0].P,
					Parameters: &pb.Type_Struct{Types: tps, TypeVariationReference: tv, Nullability: pb.Type_NULLABILITY_REQUIRED}}}}}
		}
	default:
		panic("exprOf " + kind)
	}
	kids := make([]ep, n)
	for i := range kids {
		kids[i] = kid(i, groups[i])
	}
	var make1 func(k []ep) ep
	make1 = func(k []ep) ep {
		r := mk(k)
		r.Kind, r.Kids, r.Lits, r.Mk = kind, k, lits, make1
		return r
	}
	return make1(kids)
}

func nestedP(nullable bool, v uint32, n any) *pb.Expression {
	e := &pb.Expression_Nested{Nullable: nullable, TypeVariationReference: v}
	switch x := n.(type) {
	case *pb.Expression_Nested_Map_:
		e.NestedType = x
	case *pb.Expression_Nested_Struct_:
		e.NestedType = x
	case *pb.Expression_Nested_List_:
		e.NestedType = x
	}
	return &pb.Expression{RexType: &pb.Expression_Nested_{Nested: e}}
}

// flatExpr is an expression of the kind over literals.
func (c *ectx) flatExpr(kind, name string) ep {
	return c.exprOf(kind, name, func(i int, _ string) ep { return i32Lit(name + "." + strconv.Itoa(i)) })
}

func (c *ectx) kind(name string) string { return exprKinds[sym.Choice(name, len(exprKinds))] }

// anyExpr is an expression of any kind over literals (depth 1) or with one child,
// in any position, that is any expression of the next depth.
func (c *ectx) anyExpr(name string, depth int) ep {
	return c.anyExprOf(c.kind(name+".kind"), name, depth)
}

func (c *ectx) anyExprOf(kind, name string, depth int) ep {
	if depth <= 1 || kind == "literal" || kind == "field" || kind == "outer" || kind == "lambdaref" || kind == "mask" || kind == "dynparam" {
		return c.flatExpr(kind, name)
	}
	vary := c.vary
	c.vary = sym.Deep() && depth == 2
	hot := c.anyExpr(name+".hot", depth-1)
	at := sym.Choice(name+".at", maxKids)
	most := -1
	hotGroup := ""
	// the group of the hot child is needed before its siblings are made
	c.exprOf(kind, name, func(i int, g string) ep {
		most = i
		if i == at {
			hotGroup = g
		}
		return i32Lit(name + "." + strconv.Itoa(i))
	})
	sym.Assume(at <= most)
	if hotGroup == "case" {
		hotGroup = "match"
		hot = nullLit(required("date"))
	}
	if hot.E.GetType() == nil && hotGroup != "" {
		// outer references have no type
		hot = c.exprOf("cast", name+".typed", func(int, string) ep { return hot })
	}
	r := c.exprOf(kind, name, func(i int, g string) ep {
		switch {
		case i == at:
			return hot
		case hotGroup == "match" && (g == "match" || g == "case"):
			return nullLit(hot.E.GetType())
		case hotGroup == "result" && g == "result":
			return hot
		}
		return i32Lit(name + "." + strconv.Itoa(i))
	})
	c.vary = vary
	return r
}

const maxKids = 6

func (c *ectx) scalarVariant(declared int) *extensions.ScalarFunctionVariant {
	return extensions.NewScalarFuncVariant(funcID("add:i32_i32", declared))
}

func (c *ectx) windowVariant(declared int) *extensions.WindowFunctionVariant {
	return extensions.NewWindowFuncVariant(funcID("sum:i32_i32", declared))
}

func aggVariant(declared int) *extensions.AggregateFunctionVariant {
	return extensions.NewAggFuncVariant(funcID("sum:i32_i32", declared))
}
