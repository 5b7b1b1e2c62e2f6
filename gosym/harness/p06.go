package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("P06",
	H{F: P06Exprs, Bounds: "a parameter as any child of any expression in a projection, up to two expressions deep, and a binding of any 32-bit anchor", Reach: []string{"accepted", "rejected"}},
	H{F: P06Rels, Bounds: "a parameter in any expression of any relation with 0..2 of its parts, and a binding of any 32-bit anchor", Reach: []string{"accepted", "rejected"}},
	H{F: P06Filters, Bounds: "a parameter in any filter, function argument or sort of any relation, and a binding of any 32-bit anchor", Reach: []string{"accepted", "rejected"}},
	H{F: P06Where, Bounds: "a parameter in a relation below every relation, in another relation of the plan, in an extension or in the relation of a subquery, and a binding of any 32-bit anchor", Reach: []string{"accepted", "rejected"}},
	H{F: P06Bindings, Bounds: "0..2 parameters and 0..2 bindings of any 32-bit anchors", Reach: []string{"accepted", "rejected"}},
	H{F: P06Types, Bounds: "a parameter and a value of two of 10 kinds of type with any parameters, nullability and variation", Reach: []string{"accepted", "rejected"}},
)

// param is a dynamic parameter.
type param struct {
	ep
	anchor uint32
	t      tp
}

func paramOf(name string, t tp) param {
	r := sym.Uint32(name + ".anchor")
	return param{ep{E: &expr.DynamicParameter{OutputType: t.T, ParameterReference: r},
		P: &pb.Expression{RexType: &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: t.P, ParameterReference: r}}}}, r, t}
}

func i32Type() tp { return leafTypeWith("i32", "", types.NullabilityRequired, 0) }

func i32Param(name string) param { return paramOf(name, i32Type()) }

// bound1 checks a binding of any anchor to the only parameter of a plan.
func (c *rctx) bound1(p param, root plan.Rel, others ...plan.Rel) {
	anchor := sym.Uint32("binding")
	c.bound([]plan.DynamicParameterBinding{{ParameterAnchor: anchor, Value: i32Lit("value").E.(expr.Literal)}}, anchor == p.anchor, root, others...)
}

// bound checks that a plan of relations is made with the bindings exactly if
// they are valid.
func (c *rctx) bound(bs []plan.DynamicParameterBinding, valid bool, root plan.Rel, others ...plan.Rel) {
	before := root.ToProto()
	if len(others) == 0 {
		err := plan.ValidateParameterBindings(root, bs)
		if err != nil {
			sym.Assert(!valid, "bindings that fit are accepted")
		} else {
			sym.Assert(valid, "bindings that do not fit are rejected")
		}
	}
	t := root.RecordType()
	names := make([]string, t.AsStructType().DepthFirstNameCount())
	p, err := c.b.PlanWithBindings(root, names, nil, bs, others...)
	sym.Assert(sym.ProtoEqual(root.ToProto(), before), "the relation is kept")
	if err != nil {
		sym.Assert(!valid, "a plan with bindings that fit is made")
		sym.Assert(p == nil, "no plan with an error")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "a plan with bindings that do not fit is rejected")
	got := p.ParameterBindings()
	sym.Assert(len(got) == len(bs), "all bindings are in the plan")
	for i, b := range bs {
		sym.Assert(got[i].ParameterAnchor == b.ParameterAnchor && got[i].Value == b.Value, "the bindings of the plan")
	}
	sym.Reach("accepted")
}

func castTo(t types.Type, e ep) ep {
	return ep{E: &expr.Cast{Type: t, Input: e.E, FailureBehavior: types.BehaviorThrowException}}
}

func P06Exprs() {
	c := newRctx()
	c.direct = true
	c.ectx.vary = false
	in := c.scan("in", columns("in", 2))
	p := i32Param("p")
	e := p.ep
	for d := range sym.Choice("depth", 3) {
		name := "e" + strconv.Itoa(d)
		kind := exprKinds[exprLeaves+sym.Choice(name+".kind", len(exprKinds)-exprLeaves)]
		at := sym.Choice(name+".at", maxKids)
		most, group := -1, ""
		if d == 0 {
			sym.Case(kind + " " + strconv.Itoa(at))
		}
		groups := map[int]string{}
		c.exprOf(kind, name, func(i int, g string) ep {
			most, groups[i] = i, g
			return i32Lit("k" + strconv.Itoa(i))
		})
		if at > most || groups[at] == "case" {
			return // a case is a literal
		}
		group = groups[at]
		if group == "match" {
			e = castTo(e.E.GetType().WithNullability(types.NullabilityNullable), e)
		}
		r := c.exprOf(kind, name, func(i int, g string) ep {
			switch {
			case i == at:
				return e
			case group == "match" && g == "case":
				return nullLit(e.E.GetType())
			case group == "result" && g == "result":
				return castTo(e.E.GetType(), i32Lit("k"+strconv.Itoa(i)))
			}
			return i32Lit("k" + strconv.Itoa(i))
		})
		e = r
	}
	root, err := c.b.Project(in.R, e.E)
	sym.Assert(err == nil, "projected")
	c.bound1(p, root)
}

// placed puts the parameter into one of the expressions of a relation.
func (c *rctx) placed(p param, focus []string) {
	c.focus, c.direct = focus, true
	x, _ := c.over("r")
	all := slots(x.P)
	if len(all) == 0 {
		return
	}
	s := all[sym.Choice("which", len(all))]
	q := p.P
	if s.p.GetSelection() != nil {
		// a reference into a structure made of the parameter
		q = c.exprOf("exprref", "ref", func(int, string) ep { return p.ep }).P
	}
	s.set(q)
	r, err := plan.RelFromProto(x.P, c.reg)
	if err != nil {
		// some expressions have to be of another type
		return
	}
	c.bound1(p, r)
}

func P06Rels() {
	c := newRctx()
	c.placed(i32Param("p"), []string{"rows", "n", "groups", "measures", "keys"})
}

func P06Filters() {
	c := newRctx()
	c.placed(i32Param("p"), detailParts)
}

// paramDef is the definition of an extension with an expression.
type paramDef struct {
	extDef
	e expr.Expression
}

func (d *paramDef) Expressions([]plan.Rel) []expr.Expression { return []expr.Expression{d.e} }

func P06Where() {
	c := newRctx()
	c.focus, c.direct, c.plain = []string{}, true, "r"
	c.ectx.vary = false
	p := i32Param("p")
	in := c.scan("in", columns("in", 2))
	proj, err := c.b.ProjectRemap(in.R, []int32{0, 2}, p.E)
	sym.Assert(err == nil, "projected")
	with := rp{R: proj, P: proj.ToProto(), Out: []types.Type{in.Out[0], i32Type().T}}
	switch sym.Choice("where", 4) {
	case 0:
		kind := relKinds[relLeaves+sym.Choice("kind", len(relKinds)-relLeaves)]
		sym.Case("below " + kind)
		ins := []rp{with}
		if inputs(kind) == 2 {
			ins = append(ins, in)
			if kind == "set" {
				ins[1] = with
			}
			if sym.Choice("side", 2) == 1 {
				ins[0], ins[1] = ins[1], ins[0]
			}
		}
		x, _ := c.relOf(kind, "r", ins...)
		c.bound1(p, c.decoded(x.P))
	case 1:
		sym.Case("another relation")
		c.bound1(p, in.R, in.R, with.R)
	case 2:
		sym.Case("extension")
		def := &paramDef{extDef{in.Out, anyP("detail")}, p.E}
		var r plan.Rel
		switch sym.Choice("inputs", 3) {
		case 0:
			r, err = res(c.b.ExtensionLeaf(def))
		case 1:
			r, err = res(c.b.ExtensionSingle(in.R, def))
		case 2:
			r, err = res(c.b.ExtensionMulti([]plan.Rel{in.R}, def))
		}
		sym.Assert(err == nil, "extension made")
		c.bound1(p, r)
	case 3:
		kind := subKinds[sym.Choice("sub", len(subKinds))]
		sym.Case("subquery " + kind)
		over := with
		var e ep
		if kind != "scalar" && sym.Choice("needle", 2) == 1 {
			if kind == "exists" {
				return
			}
			over = c.scan("over", columns("over", 1))
			if kind == "in" {
				s, err := c.b.InPredicateSubquery([]expr.Expression{p.E}, over.R)
				sym.Assert(err == nil, "subquery made")
				e.E = s
			} else {
				e.E = plan.NewSetComparisonSubquery(plan.SetComparisonReductionOpAny, plan.SetComparisonComparisonOpEq, p.E, over.R)
			}
		} else {
			if kind == "scalar" {
				r, err := with.R.Remap(1)
				sym.Assert(err == nil, "mapped")
				over = rp{R: r, P: r.ToProto(), Out: with.Out[1:]}
			}
			e = c.subquery(kind, "s", over, in.Out)
		}
		r, err := c.b.Project(in.R, e.E)
		sym.Assert(err == nil, "projected")
		c.bound1(p, r)
	}
}

func P06Bindings() {
	c := newRctx()
	c.direct = true
	in := c.scan("in", columns("in", 1))
	var ps []param
	es := []expr.Expression{i32Lit("l").E}
	for i := range sym.Choice("params", 3) {
		p := i32Param("p" + strconv.Itoa(i))
		ps, es = append(ps, p), append(es, p.E)
	}
	var bs []plan.DynamicParameterBinding
	valid := true
	for i := range sym.Choice("bindings", 3) {
		a := sym.Uint32("b" + strconv.Itoa(i))
		bs = append(bs, plan.DynamicParameterBinding{ParameterAnchor: a, Value: i32Lit("v" + strconv.Itoa(i)).E.(expr.Literal)})
		occurs := false
		for _, p := range ps {
			occurs = sym.Or(occurs, p.anchor == a)
		}
		valid = sym.And(valid, occurs)
		if i > 0 {
			sym.Assume(a != bs[0].ParameterAnchor)
		}
	}
	r, err := c.b.Project(in.R, es...)
	sym.Assert(err == nil, "projected")
	c.bound(bs, valid, r)
}

var bindKinds = []string{"i32", "i64", "string", "decimal", "varchar", "fixedchar", "precision_timestamp", "precision_timestamp_tz", "date", "uuid"}

func P06Types() {
	c := newRctx()
	c.direct = true
	in := c.scan("in", columns("in", 1))
	kt := sym.Choice("type", len(bindKinds)+1)
	kv := sym.Choice("value", len(bindKinds)+1)
	t, tv := bindType(kt, "t")
	var l expr.Literal
	var lv uint32
	if kv == len(bindKinds) {
		// a null of a list type
		n, v := bindType(kv, "v")
		l, lv = &expr.NullLiteral{Type: n.T}, v
	} else {
		x := litOf(bindKinds[kv], "v")
		l = x.L
		lv = l.GetType().GetTypeVariationReference()
	}
	sym.Case(t.T.ShortString() + " " + l.GetType().ShortString())
	p := paramOf("p", t)
	r, err := c.b.Project(in.R, p.E)
	sym.Assert(err == nil, "projected")
	valid := kt == kv
	if valid {
		valid = sym.And(tv == lv, sym.ProtoEqual(nullable(types.TypeToProto(l.GetType())), nullable(t.P)))
	}
	c.bound([]plan.DynamicParameterBinding{{ParameterAnchor: p.anchor, Value: l}}, valid, r)
}

// bindType is a type of one of the kinds or a list.
func bindType(k int, name string) (tp, uint32) {
	v := sym.Uint32(name + ".var")
	if k == len(bindKinds) {
		e := leafType("i32", name+".elem")
		n := nul2(name + ".nul")
		return tp{T: &types.ListType{Nullability: n, TypeVariationRef: v, Type: e.T},
			P: &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Nullability: pb.Type_Nullability(n), TypeVariationReference: v, Type: e.P}}}}, v
	}
	return leafTypeWith(bindKinds[k], name, nul(name+".nul"), v), v
}

// nullable is the type made nullable.
func nullable(p *pb.Type) *pb.Type {
	n := pb.Type_NULLABILITY_NULLABLE
	switch k := p.Kind.(type) {
	case *pb.Type_I32_:
		return &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: n}}}
	case *pb.Type_I64_:
		return &pb.Type{Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: n}}}
	case *pb.Type_String_:
		return &pb.Type{Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: n}}}
	case *pb.Type_Date_:
		return &pb.Type{Kind: &pb.Type_Date_{Date: &pb.Type_Date{Nullability: n}}}
	case *pb.Type_Uuid:
		return &pb.Type{Kind: &pb.Type_Uuid{Uuid: &pb.Type_UUID{Nullability: n}}}
	case *pb.Type_Decimal_:
		return &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Nullability: n, Precision: k.Decimal.Precision, Scale: k.Decimal.Scale}}}
	case *pb.Type_Varchar:
		return &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Nullability: n, Length: k.Varchar.Length}}}
	case *pb.Type_FixedChar_:
		return &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Nullability: n, Length: k.FixedChar.Length}}}
	case *pb.Type_PrecisionTimestamp_:
		return &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Nullability: n, Precision: k.PrecisionTimestamp.Precision}}}
	case *pb.Type_PrecisionTimestampTz:
		return &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Nullability: n, Precision: k.PrecisionTimestampTz.Precision}}}
	case *pb.Type_List_:
		return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Nullability: n, Type: k.List.Type}}}
	}
	panic("type")
}
