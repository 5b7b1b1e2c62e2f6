package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("P04",
	H{F: P04Refs, Bounds: "field references, sort fields and group columns by any 32-bit index over inputs of 0..3 emitted columns", Reach: []string{"accepted", "rejected"}},
	H{F: P04Mapping, Bounds: "every builder call that takes a mapping, over inputs that emit two of three columns, with 0..2 arbitrary 32-bit indices", Reach: []string{"accepted", "rejected"}},
	H{F: P04Nil, Bounds: "every builder call with each relation, expression and definition absent", Reach: []string{"rejected"}},
	H{F: P04Tables, Bounds: "virtual tables of 0..2 fields and 0..2 rows of 0..2 values, or of literals, of two types; rowless tables of 0..2 names and types", Reach: []string{"accepted", "rejected"}},
	H{F: P04Conditions, Bounds: "filters and joins with conditions and post-join filters of boolean and other types of any nullability", Reach: []string{"accepted", "rejected"}},
	H{F: P04Sets, Bounds: "set operations of 0..3 inputs of two types of columns, any operation", Reach: []string{"accepted", "rejected"}},
	H{F: P04Aggregates, Bounds: "aggregates of 0..2 keys, 0..1 measures and 0..2 grouping sets of 0..2 arbitrary references", Reach: []string{"accepted", "rejected"}},
	H{F: P04Grouping, Bounds: "grouping sets, rollups and cubes of 0..3 keys; a cube of 21 keys", Reach: []string{"grouping", "too large"}},
	H{F: P04Subqueries, Bounds: "subqueries over 0..3 columns with 0..3 needles and any operations", Reach: []string{"accepted", "rejected"}},
	H{F: P04Plan, Bounds: "plans with 0..4 names over a root of 0..2 columns, one of which may be a struct, and 0..2 other relations", Reach: []string{"accepted", "rejected"}},
	H{F: P04History, Bounds: "any two builder calls over inputs whose column types are adjacent parts of one list, followed by a join reference; aggregates changed after being built", Reach: []string{"calls", "aggregate"}},
)

// decided checks that a builder call fails exactly if its arguments are not
// valid, and that what it returns is valid.
func (c *rctx) decided(r plan.Rel, err error, valid bool) {
	if err != nil {
		sym.Assert(!valid, "valid arguments are accepted")
		sym.Assert(r == nil, "no relation with an error")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "invalid arguments are rejected")
	c.usable(r)
	sym.Reach("accepted")
}

// usable checks that a relation can be asked for its columns and encoded.
func (c *rctx) usable(r plan.Rel) {
	t := r.RecordType()
	d, err := plan.RelFromProto(r.ToProto(), c.reg)
	sym.Assert(err == nil, "the relation can be decoded")
	sameTypes(d.RecordType(), t.Types(), "the decoded relation")
}

func (c *rctx) emits(name string, n int) rp { return c.mapped(name, columns(name, n)) }

func P04Refs() {
	c := newRctx()
	n := sym.Choice("cols", 4)
	in := c.emits("in", n)
	i := sym.Int32("i")
	total := in.Out
	var ref *expr.FieldReference
	var err error
	switch sym.Choice("call", 4) {
	case 0:
		sym.Case("RootFieldRef")
		ref, err = c.b.RootFieldRef(in.R, i)
	case 1:
		sym.Case("JoinedRecordFieldRef")
		other := c.emits("other", sym.Choice("others", 3))
		total = joined("inner", in.Out, other.Out)
		ref, err = c.b.JoinedRecordFieldRef(in.R, other.R, i)
	case 2:
		sym.Case("SortFields")
		j := sym.Int32("j")
		var s []expr.SortField
		s, err = c.b.SortFields(in.R, i, j)
		valid := sym.And(sym.And(i >= 0, i < int32(n)), sym.And(j >= 0, j < int32(n)))
		if err != nil {
			sym.Assert(!valid, "valid columns are accepted")
			sym.Reach("rejected")
			return
		}
		sym.Assert(valid, "columns outside the input are rejected")
		sym.Assert(len(s) == 2, "as many sorts")
		ref = s[1].Expr.(*expr.FieldReference)
		sym.Assert(s[0].Expr.GetType().Equals(applied([]int32{i}, total)[0]), "the type of the first column")
		i = j
	case 3:
		sym.Case("AggregateColumns")
		r, aerr := c.b.AggregateColumns(in.R, nil, i)
		valid := sym.And(i >= 0, i < int32(n))
		if aerr == nil {
			sym.Assert(valid, "columns outside the input are rejected")
			sameTypes(r.RecordType(), applied([]int32{i}, total), "the aggregate")
			c.usable(r)
			sym.Reach("accepted")
			return
		}
		sym.Assert(!valid, "valid columns are accepted")
		sym.Reach("rejected")
		return
	}
	valid := sym.And(i >= 0, i < int32(len(total)))
	if err != nil {
		sym.Assert(!valid, "valid columns are accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "columns outside the input are rejected")
	sym.Assert(ref.GetType().Equals(applied([]int32{i}, total)[0]), "the type of the column")
	_, p := segs([]seg{fld(i)})
	sym.Assert(sym.ProtoEqual(ref.ToProto(), selP(nil, p)), "a reference to the column")
	sym.Reach("accepted")
}

func P04Mapping() {
	c := newRctx()
	c.focus = []string{"emit", "op"}
	c.anyIndex = true
	kind := c.relKind("kind")
	var in []rp
	for i := range inputs(kind) {
		n := "in" + strconv.Itoa(i)
		if kind == "set" {
			n = "in"
		}
		in = append(in, c.emits(n, 2))
		if i > 0 && kind == "set" {
			in[1] = in[0]
		}
	}
	x, build := c.relOf(kind, "r", in...)
	if build == nil {
		return
	}
	valid := true
	for _, i := range x.Map {
		valid = sym.And(valid, sym.And(i >= 0, i < int32(len(x.All))))
	}
	r, err := build()
	c.decided(r, err, valid)
	if err == nil {
		sameTypes(r.RecordType(), x.Out, "the relation")
	}
}

// nilCalls are builder calls that lack something.
var nilCalls = []struct {
	name string
	f    func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error)
}{
	{"Project", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) { return res(c.b.Project(nil, e)) }},
	{"Project nothing", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) { return res(c.b.Project(in)) }},
	{"Project nil", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Project(in, e, nil))
	}},
	{"Filter", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Filter(nil, cond))
	}},
	{"Filter nil", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) { return res(c.b.Filter(in, nil)) }},
	{"Fetch", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Fetch(nil, 0, 1))
	}},
	{"Sort", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Sort(nil, expr.SortField{Expr: e, Kind: types.SortAscNullsLast}))
	}},
	{"Sort nothing", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) { return res(c.b.Sort(in)) }},
	{"Sort nil", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Sort(in, expr.SortField{Expr: e, Kind: types.SortAscNullsLast}, expr.SortField{Kind: types.SortAscNullsLast}))
	}},
	{"Cross left", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) { return res(c.b.Cross(nil, in)) }},
	{"Cross right", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) { return res(c.b.Cross(in, nil)) }},
	{"Join left", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Join(nil, in, cond, plan.JoinTypeInner))
	}},
	{"Join right", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Join(in, nil, cond, plan.JoinTypeInner))
	}},
	{"Join condition", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Join(in, in, nil, plan.JoinTypeInner))
	}},
	{"Join type", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Join(in, in, cond, plan.JoinTypeUnspecified))
	}},
	{"Set first", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Set(plan.SetOpUnionAll, nil, in))
	}},
	{"Set last", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.Set(plan.SetOpUnionAll, in, in, nil))
	}},
	{"CreateTableAsSelect", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.CreateTableAsSelect(nil, []string{"t"}, types.NamedStruct{}))
	}},
	{"NamedInsert", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.NamedInsert(nil, []string{"t"}, types.NamedStruct{}))
	}},
	{"NamedDelete", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.NamedDelete(nil, []string{"t"}, types.NamedStruct{}))
	}},
	{"VirtualTable", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.VirtualTable([]string{"a"}, expr.StructLiteralValue{nil}))
	}},
	{"VirtualTableFromExpr", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.VirtualTableFromExpr([]string{"a"}, expr.VirtualTableExpressionValue{e}, expr.VirtualTableExpressionValue{nil}))
	}},
	{"EmptyVirtualTable", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.EmptyVirtualTable([]string{"a"}, []types.Type{nil}))
	}},
	{"AggregateColumns", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.AggregateColumns(nil, nil, 0))
	}},
	{"AggregateExprs", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.AggregateExprs(nil, nil, []expr.Expression{e}))
	}},
	{"AggregateExprs nil", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.AggregateExprs(in, nil, []expr.Expression{e, nil}))
	}},
	{"AggregateExprs nothing", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.AggregateExprs(in, nil))
	}},
	{"AggregateExprs measure", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.AggregateExprs(in, []plan.AggRelMeasure{c.b.Measure(nil, nil)}, []expr.Expression{e}))
	}},
	{"ExtensionSingle", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.ExtensionSingle(nil, &extDef{}))
	}},
	{"ExtensionSingle definition", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.ExtensionSingle(in, nil))
	}},
	{"ExtensionLeaf", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.ExtensionLeaf(nil))
	}},
	{"ExtensionMulti", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.ExtensionMulti([]plan.Rel{in, nil}, &extDef{}))
	}},
	{"ExtensionMulti nothing", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.ExtensionMulti(nil, &extDef{}))
	}},
	{"ExtensionMulti definition", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		return res(c.b.ExtensionMulti([]plan.Rel{in}, nil))
	}},
	{"RootFieldRef", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.RootFieldRef(nil, 0)
		return nil, err
	}},
	{"JoinedRecordFieldRef left", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.JoinedRecordFieldRef(nil, in, 0)
		return nil, err
	}},
	{"JoinedRecordFieldRef right", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.JoinedRecordFieldRef(in, nil, 0)
		return nil, err
	}},
	{"SortFields", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.SortFields(nil, 0)
		return nil, err
	}},
	{"ScalarSubquery", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.ScalarSubquery(nil)
		return nil, err
	}},
	{"InPredicateSubquery", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.InPredicateSubquery([]expr.Expression{e, e}, nil)
		return nil, err
	}},
	{"InPredicateSubquery needle", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.InPredicateSubquery([]expr.Expression{e, nil}, in)
		return nil, err
	}},
	{"SetPredicateSubquery", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.SetPredicateSubquery(nil, plan.SetPredicateOpExists)
		return nil, err
	}},
	{"SetComparisonSubquery left", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.SetComparisonSubquery(nil, in, plan.SetComparisonReductionOpAny, plan.SetComparisonComparisonOpEq)
		return nil, err
	}},
	{"SetComparisonSubquery right", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.SetComparisonSubquery(e, nil, plan.SetComparisonReductionOpAny, plan.SetComparisonComparisonOpEq)
		return nil, err
	}},
	{"Plan", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.Plan(nil, nil)
		return nil, err
	}},
	{"Plan other", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		_, err := c.b.Plan(in, []string{"a", "b"}, nil)
		return nil, err
	}},
	{"Plan binding", func(c *rctx, in plan.Rel, e, cond expr.Expression) (plan.Rel, error) {
		t := types.Type(&types.Int32Type{})
		p, err := c.b.Project(in, &expr.DynamicParameter{OutputType: t, ParameterReference: 1})
		if err != nil {
			return nil, nil
		}
		_, err = c.b.PlanWithBindings(p, []string{"a", "b", "c"}, nil, []plan.DynamicParameterBinding{{ParameterAnchor: 1}})
		return nil, err
	}},
}

func P04Nil() {
	c := newRctx()
	k := nilCalls[sym.Choice("call", len(nilCalls))]
	sym.Case(k.name)
	in := c.emits("in", 2)
	b := ep{E: &expr.PrimitiveLiteral[bool]{Value: true, Type: &types.BooleanType{}}}
	r, err := k.f(c, in.R, i32Lit("e").E, b.E)
	sym.Assert(err != nil, "an error")
	sym.Assert(r == nil, "no relation with an error")
	sym.Reach("rejected")
}

func (c *rctx) lit(name string, kind int) ep {
	if kind == 0 {
		return i32Lit(name)
	}
	x := sym.Int64(name)
	return ep{E: &expr.PrimitiveLiteral[int64]{Value: x, Type: &types.Int64Type{Nullability: types.NullabilityRequired}},
		P: litP(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: x}})}
}

func P04Tables() {
	c := newRctx()
	n := sym.Choice("fields", 3)
	var names []string
	for i := range n {
		names = append(names, sym.String("n"+strconv.Itoa(i), 0, 1))
	}
	rows := sym.Choice("rows", 3)
	how := sym.Choice("how", 3)
	if how == 2 {
		sym.Case("EmptyVirtualTable")
		var ts []types.Type
		want := rows
		for i := range rows {
			t := leafType("decimal", "t"+strconv.Itoa(i)).T
			if i == 1 && sym.Choice("struct", 2) == 1 {
				t = &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{t}}
				want++
			}
			ts = append(ts, t)
		}
		if sym.Choice("more", 2) == 1 {
			names = append(names, "more")
			n++
		}
		r, err := res(c.b.EmptyVirtualTable(names, ts))
		c.decided(r, err, n == want)
		if err == nil {
			sameTypes(r.RecordType(), ts, "the table")
		}
		return
	}
	valid := rows > 0
	var want []types.Type
	var es []expr.VirtualTableExpressionValue
	var ls []expr.StructLiteralValue
	for i := range rows {
		w := sym.Choice("width"+strconv.Itoa(i), 3)
		valid = valid && w == n
		var e expr.VirtualTableExpressionValue
		var l expr.StructLiteralValue
		for j := range w {
			name := "v" + strconv.Itoa(i) + strconv.Itoa(j)
			x := c.lit(name, sym.Choice(name+".kind", 2))
			e, l = append(e, x.E), append(l, x.E.(expr.Literal))
			if i == 0 {
				want = append(want, x.E.GetType())
			} else if j < len(want) && !x.E.GetType().Equals(want[j]) {
				valid = false
			}
		}
		es, ls = append(es, e), append(ls, l)
	}
	var r plan.Rel
	var err error
	var m []int32
	if sym.Choice("remap", 2) == 1 {
		m = []int32{sym.Int32("index")}
	}
	switch {
	case how == 0 && m == nil:
		sym.Case("VirtualTableFromExpr")
		r, err = res(c.b.VirtualTableFromExpr(names, es...))
	case how == 0:
		sym.Case("VirtualTableFromExprRemap")
		r, err = res(c.b.VirtualTableFromExprRemap(names, m, es...))
	case m == nil:
		sym.Case("VirtualTable")
		r, err = res(c.b.VirtualTable(names, ls...))
	default:
		sym.Case("VirtualTableRemap")
		r, err = res(c.b.VirtualTableRemap(names, m, ls...))
	}
	if m != nil {
		valid = sym.And(valid, sym.And(m[0] >= 0, m[0] < int32(n)))
		if err == nil {
			want = applied(m, want)
		}
	}
	c.decided(r, err, valid)
	if err == nil {
		sameTypes(r.RecordType(), want, "the table")
	}
}

func P04Conditions() {
	c := newRctx()
	in := c.emits("in", 2)
	boolish := func(name string) (expr.Expression, bool) {
		k := sym.Choice(name, 4)
		if k == 0 {
			return nil, false
		}
		t := leafTypeWith([]string{"bool", "i32", "decimal"}[k-1], name, nul(name+".nul"), sym.Uint32(name+".var"))
		return c.call(name, t, c.refTo(0, in.Out)).E, k == 1
	}
	e, ok := boolish("cond")
	var r plan.Rel
	var err error
	var post expr.Expression
	if sym.Choice("call", 2) == 0 {
		sym.Case("Filter")
		r, err = res(c.b.Filter(in.R, e))
	} else {
		sym.Case("JoinAndFilter")
		var pok bool
		post, pok = boolish("post")
		ok = ok && (post == nil || pok)
		j := sym.Choice("type", len(joinTypes)+1)
		t := plan.JoinTypeUnspecified
		if j > 0 {
			t = joinTypes[j-1].t
		}
		ok = ok && j > 0
		r, err = res(c.b.JoinAndFilter(in.R, in.R, e, post, t))
	}
	if err == nil {
		sym.Assert(ok, "invalid conditions are rejected")
		c.usable(r)
		sym.Reach("accepted")
		return
	}
	// a boolean type of another variation is another type
	sym.Assert(r == nil, "no relation with an error")
	if ok {
		sym.Assert(!(plainBool(e) && (post == nil || plainBool(post))), "a boolean condition is accepted")
	}
	sym.Reach("rejected")
}

func plainBool(e expr.Expression) bool {
	b, ok := e.GetType().(*types.BooleanType)
	return ok && b.TypeVariationRef == 0
}

func P04Sets() {
	c := newRctx()
	a := []rp{c.emits("a", 2), c.emits("b", 1), c.emits("c", 2)}
	op := sym.Int32("op")
	var in []plan.Rel
	var outs [][]types.Type
	for i := range sym.Choice("n", 4) {
		x := a[sym.Choice("in"+strconv.Itoa(i), 3)]
		in, outs = append(in, x.R), append(outs, x.Out)
	}
	valid := sym.And(op != 0, len(in) > 1)
	for _, o := range outs {
		same := len(o) == len(outs[0])
		for i := range o {
			if i < len(outs[0]) && !o[i].Equals(outs[0][i]) {
				same = false
			}
		}
		valid = sym.And(valid, same)
	}
	r, err := res(c.b.Set(plan.SetOp(op), in...))
	c.decided(r, err, valid)
	if err == nil {
		sameTypes(r.RecordType(), outs[0], "the set operation")
	}
}

func P04Aggregates() {
	c := newRctx()
	in := c.emits("in", 2)
	var ms []plan.AggRelMeasure
	if sym.Choice("measures", 2) == 1 {
		c.focus = []string{}
		f, _ := c.measure("m", in.Out)
		ms = append(ms, c.b.Measure(f, nil))
	}
	b := c.b.GetRelBuilder().AggregateRel(in.R, ms)
	nk := sym.Choice("keys", 3)
	for i := range nk {
		k := b.AddExpression(c.refTo(i, in.Out).E)
		sym.Assert(k == uint32(i), "the index of the key")
	}
	valid := true
	sets := sym.Choice("sets", 3)
	for i := range sets {
		var g []uint32
		for j := range sym.Choice("set"+strconv.Itoa(i), 3) {
			r := sym.Uint32("ref" + strconv.Itoa(i) + strconv.Itoa(j))
			valid = sym.And(valid, r < uint32(nk))
			g = append(g, r)
		}
		b.AddGroupingSet(g)
	}
	r, err := res(b.Build())
	if err == nil {
		sym.Assert(valid, "references to missing keys are rejected")
		sym.Assert(len(ms) > 0 || nk > 0, "an aggregate without columns is rejected")
		c.usable(r)
		sym.Reach("accepted")
		return
	}
	sym.Assert(r == nil, "no relation with an error")
	if len(ms) > 0 || nk > 0 && sets > 0 {
		sym.Assert(!valid, "valid aggregates are accepted")
	}
	sym.Reach("rejected")
}

func P04Grouping() {
	c := newRctx()
	in := c.emits("in", 3)
	c.focus = []string{}
	f, _ := c.measure("m", in.Out)
	b := c.b.GetRelBuilder().AggregateRel(in.R, []plan.AggRelMeasure{c.b.Measure(f, nil)})
	if sym.Choice("large", 2) == 1 {
		sym.Assert(b.AddCube(make([]uint32, 21)) != nil, "a cube of 21 keys is rejected")
		r, err := b.Build()
		sym.Assert(err == nil && len(r.GroupingReferences()) == 0, "nothing is added")
		sym.Reach("too large")
		return
	}
	n := sym.Choice("keys", 4)
	var refs []uint32
	for i := range n {
		e := c.refTo(i, in.Out).E
		refs = append(refs, b.AddExpression(e))
		sym.Assert(b.AddExpression(e) == refs[i], "an expression is added once")
	}
	seen := make([]bool, 1<<n)
	want := 0
	var check func(g []uint32) int
	check = func(g []uint32) int {
		mask := 0
		for i, k := range g {
			sym.Assert(i == 0 || g[i-1] < k, "references keep their order")
			mask |= 1 << k
		}
		return mask
	}
	cube := sym.Choice("cube", 2) == 1
	if cube {
		sym.Assert(b.AddCube(refs) == nil, "a cube is added")
		want = 1<<n - 1
	} else {
		b.AddRollup(refs)
		want = n
	}
	r, err := b.Build()
	sym.Assert(err == nil, "built")
	c.usable(r)
	sets := r.GroupingReferences()
	sym.Assert(len(sets) == want, "as many sets")
	for _, g := range sets {
		m := check(g)
		sym.Assert(m != 0 && !seen[m], "each set once")
		seen[m] = true
		if !cube {
			sym.Assert(m&(m+1) == 0, "prefixes only")
		}
	}
	sym.Reach("grouping")
}

func P04Subqueries() {
	c := newRctx()
	n := sym.Choice("cols", 4)
	over := c.emits("over", n)
	in := c.emits("in", 2)
	c.reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: c.reg})
	var e expr.Expression
	var err error
	valid := true
	switch sym.Choice("kind", 4) {
	case 0:
		sym.Case("ScalarSubquery")
		var s *plan.ScalarSubquery
		s, err = c.b.ScalarSubquery(over.R)
		e, valid = s, n == 1
	case 1:
		sym.Case("InPredicateSubquery")
		var needles []expr.Expression
		k := sym.Choice("needles", 4)
		for range k {
			needles = append(needles, c.refTo(0, in.Out).E)
		}
		var s *plan.InPredicateSubquery
		s, err = c.b.InPredicateSubquery(needles, over.R)
		e, valid = s, k == n && k > 0
	case 2:
		sym.Case("SetPredicateSubquery")
		op := sym.Int32("op")
		var s *plan.SetPredicateSubquery
		s, err = c.b.SetPredicateSubquery(over.R, plan.SetPredicateOp(op))
		e, valid = s, op != 0
	case 3:
		sym.Case("SetComparisonSubquery")
		red, cmp := sym.Int32("red"), sym.Int32("cmp")
		var s *plan.SetComparisonSubquery
		s, err = c.b.SetComparisonSubquery(c.refTo(0, in.Out).E, over.R, plan.SetComparisonReductionOp(red), plan.SetComparisonComparisonOp(cmp))
		e, valid = s, sym.And(red != 0, cmp != 0)
	}
	if err != nil {
		sym.Assert(!valid, "valid arguments are accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "invalid arguments are rejected")
	r, err := c.b.Project(in.R, e)
	sym.Assert(err == nil, "used in a projection")
	c.usable(r)
	sym.Reach("accepted")
}

func P04Plan() {
	c := newRctx()
	cols := columns("in", sym.Choice("cols", 3))
	want := len(cols)
	if sym.Choice("struct", 2) == 1 {
		st := &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{&types.Int32Type{}, &types.Int64Type{}}}
		cols = append(cols, tp{T: st, P: types.TypeToProto(st)})
		want += 3
	}
	in := c.mapped("in", cols)
	names := make([]string, sym.Choice("names", 6))
	var others []plan.Rel
	for i := range sym.Choice("others", 3) {
		others = append(others, c.scan("o"+strconv.Itoa(i), columns("o"+strconv.Itoa(i), 1)).R)
	}
	p, err := c.b.Plan(in.R, names, others...)
	if err != nil {
		sym.Assert(len(names) != want, "a name for every field is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(names) == want, "another number of names is rejected")
	rels := p.Relations()
	sym.Assert(len(rels) == 1+len(others), "all relations")
	roots, nr := p.GetRoots(), p.GetNonRootRelations()
	sym.Assert(len(roots) == 1 && roots[0].Input() == in.R, "the root")
	sym.Assert(len(nr) == len(others), "the others")
	for i := range others {
		sym.Assert(nr[i] == others[i], "the others in order")
	}
	m, err := p.ToProto()
	sym.Assert(err == nil && len(m.Relations) == len(rels), "encoded")
	sym.Reach("accepted")
}

func P04History() {
	c := newRctx()
	c.plain, c.direct = "r", true
	c.focus = []string{}
	if sym.Choice("what", 2) == 0 {
		in := c.emits("in", 3)
		var ms []plan.AggRelMeasure
		f, _ := c.measure("m", in.Out)
		ms = append(ms, c.b.Measure(f, nil))
		b := c.b.GetRelBuilder().AggregateRel(in.R, ms)
		add := func() {
			for i := range sym.Choice("keys", 3) {
				b.AddGroupingSet([]uint32{b.AddExpression(c.refTo(i, in.Out).E)})
			}
		}
		add()
		r, err := b.Build()
		sym.Assert(err == nil, "built")
		p := r.ToProto()
		if sym.Choice("rebuilder", 2) == 1 {
			b = r.ToBuilder()
		}
		switch sym.Choice("then", 5) {
		case 0:
			b.AddGroupingSet([]uint32{b.AddExpression(c.refTo(2, in.Out).E)})
		case 1:
			b.AddRollup([]uint32{b.AddExpression(c.refTo(2, in.Out).E), b.AddExpression(c.refTo(1, in.Out).E)})
		case 2:
			b.ClearGrouping()
			b.AddGroupingSet([]uint32{b.AddExpression(c.refTo(2, in.Out).E)})
		case 3:
			b.ClearMeasures()
		case 4:
			other := plan.Rel(c.emits("other", 3).R)
			b.ReplaceInput(&other)
		}
		b.Build()
		sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the aggregate built before is kept")
		sym.Reach("aggregate")
		return
	}
	// the types of the columns of all inputs are in one list
	cols := columns("c", 2)
	all := append(typesOf(cols), leafType("string", "d").T, leafType("date", "e").T)
	var in []rp
	for i := range 2 {
		s := types.NamedStruct{Names: []string{"a", "b"}, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: all[2*i : 2*i+2]}}
		x := rp{R: c.b.NamedScan([]string{"t"}, s), Out: append([]types.Type{}, all[2*i:2*i+2]...)}
		x.P = x.R.ToProto()
		in = append(in, x)
	}
	call := func(name string) (plan.Rel, *pb.Rel) {
		kind := relKinds[relLeaves+sym.Choice(name, len(relKinds)-relLeaves)]
		if kind == "set" {
			kind = "cross"
		}
		c.focus = []string{"type"}
		a := in
		if inputs(kind) == 1 {
			a = in[:1]
		} else if sym.Choice(name+".swap", 2) == 1 {
			a = []rp{in[1], in[0]}
		}
		x, build := c.relOf(kind, name, a...)
		if build == nil {
			return nil, nil
		}
		r := build.made()
		sameTypes(r.RecordType(), x.Out, "the relation")
		return r, x.P
	}
	r, p := call("r1")
	c.focus = []string{}
	if r == nil {
		return
	}
	_, err := c.b.JoinedRecordFieldRef(in[0].R, in[1].R, 1)
	sym.Assert(err == nil, "referenced")
	_, err = c.b.JoinedRecordFieldRef(in[1].R, in[0].R, 1)
	sym.Assert(err == nil, "referenced")
	_, err = c.b.JoinedRecordFieldRef(r, in[0].R, 0)
	_, err = c.b.Cross(r, in[1].R)
	sym.Assert(err == nil, "crossed")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the relation is kept")
	for _, x := range in {
		sym.Assert(sym.ProtoEqual(x.R.ToProto(), x.P), "the input is kept")
		sameTypes(x.R.RecordType(), x.Out, "the input")
	}
	sym.Reach("calls")
}
