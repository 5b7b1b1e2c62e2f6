package harness

import (
	"errors"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"

	"verif/gosym/sym"
)

var _ = reg("P05",
	H{F: P05Copy, Bounds: "every relation over scans, copied with the same, other, missing and additional inputs", Reach: []string{"copied", "wrong inputs"}},
	H{F: P05Shape, Bounds: "every relation over scans with 0..2 of its expressions of each sort, which are literals, any one, all or none of which are rewritten, over the same or other inputs", Reach: []string{"rewritten", "unchanged"}},
	H{F: P05Detail, Bounds: "every relation over scans with every presence of its filters, any one, all or none of whose expressions are rewritten, over the same or other inputs", Reach: []string{"rewritten", "unchanged"}},
	H{F: P05Error, Bounds: "every relation with every presence of its filters, the rewriting of any one of whose expressions fails", Reach: []string{"failed"}},
	H{F: P05Keys, Bounds: "hash and merge joins of 1..2 keys, one of which is rewritten to another expression than a reference", Reach: []string{"rejected"}},
	H{F: P05Tree, Bounds: "every relation over every relation over a scan, all or none of the expressions rewritten from the leaves to the root", Reach: []string{"rewritten", "unchanged"}},
	H{F: P05Aliasing, Bounds: "every relation whose inputs are asked for, changed in the list and used for a rewriting or a copy, which is changed afterwards", Reach: []string{"rewritten", "copied"}},
)

// slot is an expression in the message of a relation.
type slot struct {
	p   *pb.Expression
	set func(*pb.Expression)
}

// slots are the expressions of a relation itself.
func slots(m *pb.Rel) (r []slot) {
	field := func(p **pb.Expression) {
		if *p != nil {
			r = append(r, slot{*p, func(e *pb.Expression) { *p = e }})
		}
	}
	list := func(l []*pb.Expression) {
		for i := range l {
			field(&l[i])
		}
	}
	key := func(k *pb.ComparisonJoinKey, i int, left, right []*pb.Expression_FieldReference) {
		r = append(r, slot{selection(k.Left), func(e *pb.Expression) {
			k.Left = e.GetSelection()
			if i < len(left) {
				left[i] = e.GetSelection()
			}
		}}, slot{selection(k.Right), func(e *pb.Expression) {
			k.Right = e.GetSelection()
			if i < len(right) {
				right[i] = e.GetSelection()
			}
		}})
	}
	switch x := m.RelType.(type) {
	case *pb.Rel_Read:
		field(&x.Read.Filter)
		field(&x.Read.BestEffortFilter)
		for _, row := range x.Read.GetVirtualTable().GetExpressions() {
			list(row.Fields)
		}
	case *pb.Rel_Filter:
		field(&x.Filter.Condition)
	case *pb.Rel_Project:
		list(x.Project.Expressions)
	case *pb.Rel_Join:
		field(&x.Join.Expression)
		field(&x.Join.PostJoinFilter)
	case *pb.Rel_Sort:
		for _, s := range x.Sort.Sorts {
			field(&s.Expr)
		}
	case *pb.Rel_Aggregate:
		list(x.Aggregate.GroupingExpressions)
		for _, me := range x.Aggregate.Measures {
			field(&me.Filter)
			for _, a := range me.Measure.Arguments {
				if v, ok := a.ArgType.(*pb.FunctionArgument_Value); ok {
					field(&v.Value)
				}
			}
			for _, s := range me.Measure.Sorts {
				field(&s.Expr)
			}
		}
	case *pb.Rel_HashJoin:
		field(&x.HashJoin.PostJoinFilter)
		for i, k := range x.HashJoin.Keys {
			key(k, i, x.HashJoin.LeftKeys, x.HashJoin.RightKeys)
		}
	case *pb.Rel_MergeJoin:
		field(&x.MergeJoin.PostJoinFilter)
		for i, k := range x.MergeJoin.Keys {
			key(k, i, x.MergeJoin.LeftKeys, x.MergeJoin.RightKeys)
		}
	}
	return r
}

func selection(f *pb.Expression_FieldReference) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Selection{Selection: f}}
}

// inputSlots are the inputs of a relation.
func inputSlots(m *pb.Rel) []**pb.Rel {
	switch x := m.RelType.(type) {
	case *pb.Rel_Filter:
		return []**pb.Rel{&x.Filter.Input}
	case *pb.Rel_Project:
		return []**pb.Rel{&x.Project.Input}
	case *pb.Rel_Fetch:
		return []**pb.Rel{&x.Fetch.Input}
	case *pb.Rel_Sort:
		return []**pb.Rel{&x.Sort.Input}
	case *pb.Rel_Aggregate:
		return []**pb.Rel{&x.Aggregate.Input}
	case *pb.Rel_Write:
		return []**pb.Rel{&x.Write.Input}
	case *pb.Rel_ExtensionSingle:
		return []**pb.Rel{&x.ExtensionSingle.Input}
	case *pb.Rel_Join:
		return []**pb.Rel{&x.Join.Left, &x.Join.Right}
	case *pb.Rel_Cross:
		return []**pb.Rel{&x.Cross.Left, &x.Cross.Right}
	case *pb.Rel_HashJoin:
		return []**pb.Rel{&x.HashJoin.Left, &x.HashJoin.Right}
	case *pb.Rel_MergeJoin:
		return []**pb.Rel{&x.MergeJoin.Left, &x.MergeJoin.Right}
	case *pb.Rel_Set:
		return refs(x.Set.Inputs)
	case *pb.Rel_ExtensionMulti:
		return refs(x.ExtensionMulti.Inputs)
	}
	return nil
}

func refs(l []*pb.Rel) (r []**pb.Rel) {
	for i := range l {
		r = append(r, &l[i])
	}
	return r
}

// rewriter replaces references by the eighth field and other expressions by a
// cast of them.
type rewriter struct {
	ref ep
	p   *pb.Expression // the only expression to replace
	all bool
	err error // for the expression
}

func newRewriter() *rewriter {
	var cols []types.Type
	for range 8 {
		cols = append(cols, &types.Int32Type{})
	}
	s, p := segs([]seg{fld(7)})
	f, err := expr.NewRootFieldRef(s, types.NewRecordTypeFromTypes(cols))
	if err != nil {
		panic(err)
	}
	return &rewriter{ref: ep{E: f, P: selP(nil, p)}}
}

func (w *rewriter) rewrites(p *pb.Expression) bool {
	if w.all {
		return true
	}
	return w.p != nil && sym.ProtoEqual(w.p, p)
}

var errRewrite = errors.New("cannot be rewritten")

// expression is the rewriting function.
func (w *rewriter) expression(e expr.Expression) (expr.Expression, error) {
	if e == nil {
		return nil, nil // a filter that is not there
	}
	if !w.rewrites(e.ToProto()) {
		return e, nil
	}
	if w.err != nil {
		return nil, w.err
	}
	if _, ok := e.(*expr.FieldReference); ok {
		return w.ref.E, nil
	}
	return &expr.Cast{Type: &types.Int64Type{}, Input: e, FailureBehavior: types.BehaviorThrowException}, nil
}

// message is the message of the expression rewritten.
func (w *rewriter) message(p *pb.Expression) *pb.Expression {
	if p.GetSelection() != nil {
		return w.ref.P
	}
	return (&expr.Cast{Type: &types.Int64Type{}, Input: protoExpr{p: p}, FailureBehavior: types.BehaviorThrowException}).ToProto()
}

// protoExpr is an expression that is known only by its message.
type protoExpr struct {
	expr.Expression
	p *pb.Expression
}

func (e protoExpr) ToProto() *pb.Expression { return e.p }

// rewritten is the message with the expressions replaced, and whether there are
// any.
func (w *rewriter) rewritten(m *pb.Rel) (*pb.Rel, bool) {
	m = proto.Clone(m).(*pb.Rel)
	any := false
	for _, s := range slots(m) {
		if w.rewrites(s.p) {
			s.set(w.message(s.p))
			any = true
		}
	}
	return m, any
}

func withInputs(m *pb.Rel, in []plan.Rel) *pb.Rel {
	m = proto.Clone(m).(*pb.Rel)
	for i, s := range inputSlots(m) {
		*s = in[i].ToProto()
	}
	return m
}

// others are other relations in place of the inputs.
func (c *rctx) others(name string, in []plan.Rel) ([]plan.Rel, bool) {
	r := append([]plan.Rel{}, in...)
	if len(in) == 0 {
		return r, false
	}
	k := sym.Choice(name, len(in)+1)
	if k > 0 {
		r[k-1] = c.scan(name+".other", columns(name+".other", 2)).R
	}
	return r, k > 0
}

func isSame(r plan.Rel, in []plan.Rel, what string) {
	got := r.GetInputs()
	sym.Assert(len(got) == len(in), "as many inputs of "+what)
	for i := range in {
		sym.Assert(got[i] == in[i], "the inputs of "+what)
	}
}

func P05Copy() {
	c := newRctx()
	c.focus = []string{"hint", "ext", "cext"}
	x, _ := c.over("r")
	r := c.decoded(x.P)
	p := r.ToProto()
	old := r.GetInputs()
	in, _ := c.others("in", old)
	id := func(e expr.Expression) (expr.Expression, error) { return e, nil }
	if n := sym.Choice("count", 3); n > 0 && x.Kind != "set" && x.Kind != "extmulti" && len(old) > 0 {
		wrong := append(append([]plan.Rel{}, in...), in[0])
		if n == 2 {
			wrong = in[1:]
		}
		_, err := r.Copy(wrong...)
		sym.Assert(err != nil, "another number of inputs is rejected")
		sym.Reach("wrong inputs")
		if x.Kind == "extsingle" || x.Kind == "write" {
			return
		}
		_, err = r.CopyWithExpressionRewrite(id, wrong...)
		sym.Assert(err != nil, "another number of inputs is rejected")
		return
	}
	d, err := r.Copy(in...)
	sym.Assert(err == nil, "copied")
	isSame(d, in, "the copy")
	sym.Assert(sym.ProtoEqual(d.ToProto(), withInputs(p, in)), "the copy has the new inputs and is the same otherwise")
	sym.Assert(d != r, "a copy")
	// changes of the copy
	d.SetAdvancedExtension(extP("changed"))
	isSame(r, old, "the original")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept")
	sym.Reach("copied")
}

func (c *rctx) rewrites(others bool) {
	x, _ := c.over("r")
	r := c.decoded(x.P)
	p := r.ToProto()
	old := r.GetInputs()
	in, changed := old, false
	if others {
		in, changed = c.others("in", old)
	}
	w := newRewriter()
	all := slots(p)
	switch k := sym.Choice("which", len(all)+2); k {
	case 0:
	case 1:
		w.all = true
	default:
		w.p = proto.Clone(all[k-2].p).(*pb.Expression)
	}
	want, any := w.rewritten(withInputs(p, in))
	d, err := r.CopyWithExpressionRewrite(w.expression, in...)
	sym.Assert(err == nil, "rewritten")
	isSame(d, in, "the result")
	sym.Assert(sym.ProtoEqual(d.ToProto(), want), "the rewritten relation")
	isSame(r, old, "the original")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept")
	if any || changed {
		sym.Assert(d != r, "a new relation")
		sym.Reach("rewritten")
	} else {
		sym.Assert(d == r, "the relation itself if nothing changes")
		sym.Reach("unchanged")
	}
}

func P05Shape() {
	c := newRctx()
	c.focus, c.plain = []string{"rows", "n", "groups", "measures", "keys"}, "r"
	c.rewrites(true)
}

func P05Detail() {
	c := newRctx()
	c.focus = detailParts
	c.rewrites(true)
}

func P05Error() {
	c := newRctx()
	c.focus = detailParts
	x, _ := c.over("r")
	r := c.decoded(x.P)
	p := r.ToProto()
	all := slots(p)
	if len(all) == 0 {
		return
	}
	w := newRewriter()
	w.p, w.err = proto.Clone(all[sym.Choice("which", len(all))].p).(*pb.Expression), errRewrite
	_, err := r.CopyWithExpressionRewrite(w.expression, r.GetInputs()...)
	sym.Assert(err != nil && errors.Is(err, errRewrite), "the error of the rewriting")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept")
	sym.Reach("failed")
}

func P05Keys() {
	c := newRctx()
	c.focus = []string{"keys"}
	x, _ := c.overScans([]string{"hash", "merge"}[sym.Choice("kind", 2)], "r")
	r := c.decoded(x.P)
	p := r.ToProto()
	var keys []*pb.Expression
	for _, s := range slots(p) {
		if s.p.GetSelection() != nil {
			keys = append(keys, proto.Clone(s.p).(*pb.Expression))
		}
	}
	if len(keys) == 0 {
		return
	}
	k := keys[sym.Choice("which", len(keys))]
	_, err := r.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
		if e != nil && sym.ProtoEqual(e.ToProto(), k) {
			return i32Lit("l").E, nil
		}
		return e, nil
	}, r.GetInputs()...)
	sym.Assert(err != nil, "a key that is not a reference is rejected")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept")
	sym.Reach("rejected")
}

// rewriteTree rewrites a relation and all relations below.
func rewriteTree(w *rewriter, r plan.Rel) plan.Rel {
	in := r.GetInputs()
	for i := range in {
		in[i] = rewriteTree(w, in[i])
	}
	d, err := r.CopyWithExpressionRewrite(w.expression, in...)
	sym.Assert(err == nil, "rewritten")
	return d
}

func (w *rewriter) tree(m *pb.Rel) (*pb.Rel, bool) {
	m, any := w.rewritten(m)
	for _, s := range inputSlots(m) {
		n, a := w.tree(*s)
		*s, any = n, any || a
	}
	return m, any
}

func P05Tree() {
	c := newRctx()
	c.focus, c.plain = []string{}, ".in"
	kind := relKinds[relLeaves+sym.Choice("kind", len(relKinds)-relLeaves)]
	in := []rp{c.input(c.relKind("inner"), "r.in0")}
	sym.Case(kind + " over " + in[0].Kind)
	if inputs(kind) == 2 {
		in = append(in, in[0])
		if kind != "set" {
			in[1] = c.scan("r.in1", columns("r.in1", 2))
		}
	}
	x, _ := c.relOf(kind, "r", in...)
	r := c.decoded(x.P)
	p := r.ToProto()
	w := newRewriter()
	w.all = sym.Choice("which", 2) == 1
	want, any := w.tree(p)
	d := rewriteTree(w, r)
	sym.Assert(sym.ProtoEqual(d.ToProto(), want), "the rewritten tree")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept")
	if any {
		sym.Reach("rewritten")
	} else {
		sym.Assert(d == r, "the relation itself if nothing changes")
		sym.Reach("unchanged")
	}
}

func P05Aliasing() {
	c := newRctx()
	c.focus = []string{}
	x, _ := c.over("r")
	r := c.decoded(x.P)
	p := r.ToProto()
	in := r.GetInputs()
	if len(in) == 0 {
		return
	}
	i := sym.Choice("input", len(in))
	first := c.scan("first", columns("first", 2)).R
	second := c.scan("second", columns("second", 2)).R
	in[i] = first
	want := withInputs(p, in)
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept when its list of inputs is changed")
	var d plan.Rel
	var err error
	if sym.Choice("how", 2) == 0 {
		d, err = r.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return e, nil }, in...)
		sym.Reach("rewritten")
	} else {
		d, err = r.Copy(in...)
		sym.Reach("copied")
	}
	sym.Assert(err == nil, "rewritten")
	sym.Assert(sym.ProtoEqual(d.ToProto(), want), "the result")
	in[i] = second
	sym.Assert(sym.ProtoEqual(d.ToProto(), want), "the result is kept when the list is changed")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the original is kept")
}
