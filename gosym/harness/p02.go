package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("P02",
	H{F: P02Schema, Bounds: "every relation with every join type, operation and output mode, built and decoded, over scans that emit 1..3 columns of symbolic types in reverse order, with any emit mapping of 0..2 columns", Reach: []string{"schema", "built"}},
	H{F: P02Shared, Bounds: "any two relations over the same scans of two columns of symbolic types, whose list of types has room for more", Reach: []string{"shared"}},
	H{F: P02Aggregate, Bounds: "aggregates of 1..3 keys in 0..3 grouping sets, any set of any size made through grouping sets, rollup and cube, with 0..1 measures", Reach: []string{"aggregate", "several sets", "decoded"}},
	H{F: P02Read, Bounds: "reads of two columns of symbolic types, with and without filters or a projection to one column", Reach: []string{"read"}},
)

func P02Schema() {
	c := newRctx()
	c.focus = []string{"type", "op", "output", "emit"}
	kind := relKinds[relLeaves+sym.Choice("kind", len(relKinds)-relLeaves)]
	sym.Case(kind)
	var in []rp
	n := 1 + sym.Choice("cols", 3)
	if n == 3 {
		c.focus = c.focus[:3]
	}
	cols := columns("in0", n)
	in = append(in, c.mapped("in0", cols))
	if inputs(kind) == 2 {
		if kind != "set" {
			cols = columns("in1", 2)
		}
		in = append(in, c.mapped("in1", cols))
	}
	x, build := c.relOf(kind, "r", in...)
	d := c.decoded(x.P)
	sameTypes(d.RecordType(), x.Out, "the decoded relation")
	for i, y := range d.GetInputs() {
		sameTypes(y.RecordType(), in[i].Out, "its input")
	}
	sameTypes(d.RecordType(), x.Out, "the relation asked again")
	if build != nil {
		r := build.made()
		sameTypes(r.RecordType(), x.Out, "the built relation")
		sym.Reach("built")
	}
	for _, y := range in {
		sameTypes(y.R.RecordType(), y.Out, "the input")
	}
	sym.Reach("schema")
}

func P02Shared() {
	c := newRctx()
	c.plain, c.direct = "r", true
	var in []rp
	cols := columns("c", 2)
	for _, n := range []string{"a", "b"} {
		s, _ := c.namedStruct(n, cols)
		t := make([]types.Type, len(cols), 8)
		copy(t, s.Struct.Types)
		s.Struct.Types = t
		x := c.scan(n, cols)
		x.R = c.b.NamedScan([]string{"t"}, s)
		in = append(in, x)
	}
	made := func(name string) (plan.Rel, rp) {
		kind := relKinds[relLeaves+sym.Choice(name, len(relKinds)-relLeaves)]
		c.focus = []string{}
		if name == "r1" {
			c.focus = []string{"type"}
		}
		a := in
		if inputs(kind) == 1 {
			a = in[:1]
		} else if kind == "extmulti" || sym.Choice(name+".swap", 2) == 1 {
			a = []rp{in[1], in[0]}
		}
		x, build := c.relOf(kind, name, a...)
		if build == nil {
			return c.decoded(x.P), x
		}
		return build.made(), x
	}
	r1, x1 := made("r1")
	t1 := r1.RecordType()
	r2, x2 := made("r2")
	sym.Case(x1.Kind + " and " + x2.Kind)
	t2 := r2.RecordType()
	sameTypes(t1, x1.Out, "the first relation, as it was")
	sameTypes(t2, x2.Out, "the second relation")
	sameTypes(r1.RecordType(), x1.Out, "the first relation")
	for _, y := range in {
		sameTypes(y.R.RecordType(), y.Out, "the input")
	}
	sym.Reach("shared")
}

func P02Aggregate() {
	c := newRctx()
	c.focus = []string{}
	in := c.mapped("in", columns("in", 3))
	nk := sym.Choice("keys", 4)
	b := c.b.GetRelBuilder().AggregateRel(in.R, nil)
	var ms []plan.AggRelMeasure
	var measured []types.Type
	for i := range sym.Choice("measures", 2) {
		f, _ := c.measure("m"+string(rune('0'+i)), in.Out)
		ms, measured = append(ms, c.b.Measure(f, nil)), append(measured, f.GetType())
	}
	if nk == 0 && len(ms) == 0 {
		return
	}
	b = c.b.GetRelBuilder().AggregateRel(in.R, ms)
	var keys []expr.Expression
	var refs []uint32
	for i := range nk {
		keys = append(keys, c.refTo(i, in.Out).E)
		refs = append(refs, b.AddExpression(keys[i]))
	}
	// missing tells which keys some set lacks
	missing := make([]bool, nk)
	used := make([]bool, nk)
	sets := 0
	add := func(in []bool) {
		sets++
		for i, x := range in {
			missing[i], used[i] = missing[i] || !x, used[i] || x
		}
	}
	switch how := sym.Choice("how", 3); {
	case nk == 0:
	case how == 0:
		for j := range 1 + sym.Choice("sets", 3) {
			mask := sym.Choice("set"+string(rune('0'+j)), 1<<nk)
			rev := j == 0 && sym.Choice("rev", 2) == 1
			var g []uint32
			in := make([]bool, nk)
			for i := range nk {
				k := i
				if rev {
					k = nk - 1 - i
				}
				if mask&(1<<k) != 0 {
					g, in[k] = append(g, refs[k]), true
				}
			}
			b.AddGroupingSet(g)
			add(in)
		}
	case how == 1:
		b.AddRollup(refs)
		for n := nk; n > 0; n-- {
			in := make([]bool, nk)
			for i := range n {
				in[i] = true
			}
			add(in)
		}
	default:
		sym.Assert(b.AddCube(refs) == nil, "cube added")
		for mask := 1; mask < 1<<nk; mask++ {
			in := make([]bool, nk)
			for i := range nk {
				in[i] = mask&(1<<i) != 0
			}
			add(in)
		}
	}
	var want []types.Type
	for i, k := range keys {
		if !used[i] {
			return // the specification demands that every key is in some set
		}
		t := k.GetType()
		if missing[i] {
			t = t.WithNullability(types.NullabilityNullable)
		}
		want = append(want, t)
	}
	want = append(want, measured...)
	if sets > 1 {
		want = append(want, &types.Int32Type{Nullability: types.NullabilityRequired})
		sym.Reach("several sets")
	}
	r, err := b.Build()
	sym.Assert(err == nil, "aggregate built")
	sameTypes(r.RecordType(), want, "the aggregate")
	sameTypes(in.R.RecordType(), in.Out, "its input")
	sym.Reach("aggregate")
	d := c.decoded(r.ToProto())
	sameTypes(d.RecordType(), want, "the decoded aggregate")
	sym.Reach("decoded")
}

func P02Read() {
	c := newRctx()
	c.focus = []string{"filter", "best", "emit"}
	kind := relKinds[sym.Choice("kind", 5)]
	x, _ := c.relOf(kind, "r")
	if sym.Choice("projected", 2) == 1 {
		sym.Case("projected")
		x.P.GetRead().Common = common(nil, nil, nil)
		x.P.GetRead().Projection = &pb.Expression_MaskExpression{Select: &pb.Expression_MaskExpression_StructSelect{
			StructItems: []*pb.Expression_MaskExpression_StructItem{{Field: 1}}}}
		x.Out = []types.Type{types.TypeFromProto(x.P.GetRead().BaseSchema.Struct.Types[1])}
	} else {
		sym.Case(kind)
	}
	sameTypes(c.decoded(x.P).RecordType(), x.Out, "the read")
	sym.Reach("read")
}
