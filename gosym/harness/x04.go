package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("X04",
	H{F: X04Subsets, Bounds: "every expression kind with all optional parts and up to 6 children, every subset of the children replaced by literals", Reach: []string{"none", "some"}},
	H{F: X04Shapes, Bounds: "every expression kind with every number of arguments, options, sorts, partitions, cases, elements or members and every presence of optional parts, none, one (each) or all children replaced", Reach: []string{"none", "some"}},
	H{F: X04Kids, Bounds: "every expression kind with one child, in each of the first six positions, of every expression kind, replaced by an i32 literal, or the other way round (or of every kind replaced by every kind when deep); the literal kinds are i32, decimal, interval_year, interval_compound, null, string and list", Reach: []string{"replaced"}},
	H{F: X04Deep, Bounds: "every expression kind with one child of every kind, all innermost children replaced by a recursive visit", Reach: []string{"deep"}},
)

// visiting checks what a visit makes of x when each child i is replaced by with[i]
// (by itself if nil).
func visiting(x ep, with []*ep) {
	offered := make([]int, len(x.Kids))
	some := false
	want := append([]ep{}, x.Kids...)
	for i := range with {
		if with[i] != nil {
			want[i], some = *with[i], true
		}
	}
	before := x.E.ToProto()
	got := x.E.Visit(func(e expr.Expression) expr.Expression {
		at := -1
		for i, k := range x.Kids {
			if e == k.E && !x.Refs {
				at = i
			}
		}
		sym.Assert(at >= 0, "only direct children are offered")
		offered[at]++
		return want[at].E
	})
	for _, n := range offered {
		sym.Assert(n == 1 || (n == 0 && x.Refs), "each child is offered exactly once")
	}
	sym.Assert(got != nil, "a visit gives an expression")
	if !some || x.Refs {
		sym.Assert(sym.And(got.Equals(x.E), x.E.Equals(got)), "a visit that changes nothing gives an equal expression")
		sym.Assert(sym.ProtoEqual(got.ToProto(), x.P), "a visit that changes nothing changes nothing")
		sym.Reach("none")
	} else {
		y := x.Mk(want)
		sym.Assert(sym.ProtoEqual(got.ToProto(), y.P), "exactly the replaced children change")
		sym.Assert(sym.And(got.Equals(y.E), y.E.Equals(got)), "the result equals the expression over the new children")
		if typed(y) {
			sym.Assert(typeSame(got.GetType(), y.E.GetType()), "the result has the type of the expression over the new children")
		}
		sym.Reach("some")
	}
	sym.Assert(sym.And(sym.ProtoEqual(before, x.P), sym.ProtoEqual(x.E.ToProto(), x.P)), "the original is unchanged")
	sym.Assert(x.E.Equals(x.Mk(x.Kids).E), "the original is equal to what it was")
}

func X04Subsets() {
	c := newCtx()
	c.vary = false
	kind := c.kind("kind")
	sym.Case(kind)
	x := c.flatExpr(kind, "e")
	with := make([]*ep, len(x.Kids))
	for i := range with {
		if i < 6 && sym.Choice("replace"+strconv.Itoa(i), 2) == 1 {
			r := i32Lit("r" + strconv.Itoa(i))
			with[i] = &r
		}
	}
	visiting(x, with)
}

func X04Shapes() {
	c := newCtx()
	c.short = true
	kind := c.kind("kind")
	sym.Case(kind)
	x := c.flatExpr(kind, "e")
	with := make([]*ep, len(x.Kids))
	m := sym.Choice("replace", len(x.Kids)+2)
	for i := range with {
		if m == i || m == len(x.Kids) {
			r := i32Lit("r" + strconv.Itoa(i))
			with[i] = &r
		}
	}
	visiting(x, with)
}

var litSample = []string{"i32", "decimal", "interval_year", "interval_compound", "null", "string", "list"}

// sample is an expression of any kind over literals.
func (c *ectx) sample(name string) ep {
	kind := c.kind(name + ".kind")
	if kind == "literal" {
		k := litSample[sym.Choice(name+".lit", len(litSample))]
		var l lp
		switch k {
		case "list":
			l = litWith("i64", name+".0", types.NullabilityRequired, 0)
			t := &types.ListType{Nullability: types.NullabilityRequired, Type: l.T}
			e := &expr.ListLiteral{Value: expr.ListLiteralValue{l.L}, Type: t}
			return ep{E: e, P: e.ToProto(), Kind: kind}
		case "null":
			return nullLit(required("date"))
		}
		l = litOf(k, name)
		return ep{E: l.L, P: litP(l.P), Kind: kind}
	}
	return c.flatExpr(kind, name)
}

func X04Kids() {
	c := newCtx()
	c.vary = false
	kind := exprKinds[exprLeaves+sym.Choice("kind", len(exprKinds)-exprLeaves)]
	sym.Case(kind)
	x := c.flatExpr(kind, "e")
	at := sym.Choice("at", maxKids)
	sym.Assume(at < len(x.Kids))
	if x.Lits[at] || kind == "ifthen" || kind == "switch" {
		// conditionals check the types of their parts when made
		return
	}
	k := append([]ep{}, x.Kids...)
	// one of the two is an i32 literal unless exploring deeply
	side := 2
	if !sym.Deep() {
		side = sym.Choice("side", 2)
	}
	if side != 0 {
		k[at] = c.sample("old")
	}
	x = x.Mk(k)
	with := make([]*ep, len(x.Kids))
	r := i32Lit("r")
	if side != 1 {
		r = c.sample("new")
	}
	with[at] = &r
	visiting(x, with)
	sym.Reach("replaced")
}

func X04Deep() {
	c := newCtx()
	c.vary = false
	kind := exprKinds[exprLeaves+sym.Choice("kind", len(exprKinds)-exprLeaves)]
	sym.Case(kind)
	x := c.anyExprOf(kind, "e", 2)
	before := map[expr.Expression]int{}
	n := 0
	var mark func(x ep, in bool)
	mark = func(x ep, in bool) {
		for _, k := range x.Kids {
			if len(k.Kids) == 0 && !x.Refs && !in {
				before[k.E]++
				n++
			}
			mark(k, in || x.Refs)
		}
	}
	mark(x, false)
	seen := 0
	var pre func(e expr.Expression) expr.Expression
	pre = func(e expr.Expression) expr.Expression {
		if before[e] > 0 {
			seen++
		}
		return e.Visit(pre)
	}
	got := pre(x.E)
	sym.Assert(got.Equals(x.E), "a recursive visit that changes nothing gives an equal expression")
	sym.Assert(seen == n, "a recursive visit sees every innermost child")
	sym.Assert(sym.ProtoEqual(x.E.ToProto(), x.P), "the original is unchanged")
	sym.Reach("deep")
}
