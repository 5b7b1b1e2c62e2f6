package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("X03",
	H{F: X03Literals, Bounds: "every pair of literals of one kind, of independent values, types, nullabilities and variation references; struct, list and map literals with 0..2 members", Reach: []string{"equal", "different"}},
	H{F: X03LiteralKinds, Bounds: "every pair of literals of different kinds", Reach: []string{"pair"}},
	H{F: X03Same, Bounds: "every pair of expressions of one kind and one shape, with independent scalar fields, function references, types, options, sorts and children (i32 literals); every shape of X02RoundTrip", Reach: []string{"equal", "different"}},
	H{F: X03Shapes, Bounds: "every expression kind with every number of arguments, options, sorts, partitions, cases, elements or members, against a fixed one of the kind", Reach: []string{"equal", "different"}},
	H{F: X03Kinds, Bounds: "every pair of expressions of different kinds, and of one kind with one child of a different kind", Reach: []string{"pair", "child"}},
	H{F: X03Args, Bounds: "scalar and window functions with one argument being an expression, an enum argument or a type argument, against each of those", Reach: []string{"equal", "different"}},
	H{F: X03Paths, Bounds: "every pair of reference paths of up to 3 steps", Reach: []string{"equal", "different"}},
)

func sameExpr(x, y expr.Expression, p, q *pb.Expression) {
	eq := x.Equals(y)
	sym.Assert(eq == y.Equals(x), "symmetric")
	sym.Assert(eq == sym.ProtoEqual(p, q), "equal exactly when the messages are")
	sym.Assert(sym.And(x.Equals(x), y.Equals(y)), "reflexive")
	if eq {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

// flatLit is a struct, list or map literal over leaves.
func flatLit(kind, name, child string) lp {
	n, v := nul2(name+".nul"), sym.Uint32(name+".var")
	p := &pb.Expression_Literal{Nullable: n == types.NullabilityNullable, TypeVariationReference: v}
	var c, d []lp
	en, ev := nul2(name+".elem.nul"), sym.Uint32(name+".elem.var")
	min := 1
	if kind == "struct" {
		min = 0
	}
	for i := range min + sym.Choice(name+".members", 3-min) {
		c = append(c, litWith(child, name+".k"+strconv.Itoa(i), en, ev))
		d = append(d, litWith("date", name+".v"+strconv.Itoa(i), en, ev))
	}
	switch kind {
	case "struct":
		var vs expr.StructLiteralValue
		var ts []types.Type
		var ps []*pb.Expression_Literal
		for _, x := range c {
			vs, ts, ps = append(vs, x.L), append(ts, x.T), append(ps, x.P)
		}
		t := &types.StructType{Nullability: n, TypeVariationRef: v, Types: ts}
		p.LiteralType = &pb.Expression_Literal_Struct_{Struct: &pb.Expression_Literal_Struct{Fields: ps}}
		return lp{&expr.StructLiteral{Value: vs, Type: t}, p, t, kind}
	case "list":
		var vs expr.ListLiteralValue
		var ps []*pb.Expression_Literal
		for _, x := range c {
			vs, ps = append(vs, x.L), append(ps, x.P)
		}
		t := &types.ListType{Nullability: n, TypeVariationRef: v, Type: c[0].T}
		p.LiteralType = &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: ps}}
		return lp{&expr.ListLiteral{Value: vs, Type: t}, p, t, kind}
	}
	vs, ps := make(expr.MapLiteralValue, len(c)), make([]*pb.Expression_Literal_Map_KeyValue, len(c))
	for i := range c {
		vs[i].Key, vs[i].Value = c[i].L, d[i].L
		ps[i] = &pb.Expression_Literal_Map_KeyValue{Key: c[i].P, Value: d[i].P}
	}
	t := &types.MapType{Nullability: n, TypeVariationRef: v, Key: c[0].T, Value: d[0].T}
	p.LiteralType = &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: ps}}
	return lp{&expr.MapLiteral{Value: vs, Type: t}, p, t, kind}
}

func X03Literals() {
	k := sym.Choice("kind", len(litKinds)+len(litNests))
	var x, y lp
	if k < len(litKinds) {
		x, y = litOf(litKinds[k], "a"), litOf(litKinds[k], "b")
	} else {
		n := litNests[k-len(litKinds)]
		x, y = flatLit(n, "a", "i32"), flatLit(n, "b", "i32")
	}
	sym.Case(x.Kind)
	sameExpr(x.L, y.L, litP(x.P), litP(y.P))
}

func X03LiteralKinds() {
	all := append(append([]string{}, litKinds...), litNests...)
	i, j := sym.Choice("a.kind", len(all)), sym.Choice("b.kind", len(all))
	sym.Assume(i < j)
	mk := func(i int, name string) lp {
		if i >= len(litKinds) {
			return flatLit(all[i], name, "i32")
		}
		if all[i] == "null" {
			return litWith("string", name, nul2(name+".nul"), sym.Uint32(name+".var"))
		}
		return litOf(all[i], name)
	}
	x, y := mk(i, "a"), mk(j, "b")
	sym.Case(all[i] + " " + all[j])
	if x.Kind == y.Kind {
		return
	}
	sym.Assert(!x.L.Equals(y.L), "different kinds differ")
	sym.Assert(!y.L.Equals(x.L), "different kinds differ the other way")
	n := &expr.NullLiteral{Type: y.T.WithNullability(types.NullabilityNullable)}
	sym.Assert(!x.L.Equals(n), "no value equals null")
	sym.Assert(!n.Equals(x.L), "null equals no value")
	sym.Reach("pair")
}

func X03Same() {
	c := newCtx()
	c.shapes = map[string]int{}
	kind := c.kind("kind")
	sym.Case(kind)
	x, y := c.flatExpr(kind, "a"), c.flatExpr(kind, "b")
	sameExpr(x.E, y.E, x.P, y.P)
}

func X03Shapes() {
	c := newCtx()
	c.short = true
	kind := c.kind("kind")
	sym.Case(kind)
	c.vary = false
	x := c.flatExpr(kind, "a")
	c.vary = true
	y := c.flatExpr(kind, "b")
	sameExpr(x.E, y.E, x.P, y.P)
}

func X03Kinds() {
	c := newCtx()
	c.vary = false
	kind, other := c.kind("kind"), c.kind("other")
	sym.Case(kind + " " + other)
	x, y := c.flatExpr(kind, "a"), c.flatExpr(other, "b")
	if kind != other {
		sym.Assert(!x.E.Equals(y.E), "different kinds differ")
		sym.Reach("pair")
	}
	if len(x.Kids) > 0 && other != "literal" {
		at := sym.Choice("at", len(x.Kids))
		if x.Lits[at] {
			return
		}
		k := append([]ep{}, x.Kids...)
		if y.E.GetType() != nil {
			k[at] = y
		} else {
			k[at] = c.exprOf("cast", "typed", func(int, string) ep { return y })
		}
		if !c.fits(kind, at, k) {
			return
		}
		z := x.Mk(k)
		sym.Assert(!x.E.Equals(z.E), "a different child is seen")
		sym.Assert(!z.E.Equals(x.E), "a different child is seen the other way")
		w := x.Mk(k)
		sym.Assert(z.E.Equals(w.E), "equal parts make equal expressions")
		sym.Reach("child")
	}
}

// fits tells whether an expression can be built over the children: conditionals
// are only made of results of one type.
func (c *ectx) fits(kind string, at int, k []ep) bool {
	switch kind {
	case "ifthen", "switch":
		return k[at].E.GetType().Equals(k[(at+1)%len(k)].E.GetType())
	}
	return true
}

func X03Args() {
	c := newCtx()
	args := func(name string) ([]types.FuncArg, *pb.FunctionArgument) {
		switch sym.Choice(name+".arg", 3) {
		case 0:
			x := i32Lit(name)
			return []types.FuncArg{x.E}, argP(x.P)
		case 1:
			e := c.text(name + ".enum")
			return []types.FuncArg{types.Enum(e)}, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: e}}
		}
		t := leafType([]string{"varchar", "decimal", "i32"}[sym.Choice(name+".type", 3)], name+".type")
		return []types.FuncArg{t.T.(types.FuncArg)}, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Type{Type: t.P}}
	}
	a, p := args("a")
	b, q := args("b")
	out := required("i64")
	var x, y expr.Expression
	var err error
	if sym.Choice("fn", 2) == 0 {
		v := c.scalarVariant(0)
		if x, err = expr.NewCustomScalarFunc(c.reg, v, out, nil, a...); err != nil {
			panic(err)
		}
		if y, err = expr.NewCustomScalarFunc(c.reg, v, out, nil, b...); err != nil {
			panic(err)
		}
	} else {
		v := c.windowVariant(0)
		if x, err = expr.NewCustomWindowFunc(c.reg, v, out, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, a...); err != nil {
			panic(err)
		}
		if y, err = expr.NewCustomWindowFunc(c.reg, v, out, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, b...); err != nil {
			panic(err)
		}
	}
	sameArgs := sym.ProtoEqual(p, q)
	sym.Assert(expr.FuncArgsEqual(a[0], b[0]) == sameArgs, "arguments are equal exactly when the messages are")
	eq := x.Equals(y)
	sym.Assert(eq == sameArgs, "calls are equal exactly when the arguments are")
	sym.Assert(eq == y.Equals(x), "symmetric")
	if eq {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

func X03Paths() {
	path := func(name string) []seg {
		var r []seg
		for i := range 1 + sym.Choice(name+".steps", 3) {
			n := name + "." + strconv.Itoa(i)
			switch sym.Choice(n+".kind", 3) {
			case 0:
				r = append(r, fld(sym.Int32(n)))
			case 1:
				r = append(r, seg{kind: "list", n: sym.Int32(n)})
			case 2:
				r = append(r, seg{kind: "key", key: litWith("i32", n, types.NullabilityRequired, 0)})
			}
		}
		return r
	}
	s, p := segs(path("a"))
	t, q := segs(path("b"))
	eq := s.Equals(t)
	sym.Assert(eq == sym.ProtoEqual(p, q), "paths are equal exactly when the messages are")
	sym.Assert(eq == t.Equals(s), "symmetric")
	x, y := &expr.FieldReference{Root: expr.RootReference, Reference: s}, &expr.FieldReference{Root: expr.RootReference, Reference: t}
	sym.Assert(x.Equals(y) == eq, "references are equal exactly when their paths are")
	if eq {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}
