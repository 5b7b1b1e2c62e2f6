package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/gosym/sym"
)

var _ = reg("X05",
	H{F: X05Root, Bounds: "schemas of 0..3 columns, one of them any struct, list or map to depth 2 (3 when deep); paths of 1..3 steps (4 when deep) of any kind with any 32-bit index and map keys of two types; built, made by the expression builder and decoded", Reach: []string{"accepted", "rejected"}},
	H{F: X05Expression, Bounds: "paths of 1..2 steps into struct, list and map expressions and literals, built and decoded", Reach: []string{"accepted", "rejected"}},
	H{F: X05Lambda, Bounds: "references to the parameters of two nested lambdas of 0..2 parameters, any 32-bit field and number of steps out, with a further step into a struct", Reach: []string{"accepted", "rejected"}},
)

// navShape is a type to navigate, of at most depth levels below it.
func navShape(name string, depth int) types.Type {
	n := nul(name + ".nul")
	k := 0
	if depth > 0 {
		k = sym.Choice(name+".shape", 5)
	}
	switch k {
	case 1:
		return &types.StructType{Nullability: n, Types: []types.Type{required("date"), navShape(name+".f", depth-1)}}
	case 2:
		return &types.ListType{Nullability: n, Type: navShape(name+".e", depth-1)}
	case 3:
		return &types.MapType{Nullability: n, Key: &types.StringType{Nullability: types.NullabilityRequired}, Value: navShape(name+".v", depth-1)}
	case 4:
		return &types.StructType{Nullability: n}
	}
	return &types.Int32Type{Nullability: n, TypeVariationRef: sym.Uint32(name + ".var")}
}

// anyPath is a path of steps of any kind from a type, with at most one more step
// after one that does not exist.
func anyPath(name string, t types.Type, max int) []seg {
	var r []seg
	for i := range 1 + sym.Choice(name+".steps", max) {
		if i > 0 && t != nil {
			t = denoted(t, r[i-1:])
		}
		if t == nil {
			r = append(r, fld(0))
			break
		}
		n := name + "." + strconv.Itoa(i)
		switch sym.Choice(n+".kind", 4) {
		case 0:
			r = append(r, fld(sym.Int32(n)))
		case 1:
			r = append(r, seg{kind: "list", n: sym.Int32(n)})
		case 2:
			r = append(r, seg{kind: "key", key: litWith("string", n, nul2(n+".nul"), 0)})
		case 3:
			r = append(r, seg{kind: "key", key: litWith("i64", n, types.NullabilityRequired, 0)})
		}
	}
	return r
}

// denoted is the type at the end of a path, nil if there is none.
func denoted(t types.Type, path []seg) types.Type {
	if len(path) == 0 {
		return t
	}
	switch s := path[0]; s.kind {
	case "field":
		if st, ok := t.(*types.StructType); ok {
			for i, f := range st.Types {
				if s.n == int32(i) {
					return denoted(f, path[1:])
				}
			}
		}
	case "list":
		if l, ok := t.(*types.ListType); ok {
			return denoted(l.Type, path[1:])
		}
	case "key":
		if m, ok := t.(*types.MapType); ok {
			if _, ok := s.key.T.(*types.StringType); ok && s.key.T.GetNullability() == types.NullabilityRequired {
				return denoted(m.Value, path[1:])
			}
		}
	}
	return nil
}

func resolved(e expr.Expression, err error, want types.Type, what string) {
	sym.Assert((err == nil) == (want != nil), what+" exactly when every step exists")
	if err != nil {
		return
	}
	sym.Assert(e.GetType() != nil && sym.DeepEqual(e.GetType(), want), what+": the type of the value denoted")
}

func X05Root() {
	var cols []types.Type
	depth, max := 2, 3
	if sym.Deep() {
		depth, max = 3, 4
	}
	switch n := sym.Choice("columns", 4); n {
	case 0:
	case 1:
		cols = []types.Type{navShape("c", depth)}
	case 2:
		cols = []types.Type{navShape("c", depth), required("i64")}
	case 3:
		cols = []types.Type{required("i64"), navShape("c", depth), &types.BooleanType{Nullability: types.NullabilityNullable}}
	}
	schema := types.NewRecordTypeFromTypes(cols)
	top := &types.StructType{Types: cols, Nullability: types.NullabilityRequired}
	path := anyPath("p", top, max)
	want := denoted(top, path)
	s, p := segs(path)

	e, err := expr.NewRootFieldRef(s, schema)
	resolved(e, err, want, "built")
	flat := make([]expr.ReferenceSegment, len(path))
	for i := range path {
		flat[i], _ = segs(path[i : i+1])
	}
	f := expr.FlattenRefSegments(flat...)
	sym.Assert(f.Equals(s), "steps compose to the path")
	c := newCtx()
	b := expr.ExprBuilder{Reg: c.reg, BaseSchema: schema}
	e2, err := b.RootRef(f).BuildExpr()
	resolved(e2, err, want, "built by the expression builder")
	d, err := expr.ExprFromProto(selP(nil, p), schema, c.reg)
	resolved(d, err, want, "decoded")
	if want != nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

func X05Expression() {
	lit := i32Lit("v")
	var root expr.Expression
	var rp *pb.Expression
	key := litWith("string", "k", types.NullabilityRequired, 0)
	switch sym.Choice("root", 7) {
	case 0:
		root, rp = &expr.StructExpr{Fields: []expr.Expression{lit.E}}, nestedP(false, 0, &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: []*pb.Expression{lit.P}}})
	case 1:
		root, rp = &expr.ListExpr{Values: []expr.Expression{lit.E}}, nestedP(false, 0, &pb.Expression_Nested_List_{List: &pb.Expression_Nested_List{Values: []*pb.Expression{lit.P}}})
	case 2:
		root = &expr.MapExpr{KeyValues: []struct{ Key, Value expr.Expression }{{key.L, lit.E}}}
		rp = nestedP(false, 0, &pb.Expression_Nested_Map_{Map: &pb.Expression_Nested_Map{KeyValues: []*pb.Expression_Nested_Map_KeyValue{{Key: litP(key.P), Value: lit.P}}}})
	case 3:
		l := flatLit("struct", "s", "i32")
		root, rp = l.L, litP(l.P)
	case 4:
		l := flatLit("list", "s", "decimal")
		root, rp = l.L, litP(l.P)
	case 5:
		n := types.NullabilityRequired
		t := &types.MapType{Nullability: n, Key: key.T, Value: &types.StructType{Nullability: n, Types: []types.Type{required("date")}}}
		root = &expr.Cast{Type: t, Input: lit.E}
		rp = root.ToProto()
	case 6:
		root, rp = lit.E, lit.P
	}
	path := anyPath("p", root.GetType(), 2)
	s, p := segs(path)
	want := denoted(root.GetType(), path)
	e, err := expr.NewFieldRef(root.(expr.RootRefType), s, nil)
	resolved(e, err, want, "built")
	c := newCtx()
	d, err := expr.ExprFromProto(selP(rp, p), c.schema, c.reg)
	resolved(d, err, want, "decoded")
	if want != nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

func X05Lambda() {
	c := newCtx()
	nn := types.NullabilityRequired
	mk := func(n int) *types.StructType {
		t := []types.Type{required("i32"), &types.StructType{Nullability: nn, Types: []types.Type{required("date")}}}
		return &types.StructType{Nullability: nn, Types: t[:n]}
	}
	outer, inner := mk(sym.Choice("outer", 3)), mk(sym.Choice("inner", 3))
	steps, field := sym.Uint32("steps"), sym.Int32("field")
	path := []seg{fld(field)}
	if sym.Choice("nested", 2) == 1 {
		path = append(path, fld(sym.Int32("sub")))
	}
	s, _ := segs(path)
	b := &expr.ExprBuilder{Reg: c.reg, BaseSchema: c.schema}
	e, err := b.Lambda(outer, b.Lambda(inner, b.LambdaParamRef(*s.(*expr.StructFieldRef), steps))).BuildExpr()
	var want types.Type
	switch steps {
	case 0:
		want = denoted(inner, path)
	case 1:
		want = denoted(outer, path)
	}
	if err == nil {
		e = e.(*expr.Lambda).Body.(*expr.Lambda).Body
	}
	resolved(e, err, want, "built")
	if want != nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}
