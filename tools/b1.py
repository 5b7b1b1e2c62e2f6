from make import seed
H='package main\n\n'
M='github.com/substrait-io/substrait-go/v8'
seed('t01-fixedchar-length','T01',[('types/types.go','Length:           t.FixedChar.Length,','Length:           int32(uint16(t.FixedChar.Length)),')],
 'a fixed_char longer than 65535','decoding keeps only the low 16 bits of a fixed_char length',
 H+f'''import "{M}/types"

func main() {{
	t := &types.FixedCharType{{Nullability: types.NullabilityRequired, Length: 70000}}
	if !types.TypeFromProto(types.TypeToProto(t)).Equals(t) {{
		panic("fixed_char<70000> does not survive a round trip")
	}}
}}
''')
seed('e04-consistent-pairs','E04',[('extensions/variants.go','for i := 0; i < len(actualTypes)-1; i++ {','for i := 0; i < len(actualTypes)-1; i += 2 {')],
 'three or more arguments to a variadic CONSISTENT function where only the pairs (0,1), (2,3).. agree','arguments of different types are accepted for a parameter that must be consistent',
 H+f'''import (
	"strings"

	"{M}/extensions"
	"{M}/types"
)

const file = `
urn: "extension:test:a"
scalar_functions:
  - name: f
    impls:
      - args:
          - name: x
            value: any
        variadic:
          min: 1
          parameterConsistency: CONSISTENT
        return: i8
`

func main() {{
	var c extensions.Collection
	if err := c.Load(strings.NewReader(file)); err != nil {{
		panic(err)
	}}
	f, ok := c.GetScalarFunc(extensions.FunctionID{{URN: "extension:test:a", Name: "f"}})
	if !ok {{
		panic("f not found")
	}}
	a, b := &types.Int8Type{{Nullability: types.NullabilityRequired}}, &types.Int16Type{{Nullability: types.NullabilityRequired}}
	if ok, err := f.Match([]types.Type{{a, a, b}}); ok && err == nil {{
		panic("inconsistent arguments accepted")
	}}
	if ok, _ := f.Match([]types.Type{{a, a, a}}); !ok {{
		panic("consistent arguments rejected")
	}}
}}
''')
seed('x02-window-bounds-type','X02',[('expr/expression.go','			fn.BoundsType = et.WindowFunction.BoundsType\n','')],
 'a window function call that the collection does not define (a custom function), with ROWS or RANGE bounds','decoding a custom window function loses its bounds type',
 H+f'''import (
	"{M}/expr"
	"{M}/extensions"
	"{M}/types"
)

func main() {{
	reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
	v := extensions.NewWindowFuncVariant(extensions.FunctionID{{URN: "extension:test:a", Name: "f:"}})
	fn, err := expr.NewCustomWindowFunc(reg, v, &types.Int8Type{{Nullability: types.NullabilityRequired}}, nil, types.AggInvocationAll, types.AggPhaseInitialToResult)
	if err != nil {{
		panic(err)
	}}
	fn.BoundsType = types.BoundsTypeRows
	out, err := expr.ExprFromProto(fn.ToProto(), nil, reg)
	if err != nil {{
		panic(err)
	}}
	if got := out.(*expr.WindowFunction).BoundsType; got != types.BoundsTypeRows {{
		panic(got.String())
	}}
}}
''')
seed('x01-empty-map-variation','X01',[('expr/literals.go','''func (t *MapLiteral) ToProtoLiteral() *proto.Expression_Literal {
	lit := &proto.Expression_Literal{
		Nullable:               t.Type.GetNullability() == types.NullabilityNullable,
		TypeVariationReference: t.Type.GetTypeVariationReference(),
	}
''','''func (t *MapLiteral) ToProtoLiteral() *proto.Expression_Literal {
	lit := &proto.Expression_Literal{
		Nullable: t.Type.GetNullability() == types.NullabilityNullable,
	}
	if len(t.Value) == 0 {
		lit.TypeVariationReference = t.Type.GetTypeVariationReference()
	}
''')],
 'a non-empty map literal whose type has a type variation','the type variation of a map literal is lost when it is encoded',
 H+f'''import (
	"{M}/expr"
	"{M}/types"
)

func main() {{
	k := expr.NewPrimitiveLiteral[int8](1, false)
	l := &expr.MapLiteral{{
		Value: expr.MapLiteralValue{{{{Key: k, Value: k}}}},
		Type:  &types.MapType{{Nullability: types.NullabilityRequired, TypeVariationRef: 3, Key: k.GetType(), Value: k.GetType()}},
	}}
	if out := expr.LiteralFromProto(l.ToProtoLiteral()); !out.Equals(l) {{
		panic(out.String())
	}}
}}
''')
seed('x04-ifthen-second-clause','X04',[('expr/expression.go','''		if out == nil && (afterIf != clause.If || afterThen != clause.Then) {
			out = &IfThen{ifs: slices.Clone(ex.ifs)}
		}
''','''		if out == nil && (afterIf != clause.If || afterThen != clause.Then) {
			out = &IfThen{ifs: slices.Clone(ex.ifs[:i+1])}
			out.ifs = append(out.ifs, ex.ifs[i+1:]...)
			out.ifs[0].If = afterIf
		}
''')],
 'a visitor that first changes a clause after the first one','the first condition is replaced with the one of the first rewritten clause',
 H+f'''import (
	"{M}/expr"
)

func main() {{
	c := expr.NewPrimitiveLiteral(true, false)
	d := expr.NewPrimitiveLiteral(false, false)
	one := expr.NewPrimitiveLiteral[int8](1, false)
	two := expr.NewPrimitiveLiteral[int8](2, false)
	ite, err := expr.NewIfThen(expr.IfThenPair{{If: c, Then: one}}, one, expr.IfThenPair{{If: d, Then: two}})
	if err != nil {{
		panic(err)
	}}
	out := ite.Visit(func(e expr.Expression) expr.Expression {{
		if e == expr.Expression(two) {{
			return expr.NewPrimitiveLiteral[int8](3, false)
		}}
		return e
	}})
	if first := out.(*expr.IfThen).IfPair(0).If; !first.Equals(c) {{
		panic(first.String())
	}}
}}
''')
seed('e02-encode-anchor-order','E02',[('extensions/extension_mgr.go','''	sort.Slice(decls, func(i, j int) bool {
		return decls[i].GetExtensionType().TypeAnchor < decls[j].GetExtensionType().TypeAnchor
	})
	typesCount := len(decls)
''','''	sort.Slice(decls, func(i, j int) bool {
		return decls[i].GetExtensionType().ExtensionUrnReference < decls[j].GetExtensionType().ExtensionUrnReference
	})
	typesCount := len(decls)
''')],
 'two user-defined types of one URN in a set','declarations of types of one extension come out in the order of the map iteration',
 H+f'''import (
	"{M}/extensions"
)

func main() {{
	s := extensions.NewSet()
	for _, n := range []string{{"a", "b", "c", "d", "e", "f", "g"}} {{
		s.GetTypeAnchor(extensions.TypeID{{URN: "extension:test:a", Name: n}})
	}}
	for range 50 {{
		_, decls := s.ToProto(extensions.GetDefaultCollectionWithNoError())
		for i, d := range decls {{
			if i > 0 && d.GetExtensionType().TypeAnchor < decls[i-1].GetExtensionType().TypeAnchor {{
				panic("declarations are not ordered by anchor")
			}}
		}}
	}}
}}
''')
