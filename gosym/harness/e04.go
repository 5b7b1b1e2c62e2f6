package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	ip "github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/types/parser"

	"verif/gosym/sym"
)

var _ = reg("E04",
	H{F: E04Kinds, Bounds: "one declared parameter of every kind, nested one level, against one argument of every kind, nested one level; every length, precision, scale and nullability; all nullability handlings; argument positions -1..2", Reach: []string{"match", "no match"}},
	H{F: E04Variadic, Bounds: "1..2 (deep: 3) parameters, plain or variadic with every minimum 0..3 and maximum 0..4, consistent or not; 0..4 (deep: 5) arguments of three kinds with every length and nullability; every position", Reach: []string{"match", "no match"}},
	H{F: E04At, Bounds: "the same functions; every position -1..5"},
	H{F: E04Shared, Bounds: "two parameters that share integer or any variables at the top or nested, plain or variadic with up to 3 arguments, against arguments of the declared shapes with every parameter value", Reach: []string{"match", "no match"}},
	H{F: E04Enum, Bounds: "1..2 parameters, each an enum, any type or an i32, against enum and i32 arguments; all nullability handlings", Reach: []string{"enum"}},
	H{F: E04UDTName, Bounds: "two user-defined types with every anchor, a parameter of one of them", Reach: []string{"same", "other"}},
)

var _ = reg("E05",
	H{F: E05Resolve, Bounds: "functions of 1..2 (deep: 3) parameters, plain or variadic with 0..4 arguments, all nullability handlings, nine kinds of result types; every length and nullability", Reach: []string{"resolved", "error", "nullable", "required"}},
	H{F: E05Mirror, Bounds: "functions of 1..3 i32 parameters, plain or variadic, of all three kinds; 0..4 (deep: 5) arguments of every nullability; all handlings", Reach: []string{"nullable", "required", "error"}},
	H{F: E05Shared, Bounds: "functions whose result uses the integer and any variables of their parameters, nested ones included; arguments of the declared shapes with every parameter value and nullability", Reach: []string{"resolved", "error"}},
)

// iparam is an integer parameter: a variable or a constant.
type iparam struct {
	v string
	c int32
}

func (i iparam) def() ip.IntegerParameter {
	if i.v != "" {
		return ip.NewVariableIntParam(i.v)
	}
	return ip.NewConcreteIntParam(i.c)
}

// pt describes a declared type; fits and concrete are the reference semantics.
type pt struct {
	kind string
	n    types.Nullability
	name string // of an any type
	a, b iparam
	kids []pt
}

func (p pt) def() types.FuncDefArgType {
	kid := func(i int) types.FuncDefArgType { return p.kids[i].def() }
	switch p.kind {
	case "i32":
		return &types.Int32Type{Nullability: p.n}
	case "string":
		return &types.StringType{Nullability: p.n}
	case "any":
		return &types.AnyType{Name: p.name, Nullability: p.n}
	case "fixedchar":
		return &types.ParameterizedFixedCharType{IntegerOption: p.a.def(), Nullability: p.n}
	case "varchar":
		return &types.ParameterizedVarCharType{IntegerOption: p.a.def(), Nullability: p.n}
	case "precision_timestamp":
		return &types.ParameterizedPrecisionTimestampType{IntegerOption: p.a.def(), Nullability: p.n}
	case "decimal":
		return &types.ParameterizedDecimalType{Precision: p.a.def(), Scale: p.b.def(), Nullability: p.n}
	case "list":
		return &types.ParameterizedListType{Type: kid(0), Nullability: p.n}
	case "map":
		return &types.ParameterizedMapType{Key: kid(0), Value: kid(1), Nullability: p.n}
	case "struct":
		var ts []types.FuncDefArgType
		for i := range p.kids {
			ts = append(ts, kid(i))
		}
		return &types.ParameterizedStructType{Types: ts, Nullability: p.n}
	case "func":
		var ts []types.FuncDefArgType
		for i := range p.kids[1:] {
			ts = append(ts, kid(i))
		}
		return &types.ParameterizedFuncType{Parameters: ts, Return: kid(len(p.kids) - 1), Nullability: p.n}
	case "udt":
		r := &types.ParameterizedUserDefinedType{Name: "t", Nullability: p.n}
		for i := range p.kids {
			r.TypeParameters = append(r.TypeParameters, &types.DataTypeUDTParam{Type: kid(i)})
		}
		return r
	case "udtint":
		return &types.ParameterizedUserDefinedType{Name: "t", Nullability: p.n, TypeParameters: []types.UDTParameter{&types.IntegerUDTParam{Integer: p.a.c}}}
	}
	panic(p.kind)
}

// binds are the observed values of the variables.
type binds struct {
	ints  []ibind
	types []tbind
}

type ibind struct {
	v string
	x int32
}

type tbind struct {
	v string
	t types.Type
}

func (i iparam) fits(x int32, b *binds) bool {
	if i.v == "" {
		return i.c == x
	}
	b.ints = append(b.ints, ibind{i.v, x})
	return true
}

func allFit(ps []pt, as []types.Type, exact bool, b *binds) bool {
	if len(ps) != len(as) {
		return false
	}
	r := true
	for i := range ps {
		r = sym.And(r, ps[i].fits(as[i], exact, b))
	}
	return r
}

// fits says whether a value of type a can be passed for p, and records variables.
func (p pt) fits(a types.Type, exact bool, b *binds) bool {
	r := true
	if exact {
		r = a.GetNullability() == p.n
	}
	switch p.kind {
	case "i32":
		_, ok := a.(*types.Int32Type)
		return sym.And(r, ok)
	case "string":
		_, ok := a.(*types.StringType)
		return sym.And(r, ok)
	case "any":
		if p.name != "any" {
			b.types = append(b.types, tbind{p.name, a})
		}
		return r
	case "fixedchar":
		if x, ok := a.(*types.FixedCharType); ok {
			return sym.And(r, p.a.fits(x.Length, b))
		}
	case "varchar":
		if x, ok := a.(*types.VarCharType); ok {
			return sym.And(r, p.a.fits(x.Length, b))
		}
	case "precision_timestamp":
		if x, ok := a.(*types.PrecisionTimestampType); ok {
			return sym.And(r, p.a.fits(int32(x.Precision), b))
		}
	case "decimal":
		if x, ok := a.(*types.DecimalType); ok {
			return sym.And(r, sym.And(p.a.fits(x.Precision, b), p.b.fits(x.Scale, b)))
		}
	case "list":
		if x, ok := a.(*types.ListType); ok {
			return sym.And(r, p.kids[0].fits(x.Type, exact, b))
		}
	case "map":
		if x, ok := a.(*types.MapType); ok {
			return sym.And(r, allFit(p.kids, []types.Type{x.Key, x.Value}, exact, b))
		}
	case "struct":
		if x, ok := a.(*types.StructType); ok {
			return sym.And(r, allFit(p.kids, x.Types, exact, b))
		}
	case "func":
		if x, ok := a.(*types.FuncType); ok {
			return sym.And(r, allFit(p.kids, append(append([]types.Type{}, x.ParameterTypes...), x.ReturnType), exact, b))
		}
	case "udt":
		if x, ok := a.(*types.UserDefinedType); ok {
			if len(x.TypeParameters) != len(p.kids) {
				return false
			}
			for i := range p.kids {
				d, ok := x.TypeParameters[i].(*types.DataTypeParameter)
				if !ok {
					return false
				}
				r = sym.And(r, p.kids[i].fits(d.Type, exact, b))
			}
			return r
		}
	case "udtint":
		if x, ok := a.(*types.UserDefinedType); ok && len(x.TypeParameters) == 1 {
			if i, ok := x.TypeParameters[0].(types.IntegerParameter); ok {
				return sym.And(r, int64(i) == int64(p.a.c))
			}
		}
	}
	return false
}

func sameBase(a, b types.Type) bool {
	return a.WithNullability(types.NullabilityRequired).Equals(b.WithNullability(types.NullabilityRequired))
}

// consistent says whether every variable has one value.
func (b *binds) consistent() bool {
	r := true
	for i, x := range b.ints {
		for _, y := range b.ints[:i] {
			if x.v == y.v {
				r = sym.And(r, x.x == y.x)
			}
		}
	}
	for i, x := range b.types {
		for _, y := range b.types[:i] {
			if x.v == y.v {
				r = sym.And(r, sameBase(y.t, x.t))
				break
			}
		}
	}
	return r
}

// sig is a declared function.
type sig struct {
	params   []pt
	variadic *extensions.VariadicBehavior
	handling extensions.NullabilityHandling
	ret      *pt
}

var handlings = []extensions.NullabilityHandling{extensions.MirrorNullability, extensions.DiscreteNullability, extensions.DeclaredOutputNullability, ""}

func (s sig) impl() extensions.ScalarFunctionImpl {
	r := extensions.ScalarFunctionImpl{Nullability: s.handling, Variadic: s.variadic}
	for _, p := range s.params {
		r.Args = append(r.Args, extensions.ValueArg{Value: &parser.TypeExpression{ValueType: p.def()}})
	}
	if s.ret != nil {
		r.Return = &parser.TypeExpression{ValueType: s.ret.def()}
	}
	return r
}

const sigURN = "extension:o:f"

// variant of any of the three kinds.
func (s sig) variant(kind int) extensions.FunctionVariant {
	switch kind {
	case 1:
		f := extensions.AggregateFunction{Name: "f", Impls: []extensions.AggregateFunctionImpl{{ScalarFunctionImpl: s.impl()}}}
		return f.GetVariants(sigURN)[0]
	case 2:
		f := extensions.WindowFunction{Name: "f", Impls: []extensions.WindowFunctionImpl{{AggregateFunctionImpl: extensions.AggregateFunctionImpl{ScalarFunctionImpl: s.impl()}}}}
		return f.GetVariants(sigURN)[0]
	}
	f := extensions.ScalarFunction{Name: "f", Impls: []extensions.ScalarFunctionImpl{s.impl()}}
	return f.GetVariants(sigURN)[0]
}

func (s sig) param(i int) pt {
	if i >= len(s.params) {
		i = len(s.params) - 1
	}
	return s.params[i]
}

// countOK says whether n arguments are allowed.
func (s sig) countOK(n int) bool {
	if s.variadic == nil {
		return n == len(s.params)
	}
	v := n - (len(s.params) - 1)
	if v < 0 {
		return false
	}
	return sym.And(v >= s.variadic.Min, sym.Or(s.variadic.Max == 0, v <= s.variadic.Max))
}

// accepts says whether a call with these arguments matches, and gives the variables.
func (s sig) accepts(args []types.Type) (bool, *binds) {
	b := &binds{}
	r := s.countOK(len(args))
	exact := s.handling == extensions.DiscreteNullability
	if s.variadic == nil && len(args) != len(s.params) {
		return false, b
	}
	for i, a := range args {
		pb := &binds{}
		r = sym.And(r, s.param(i).fits(a, exact, pb))
		if i < len(s.params) {
			// the integer variables are those of the declared parameters
			b.ints = append(b.ints, pb.ints...)
		}
		b.types = append(b.types, pb.types...)
	}
	r = sym.And(r, b.consistent())
	if s.variadic != nil && s.variadic.ParameterConsistency == extensions.ConsistentParams {
		for i := len(s.params); i < len(args); i++ {
			r = sym.And(r, sameBase(args[i-1], args[i]))
		}
	}
	return r, b
}

func (s sig) checkMatch(v extensions.FunctionVariant, args []types.Type) {
	want, _ := s.accepts(args)
	var ok bool
	var err error
	panicked := sym.Catch(func() { ok, err = v.Match(args) })
	sym.Assert(!panicked, "matching does not panic")
	if panicked {
		return
	}
	sym.Assert(ok == want, "matches exactly when the declaration accepts the arguments")
	if ok {
		sym.Assert(err == nil, "a match is not an error")
		sym.Reach("match")
	} else {
		sym.Reach("no match")
	}
}

func (s sig) checkMatchAt(v extensions.FunctionVariant, a types.Type, pos int) {
	var ok bool
	var err error
	panicked := sym.Catch(func() { ok, err = v.MatchAt(a, pos) })
	sym.Assert(!panicked, "matching a position does not panic")
	if panicked {
		return
	}
	if pos < 0 {
		sym.Assert(!ok && err != nil, "a negative position is an error")
		return
	}
	sym.Assert(err == nil, "a position is not an error")
	b := &binds{}
	want := s.param(pos).fits(a, s.handling == extensions.DiscreteNullability, b)
	if pos >= len(s.params) || s.variadic != nil && pos == len(s.params)-1 {
		if s.variadic == nil {
			want = false
		} else {
			want = sym.And(want, sym.Or(s.variadic.Max == 0, pos-(len(s.params)-1) < s.variadic.Max))
		}
	}
	sym.Assert(ok == want, "a position matches exactly when its parameter accepts the argument")
}

// argLeaf is an argument of one of the leaf kinds.
func argLeaf(name string, kinds ...string) types.Type {
	return leafTypeWith(kinds[sym.Choice(name+".kind", len(kinds))], name, nul2(name+".nul"), 0).T
}

var matchKinds = []string{"i32", "string", "fixedchar", "varchar", "decimal", "precision_timestamp"}

func anyArg(name string) types.Type {
	k := sym.Choice(name, 9)
	n := nul2(name + ".nul")
	kid := func() types.Type { return argLeaf(name+".kid", "i32", "fixedchar", "varchar") }
	i32 := func() types.Type { return &types.Int32Type{Nullability: nul2(name + ".i32")} }
	switch k {
	case 0:
		return argLeaf(name, matchKinds...)
	case 1:
		return &types.ListType{Type: kid(), Nullability: n}
	case 2:
		return &types.MapType{Key: kid(), Value: i32(), Nullability: n}
	case 3:
		return &types.StructType{Types: []types.Type{kid(), i32()}, Nullability: n}
	case 4:
		return &types.StructType{Types: []types.Type{}, Nullability: n}
	case 5:
		return &types.FuncType{ParameterTypes: []types.Type{kid()}, ReturnType: i32(), Nullability: n}
	case 6:
		return &types.UserDefinedType{TypeReference: sym.Uint32(name + ".ref"), TypeParameters: []types.TypeParam{&types.DataTypeParameter{Type: kid()}}, Nullability: n}
	case 7:
		return &types.UserDefinedType{TypeParameters: []types.TypeParam{types.IntegerParameter(sym.Int64(name + ".int"))}, Nullability: n}
	}
	return &types.UserDefinedType{TypeParameters: []types.TypeParam{}, Nullability: n}
}

func leafParam(name string, kinds ...string) pt {
	n := nul2(name + ".nul")
	switch k := kinds[sym.Choice(name+".kind", len(kinds))]; k {
	case "any":
		return pt{kind: "any", name: "any", n: n}
	case "any1", "any2":
		return pt{kind: "any", name: k, n: n}
	case "fixedchar", "varchar", "precision_timestamp":
		return pt{kind: k, n: n, a: iparam{v: "L"}}
	case "fixedcharc", "varcharc", "precision_timestampc":
		c := sym.Int32(name + ".c")
		if k == "precision_timestampc" {
			c = int32(prec(name + ".prec"))
		}
		return pt{kind: k[:len(k)-1], n: n, a: iparam{c: c}}
	case "decimal":
		return pt{kind: k, n: n, a: iparam{v: "P"}, b: iparam{v: "S"}}
	case "decimalc":
		return pt{kind: "decimal", n: n, a: iparam{v: "P"}, b: iparam{c: sym.Int32(name + ".c")}}
	default:
		return pt{kind: k, n: n}
	}
}

func anyParam(name string) pt {
	k := sym.Choice(name, 9)
	n := nul2(name + ".nul")
	kid := func() pt { return leafParam(name+".kid", "i32", "any1", "fixedchar", "fixedcharc") }
	i32 := func() pt { return pt{kind: "i32", n: nul2(name + ".i32")} }
	switch k {
	case 0:
		return leafParam(name, "i32", "string", "any", "any1", "fixedchar", "fixedcharc", "varchar", "varcharc", "precision_timestamp", "precision_timestampc", "decimal", "decimalc")
	case 1:
		return pt{kind: "list", kids: []pt{kid()}, n: n}
	case 2:
		return pt{kind: "map", kids: []pt{kid(), i32()}, n: n}
	case 3:
		return pt{kind: "struct", kids: []pt{kid(), i32()}, n: n}
	case 4:
		return pt{kind: "struct", n: n}
	case 5:
		return pt{kind: "func", kids: []pt{kid(), i32()}, n: n}
	case 6:
		return pt{kind: "udt", kids: []pt{kid()}, n: n}
	case 7:
		return pt{kind: "udtint", a: iparam{c: sym.Int32(name + ".int")}, n: n}
	}
	return pt{kind: "udt", n: n}
}

func E04Kinds() {
	s := sig{params: []pt{anyParam("param")}, handling: handlings[sym.Choice("handling", 4)]}
	v := s.variant(0)
	a := anyArg("arg")
	s.checkMatch(v, []types.Type{a})
	for pos := -1; pos <= 2; pos++ {
		s.checkMatchAt(v, a, pos)
	}
}

// anyVariadic is no or any variadic behaviour.
func anyVariadic() *extensions.VariadicBehavior {
	k := sym.Choice("variadic", 3)
	if k == 0 {
		return nil
	}
	v := &extensions.VariadicBehavior{Min: sym.Int("min"), Max: sym.Int("max"), ParameterConsistency: extensions.InconsistentParams}
	if k == 1 {
		v.ParameterConsistency = extensions.ConsistentParams
	}
	sym.Assume(sym.And(sym.And(v.Min >= 0, v.Min <= 3), sym.And(v.Max >= 0, v.Max <= 4)))
	sym.Assume(sym.Or(v.Max == 0, v.Max >= v.Min))
	return v
}

// variadicSig is a function with fixed parameters and a last one of several kinds.
func variadicSig() sig {
	s := sig{handling: handlings[sym.Choice("handling", 3)], variadic: anyVariadic()}
	last := []string{"i32", "any1", "fixedchar"}
	n := 1 + sym.Choice("params", 2)
	if sym.Deep() {
		n = 1 + sym.Choice("params.deep", 3)
		last = append(last, "any", "fixedcharc")
	}
	for i := 0; i < n-1; i++ {
		s.params = append(s.params, pt{kind: "i32", n: nul2("fixed" + strconv.Itoa(i))})
	}
	s.params = append(s.params, leafParam("last", last...))
	return s
}

// variadicArgs are up to most (deep: 5) arguments.
func variadicArgs(most int, kinds ...string) []types.Type {
	if sym.Deep() {
		most = 5
	}
	var args []types.Type
	for i, n := 0, sym.Choice("args", most+1); i < n; i++ {
		args = append(args, argLeaf("arg"+strconv.Itoa(i), kinds...))
	}
	return args
}

func E04Variadic() {
	s := variadicSig()
	kind := sym.Choice("function", 3)
	v := s.variant(kind)
	args := variadicArgs(3, "i32", "fixedchar")
	s.checkMatch(v, args)
}

// E04At: MatchAt of every position agrees with the parameter there.
func E04At() {
	s := variadicSig()
	s.checkMatchAt(s.variant(sym.Choice("function", 3)), argLeaf("at", "i32", "fixedchar"), sym.Choice("pos", 7)-1)
}

func any1(n string) pt          { return pt{kind: "any", name: n, n: types.NullabilityRequired} }
func chr(kind, l string) pt     { return pt{kind: kind, a: iparam{v: l}, n: types.NullabilityRequired} }
func dec(p, s iparam) pt        { return pt{kind: "decimal", a: p, b: s, n: types.NullabilityRequired} }
func nest(k string, c ...pt) pt { return pt{kind: k, kids: c, n: types.NullabilityRequired} }

// sharedSigs are parameter pairs that share variables.
func sharedParams() []pt {
	i32 := pt{kind: "i32", n: types.NullabilityRequired}
	v := func(s string) iparam { return iparam{v: s} }
	c := iparam{c: 2}
	all := [][]pt{
		{any1("any1"), any1("any1")},
		{any1("any"), any1("any")},
		{any1("any1"), any1("any2")},
		{nest("list", any1("any1")), any1("any1")},
		{nest("map", any1("any1"), any1("any2")), any1("any2")},
		{nest("map", any1("any1"), any1("any1")), i32},
		{nest("struct", any1("any1"), i32), any1("any1")},
		{nest("func", any1("any1"), any1("any1")), any1("any1")},
		{nest("func", any1("any1"), any1("any2")), nest("list", any1("any1"))},
		{nest("udt", any1("any1")), any1("any1")},
		{chr("fixedchar", "L"), chr("varchar", "L")},
		{chr("fixedchar", "L1"), chr("varchar", "L2")},
		{chr("precision_timestamp", "L"), chr("fixedchar", "L")},
		{dec(v("P"), v("S")), dec(v("P"), v("S"))},
		{dec(v("P"), v("S")), dec(v("S"), v("P"))},
		{dec(v("P"), c), dec(v("Q"), c)},
		{dec(v("P"), c), chr("varchar", "P")},
		{nest("list", chr("fixedchar", "L")), chr("fixedchar", "L")},
		{nest("map", chr("fixedchar", "L"), i32), chr("varchar", "L")},
		{nest("map", i32, chr("fixedchar", "L")), chr("varchar", "L")},
		{nest("struct", chr("fixedchar", "L"), i32), chr("varchar", "L")},
		{nest("func", i32, chr("fixedchar", "L")), chr("varchar", "L")},
		{nest("udt", chr("fixedchar", "L")), chr("varchar", "L")},
		{nest("udt", i32, chr("fixedchar", "L")), nest("udt", chr("varchar", "L"))},
		{nest("struct", chr("fixedchar", "L"), any1("any1")), nest("struct", any1("any1"), chr("fixedchar", "L"))},
	}
	return all[sym.Choice("shared", len(all))]
}

// shaped is an argument of the shape of p.
func shaped(name string, p pt) types.Type {
	n := nul2(name + ".nul")
	kid := func(i int) types.Type { return shaped(name+"."+strconv.Itoa(i), p.kids[i]) }
	switch p.kind {
	case "any":
		return argLeaf(name, "i32", "fixedchar")
	case "list":
		return &types.ListType{Type: kid(0), Nullability: n}
	case "map":
		return &types.MapType{Key: kid(0), Value: kid(1), Nullability: n}
	case "struct":
		r := &types.StructType{Nullability: n}
		for i := range p.kids {
			r.Types = append(r.Types, kid(i))
		}
		return r
	case "func":
		r := &types.FuncType{Nullability: n, ReturnType: kid(len(p.kids) - 1)}
		for i := range p.kids[1:] {
			r.ParameterTypes = append(r.ParameterTypes, kid(i))
		}
		return r
	case "udt":
		r := &types.UserDefinedType{Nullability: n, TypeReference: 7}
		for i := range p.kids {
			r.TypeParameters = append(r.TypeParameters, &types.DataTypeParameter{Type: kid(i)})
		}
		return r
	}
	return leafTypeWith(p.kind, name, n, 0).T
}

func sharedSig() (sig, []types.Type) {
	s := sig{params: sharedParams(), handling: handlings[sym.Choice("handling", 3)]}
	var args []types.Type
	for i, p := range s.params {
		args = append(args, shaped("arg"+strconv.Itoa(i), p))
	}
	if sym.Choice("variadic", 2) == 1 {
		s.variadic = &extensions.VariadicBehavior{ParameterConsistency: extensions.ConsistentParams}
		if sym.Choice("count", 2) == 0 {
			args = args[:1]
		} else {
			args = append(args, shaped("extra", s.params[1]))
		}
	}
	return s, args
}

func E04Shared() {
	s, args := sharedSig()
	s.checkMatch(s.variant(0), args)
}

// E04UDTName: a parameter of a user-defined type accepts that type only.
func E04UDTName() {
	a, b := sym.Uint32("a"), sym.Uint32("b")
	sym.Assume(a != b)
	s := sig{params: []pt{{kind: "udt", n: types.NullabilityRequired}}, handling: extensions.MirrorNullability}
	v := s.variant(0)
	// anchor a is the parameter's type "t", anchor b another one
	ok, _ := v.Match([]types.Type{&types.UserDefinedType{TypeReference: a, Nullability: types.NullabilityRequired, TypeParameters: []types.TypeParam{}}})
	sym.Assert(ok, "the declared user-defined type matches")
	sym.Reach("same")
	ok, _ = v.Match([]types.Type{&types.UserDefinedType{TypeReference: b, Nullability: types.NullabilityRequired, TypeParameters: []types.TypeParam{}}})
	sym.Reach("other")
	sym.Case("another user-defined type")
	sym.Assert(!ok, "another user-defined type does not match")
}

// E04Enum: enum arguments are for enum parameters only, values for value parameters only.
func E04Enum() {
	v := extensions.ScalarFunctionImpl{Nullability: handlings[sym.Choice("handling", len(handlings))], Return: &parser.TypeExpression{ValueType: &types.BooleanType{Nullability: types.NullabilityRequired}}}
	kinds := []int{}
	n := 1 + sym.Choice("params", 2)
	for i := range n {
		k := sym.Choice("param"+strconv.Itoa(i), 3)
		kinds = append(kinds, k)
		switch k {
		case 0:
			v.Args = append(v.Args, extensions.EnumArg{Options: []string{"A", "B"}})
		case 1:
			v.Args = append(v.Args, extensions.ValueArg{Value: &parser.TypeExpression{ValueType: &types.AnyType{Name: "any", Nullability: types.NullabilityRequired}}})
		case 2:
			v.Args = append(v.Args, extensions.ValueArg{Value: &parser.TypeExpression{ValueType: &types.Int32Type{Nullability: types.NullabilityRequired}}})
		}
	}
	fv := (&extensions.ScalarFunction{Name: "f", Impls: []extensions.ScalarFunctionImpl{v}}).GetVariants(sigURN)[0]
	want := true
	args := []types.Type{}
	for i := range n {
		enum := sym.Choice("arg"+strconv.Itoa(i), 2) == 0
		if enum {
			args = append(args, types.CommonEnumType)
		} else {
			args = append(args, &types.Int32Type{Nullability: types.NullabilityRequired})
		}
		want = sym.And(want, enum == (kinds[i] == 0))
	}
	got, err := fv.Match(args)
	sym.Assert(err == nil, "no error")
	sym.Assert(got == want, "enum arguments match enum parameters only")
	for i, a := range args {
		got, err := fv.MatchAt(a, i)
		sym.Assert(err == nil && got == ((a == types.Type(types.CommonEnumType)) == (kinds[i] == 0)), "at a position")
	}
	sym.Reach("enum")
}
