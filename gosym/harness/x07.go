package harness

import (
	"errors"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("X07",
	H{F: X07Call, Bounds: "5 functions (two overloads, variables, enum, variadic, discrete, user-defined) in each kind, by compound, plain or unknown name, with 0..2 (scalar 0..3, thorough 0..4) arguments of 8 kinds, any nullability", Reach: []string{"accepted", "rejected"}},
	H{F: X07Parts, Bounds: "0..2 options, sorts and partitions, any phase, invocation, bounds and bounds type, directly and with the builder", Reach: []string{"scalar", "aggregate", "window", "rejected"}},
	H{F: X07Custom, Bounds: "custom functions of each kind, any output type, 0..2 arguments", Reach: []string{"accepted", "rejected"}},
	H{F: X07Builder, Bounds: "casts, parameters, literals, references, enums and functions built as arguments, one of which may fail", Reach: []string{"accepted", "rejected"}},
	H{F: X07Attributes, Bounds: "variadic bounds, determinism, session dependence, order, set size, decomposability, window type of a custom variant", Reach: []string{"done"}},
)

const callURN = "extension:o:calls"

const callFuncs = `
  - name: add
    impls:
      - args: [{value: i32}, {value: i32}]
        return: i32
        DECOMP
      - args: [{value: i64}, {value: i64}]
        nullability: MIRROR
        return: i64
        DECOMP
  - name: pick
    impls:
      - args: [{name: which, options: [A, B]}, {value: any1}, {value: any1}]
        nullability: DECLARED_OUTPUT
        return: boolean?
  - name: cat
    impls:
      - args: [{value: string}, {value: "decimal<P,S>"}]
        variadic: {min: 1, max: 2}
        return: "decimal<P,S>"
  - name: strict
    impls:
      - args: [{value: i32?}, {value: "u!point"}]
        nullability: DISCRETE
        return: "u!point?"
  - name: none
    impls:
      - return: i64
`

var callsFile = func() string {
	decomp := func(s string) string {
		r := ""
		for i := 0; i < len(callFuncs); i++ {
			if i+6 <= len(callFuncs) && callFuncs[i:i+6] == "DECOMP" {
				r += s
				i += 5
				continue
			}
			r += callFuncs[i : i+1]
		}
		return r
	}
	d := "decomposable: MANY\n        intermediate: i64"
	return "urn: " + callURN + "\ntypes:\n  - name: point\nscalar_functions:" + decomp("deterministic: true") +
		"aggregate_functions:" + decomp(d) + "window_functions:" + decomp(d)
}()

func callsReg() (expr.ExtensionRegistry, bool) {
	c := &extensions.Collection{}
	if err := c.Load(&yamlFile{text: callsFile}); err != nil {
		sym.Assert(false, "the file loads")
		return expr.ExtensionRegistry{}, false
	}
	return expr.NewExtensionRegistry(extensions.NewSet(), c), true
}

type callArg struct {
	kind string
	null bool // nullable
	typ  types.Type
	arg  types.FuncArg
}

func genCallArg(reg expr.ExtensionRegistry, name string, i int) callArg {
	kinds := []string{"i32", "i64", "string", "decimal", "point", "enum", "type", "nil"}
	a := callArg{kind: kinds[sym.Choice(name+".kind", len(kinds))]}
	switch a.kind {
	case "enum":
		a.arg = types.Enum("A")
		return a
	case "type":
		a.arg = &types.Int32Type{Nullability: types.NullabilityRequired}
		return a
	case "nil":
		return a
	}
	a.null = sym.Bool(name + ".nul")
	n := nulOf(a.null)
	switch a.kind {
	case "i32":
		a.typ = &types.Int32Type{Nullability: n}
	case "i64":
		a.typ = &types.Int64Type{Nullability: n}
	case "string":
		a.typ = &types.StringType{Nullability: n}
	case "decimal":
		p, s := sym.Int32(name+".p"), sym.Int32(name+".s")
		sym.Assume(sym.And(sym.And(p >= 1, p <= 38), sym.And(s >= 0, s <= p)))
		a.typ = &types.DecimalType{Nullability: n, Precision: p, Scale: s}
	case "point":
		a.typ = &types.UserDefinedType{Nullability: n, TypeReference: reg.GetTypeAnchor(extensions.TypeID{URN: callURN, Name: "point"})}
	}
	a.arg = &expr.DynamicParameter{OutputType: a.typ, ParameterReference: uint32(i)}
	return a
}

var callNames = []string{"add", "add:i32_i32", "add:i64_i64", "pick", "pick:req_any_any", "cat", "cat:str_dec", "strict", "strict:i32_u!point", "none", "none:", "other", "add:i32"}

// callResult says which overload, if any, accepts the arguments, and the result type.
func callResult(name string, args []callArg) (compound string, ok bool, ret types.Type) {
	anyNull := false
	for _, a := range args {
		if a.kind == "type" || a.kind == "nil" {
			return "", false, nil
		}
		anyNull = sym.Or(anyNull, a.null)
	}
	mirror := nulOf(anyNull)
	is := func(kinds ...string) bool {
		if len(args) != len(kinds) {
			return false
		}
		for i, k := range kinds {
			if args[i].kind != k {
				return false
			}
		}
		return true
	}
	switch name {
	case "add", "add:i32_i32", "add:i64_i64":
		if is("i32", "i32") && name != "add:i64_i64" {
			return "add:i32_i32", true, &types.Int32Type{Nullability: mirror}
		}
		if is("i64", "i64") && name != "add:i32_i32" {
			return "add:i64_i64", true, &types.Int64Type{Nullability: mirror}
		}
	case "pick", "pick:req_any_any":
		if len(args) == 3 && args[0].kind == "enum" && args[1].kind != "enum" && args[2].kind != "enum" {
			same := sym.DeepEqual(args[1].typ.WithNullability(types.NullabilityRequired), args[2].typ.WithNullability(types.NullabilityRequired))
			return "pick:req_any_any", same, &types.BooleanType{Nullability: types.NullabilityNullable}
		}
	case "cat", "cat:str_dec":
		if is("string", "decimal") || is("string", "decimal", "decimal") {
			d := args[1].typ.(*types.DecimalType)
			same := true
			if len(args) == 3 {
				e := args[2].typ.(*types.DecimalType)
				same = sym.And(d.Precision == e.Precision, d.Scale == e.Scale)
			}
			return "cat:str_dec", same, &types.DecimalType{Nullability: mirror, Precision: d.Precision, Scale: d.Scale}
		}
	case "strict", "strict:i32_u!point":
		if is("i32", "point") {
			p := *args[1].typ.(*types.UserDefinedType)
			p.Nullability = types.NullabilityNullable
			return "strict:i32_u!point", sym.And(args[0].null, !args[1].null), &p
		}
	case "none", "none:":
		if len(args) == 0 {
			return "none:", true, &types.Int64Type{Nullability: types.NullabilityRequired}
		}
	}
	return "", false, nil
}

// invocation is what the three kinds of function calls have in common.
type invocation interface {
	expr.FunctionInvocation
	GetType() types.Type
	Name() string
	NArgs() int
	Arg(int) types.FuncArg
}

type argBuilder struct{ a types.FuncArg }

func (b argBuilder) BuildFuncArg() (types.FuncArg, error) { return b.a, nil }

func X07Call() {
	reg, loaded := callsReg()
	if !loaded {
		return
	}
	kind := []string{"scalar", "aggregate", "window"}[sym.Choice("function kind", 3)]
	sym.Case(kind)
	most := 2
	if sym.Deep() {
		most = 4
	} else if kind == "scalar" {
		most = 3
	}
	var args []callArg
	var fargs []types.FuncArg
	for i := range sym.Choice("args", most+1) {
		a := genCallArg(reg, "a"+string(rune('0'+i)), i)
		args = append(args, a)
		fargs = append(fargs, a.arg)
	}
	names := callNames
	if len(args) == 3 && !sym.Deep() {
		names = []string{"add", "pick", "cat:str_dec"}
	}
	name := names[sym.Choice("name", len(names))]
	id := extensions.FunctionID{URN: callURN, Name: name}
	compound, ok, want := callResult(name, args)
	var f invocation
	var err error
	switch kind {
	case "scalar":
		var x *expr.ScalarFunction
		x, err = expr.NewScalarFunc(reg, id, nil, fargs...)
		f = x
	case "aggregate":
		var x *expr.AggregateFunction
		x, err = expr.NewAggregateFunc(reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, fargs...)
		f = x
	case "window":
		var x *expr.WindowFunction
		x, err = expr.NewWindowFunc(reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, fargs...)
		f = x
	}
	if err != nil {
		sym.Assert(!ok, "a function that accepts the arguments is called")
		sym.Reach("rejected")
		return
	}
	sym.Assert(ok, "a call needs a function that accepts its arguments")
	if compound == "" {
		return
	}
	sym.Assert(f.ID() == extensions.FunctionID{URN: callURN, Name: compound} && f.CompoundName() == compound, "the overload called")
	sym.Assert(f.GetType().Equals(want), "the result type")
	sym.Assert(f.NArgs() == len(args), "the number of arguments")
	ts := f.GetArgTypes()
	sym.Assert(len(ts) == len(args), "the number of argument types")
	for i := range args {
		sym.Assert(f.Arg(i) == fargs[i], "the arguments in order")
		if args[i].kind == "enum" {
			sym.Assert(ts[i] == types.CommonEnumType, "the type of an enum argument")
		} else {
			sym.Assert(ts[i].Equals(args[i].typ), "the argument types in order")
		}
	}
	var back types.Type
	switch x := f.(type) {
	case *expr.ScalarFunction:
		e, err := expr.ExprFromProto(x.ToProto(), nil, reg)
		sym.Assert(err == nil && e.Equals(x), "a protobuf round trip")
		if err != nil {
			return
		}
		back = e.GetType()
	case *expr.AggregateFunction:
		e, err := expr.NewAggregateFunctionFromProto(x.ToProto(), nil, reg)
		sym.Assert(err == nil && e.ID() == x.ID(), "a protobuf round trip")
		if err != nil {
			return
		}
		back = e.GetType()
	case *expr.WindowFunction:
		e, err := expr.ExprFromProto(x.ToProto(), nil, reg)
		sym.Assert(err == nil && e.Equals(x), "a protobuf round trip")
		if err != nil {
			return
		}
		back = e.GetType()
	}
	sym.Assert(back.Equals(want), "the result type after a round trip")
	sym.Reach("accepted")
}

func X07Parts() {
	reg, loaded := callsReg()
	if !loaded {
		return
	}
	var opts []*types.FunctionOption
	for i := range sym.Choice("options", 3) {
		opts = append(opts, &types.FunctionOption{Name: sym.String("o"+string(rune('0'+i)), 1, 1), Preference: []string{"X", sym.String("p"+string(rune('0'+i)), 1, 1)}})
	}
	n := types.NullabilityRequired
	t := &types.Int32Type{Nullability: n}
	x := &expr.DynamicParameter{OutputType: t, ParameterReference: 1}
	y := &expr.DynamicParameter{OutputType: t, ParameterReference: 2}
	id := extensions.FunctionID{URN: callURN, Name: "add"}
	b := expr.ExprBuilder{Reg: reg}
	built := sym.Choice("built", 2) == 1
	checkOpts := func(got []*types.FunctionOption) {
		sym.Assert(len(got) == len(opts), "the number of options")
		for i := range opts {
			sym.Assert(got[i] == opts[i], "the options in order")
		}
	}
	find := func(get func(string) []string) {
		q := sym.String("q", 1, 1)
		var want []string
		for i := len(opts) - 1; i >= 0; i-- {
			if opts[i].Name == q {
				want = opts[i].Preference
			}
		}
		got := get(q)
		sym.Assert(len(got) == len(want), "the preferences of the option asked for")
		for i := range want {
			sym.Assert(got[i] == want[i], "the preferences of the option asked for")
		}
	}
	kind := []string{"scalar", "aggregate", "window"}[sym.Choice("function kind", 3)]
	sym.Case(kind)
	if kind == "scalar" {
		var f *expr.ScalarFunction
		var err error
		if built {
			f, err = b.ScalarFunc(id, opts...).Args(b.Expression(y)).Args(b.Expression(x), b.Expression(y)).Build()
		} else {
			f, err = expr.NewScalarFunc(reg, id, opts, x, y)
		}
		sym.Assert(err == nil, "accepted")
		if err != nil {
			return
		}
		sym.Assert(f.NArgs() == 2 && f.Arg(0) == types.FuncArg(x) && f.Arg(1) == types.FuncArg(y), "the arguments in order")
		checkOpts(f.GetOptions())
		find(f.GetOption)
		p := f.ToProto().GetScalarFunction()
		sym.Assert(len(p.Options) == len(opts) && p.FunctionReference == f.FuncRef(), "the protobuf form")
		for i := range opts {
			sym.Assert(sym.ProtoEqual(p.Options[i], opts[i]), "the options in protobuf form")
		}
		sym.Reach("scalar")
		return
	}
	phase, invocation := types.AggregationPhase(sym.Int32("phase")), types.AggregationInvocation(sym.Int32("invocation"))
	var sorts []expr.SortField
	for i := range sym.Choice("sorts", 3) {
		k, _ := sortKind("s"+string(rune('0'+i)), i == 1)
		sorts = append(sorts, expr.SortField{Expr: &expr.DynamicParameter{OutputType: t, ParameterReference: uint32(10 + i)}, Kind: k})
	}
	checkSorts := func(got []expr.SortField) {
		sym.Assert(len(got) == len(sorts), "the number of sorts")
		for i := range sorts {
			sym.Assert(got[i].Expr == sorts[i].Expr && got[i].Kind == sorts[i].Kind, "the sorts in order")
		}
	}
	if kind == "aggregate" {
		var f *expr.AggregateFunction
		var err error
		if built {
			f, err = b.AggFunc(id, opts...).Args(b.Expression(x), b.Expression(y)).Phase(phase).Invocation(invocation).Sorts(sorts...).Build()
		} else {
			f, err = expr.NewAggregateFunc(reg, id, opts, invocation, phase, sorts, x, y)
		}
		sym.Assert(err == nil, "accepted")
		if err != nil {
			return
		}
		check := func(f *expr.AggregateFunction) {
			sym.Assert(f.NArgs() == 2 && f.Arg(0) == types.FuncArg(x) && f.Arg(1) == types.FuncArg(y), "the arguments in order")
			checkOpts(f.GetOptions())
			checkSorts(f.Sorts)
			sym.Assert(sym.And(f.Phase() == phase, f.Invocation() == invocation), "phase and invocation")
		}
		check(f)
		find(f.GetOption)
		// a clone is the same and independent
		g := f.Clone()
		check(g)
		g.SetArg(0, y)
		if len(sorts) > 0 {
			g.Sorts[0].Expr = y
		}
		if len(opts) > 0 {
			g.GetOptions()[0] = nil
		}
		sym.Assert(g.Arg(0) == types.FuncArg(y), "the argument set")
		check(f)
		p := f.ToProto()
		sym.Assert(sym.And(p.Phase == phase, p.Invocation == invocation), "phase and invocation in protobuf form")
		sym.Assert(len(p.Sorts) == len(sorts) && len(p.Options) == len(opts) && len(p.Arguments) == 2, "the protobuf form")
		sym.Reach("aggregate")
		return
	}
	var parts []expr.Expression
	var lower, upper expr.Bound
	bt := types.BoundsTypeUnspecified
	var f *expr.WindowFunction
	var err error
	if built {
		w := b.WindowFunc(id, opts...).Args(b.Expression(x), b.Expression(y)).Phase(phase).Invocation(invocation).Sort(sorts...)
		var pbs []expr.Builder
		for i := range sym.Choice("partitions", 3) {
			e := &expr.DynamicParameter{OutputType: t, ParameterReference: uint32(20 + i)}
			parts = append(parts, e)
			pbs = append(pbs, b.Expression(e))
		}
		k := sym.Choice("bounds", 3)
		lower, _ = bound("lower", k)
		upper, _ = bound("upper", 2*k)
		bt = types.BoundsType(sym.Int32("bounds type"))
		f, err = w.Partitions(pbs...).Bounds(lower, upper).BoundsType(bt).Build()
	} else {
		f, err = expr.NewWindowFunc(reg, id, opts, invocation, phase, x, y)
		sorts = nil
	}
	valid := sym.Implies(bt == types.BoundsTypeRange, len(sorts) == 1)
	if err != nil {
		sym.Assert(!valid, "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "a range needs one sort")
	sym.Assert(f.NArgs() == 2 && f.Arg(0) == types.FuncArg(x) && f.Arg(1) == types.FuncArg(y), "the arguments in order")
	checkOpts(f.GetOptions())
	checkSorts(f.Sorts)
	sym.Assert(sym.And(f.Phase() == phase, f.Invocation() == invocation), "phase and invocation")
	sym.Assert(len(f.Partitions) == len(parts), "the number of partitions")
	for i := range parts {
		sym.Assert(f.Partitions[i] == parts[i], "the partitions in order")
	}
	sym.Assert(f.LowerBound == lower, "the lower bound")
	sym.Assert(f.UpperBound == upper, "the upper bound")
	sym.Assert(f.BoundsType == bt, "the bounds type")
	sym.Reach("window")
}

// X07Custom: a custom function has the type and arguments it is given.
func X07Custom() {
	reg, loaded := callsReg()
	if !loaded {
		return
	}
	var want types.Type
	if sym.Choice("type", 2) == 1 {
		want = anyType("t", 1).T
	}
	id := extensions.FunctionID{URN: "extension:o:mine", Name: "f:i32"}
	var args []types.FuncArg
	for i := range sym.Choice("args", 3) {
		args = append(args, &expr.DynamicParameter{OutputType: &types.Int32Type{Nullability: types.NullabilityRequired}, ParameterReference: uint32(i)})
	}
	opts := []*types.FunctionOption{{Name: "o"}}
	phase, invocation := types.AggregationPhase(sym.Int32("phase")), types.AggregationInvocation(sym.Int32("invocation"))
	var f interface {
		expr.FunctionInvocation
		GetType() types.Type
		NArgs() int
		Arg(int) types.FuncArg
	}
	var err error
	var back types.Type
	switch sym.Choice("function kind", 3) {
	case 0:
		x, e := expr.NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), want, opts, args...)
		f, err = x, e
		if e == nil {
			y, e := expr.ExprFromProto(x.ToProto(), nil, reg)
			sym.Assert(e == nil && y.Equals(x), "a round trip")
			back = y.GetType()
		}
	case 1:
		x, e := expr.NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), want, opts, invocation, phase, nil, args...)
		f, err = x, e
		if e == nil {
			sym.Assert(sym.And(x.Phase() == phase, x.Invocation() == invocation), "phase and invocation")
			y, e := expr.NewAggregateFunctionFromProto(x.ToProto(), nil, reg)
			sym.Assert(e == nil && y.ID() == id, "a round trip")
			back = y.GetType()
		}
	case 2:
		x, e := expr.NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), want, opts, invocation, phase, args...)
		f, err = x, e
		if e == nil {
			sym.Assert(sym.And(x.Phase() == phase, x.Invocation() == invocation), "phase and invocation")
			y, e := expr.ExprFromProto(x.ToProto(), nil, reg)
			sym.Assert(e == nil && y.Equals(x), "a round trip")
			back = y.GetType()
		}
	}
	if err != nil {
		sym.Assert(want == nil, "a custom function with a type is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(want != nil, "a custom function needs a type")
	sym.Assert(f.GetType() == want && back.Equals(want), "the type")
	sym.Assert(f.ID() == id, "the function")
	sym.Assert(len(f.GetOptions()) == 1 && f.GetOptions()[0] == opts[0], "the options")
	sym.Assert(f.NArgs() == len(args), "the arguments")
	for i := range args {
		sym.Assert(f.Arg(i) == args[i], "the arguments")
	}
	sym.Reach("accepted")
}

type failing struct{}

var errFailing = errors.New("failing")

func (failing) BuildExpr() (expr.Expression, error)  { return nil, errFailing }
func (failing) BuildFuncArg() (types.FuncArg, error) { return nil, errFailing }

// X07Builder: builders used as arguments give the call what they build alone, and
// an error of one is an error of the whole.
func X07Builder() {
	reg, loaded := callsReg()
	if !loaded {
		return
	}
	n := nulOf(sym.Bool("nul"))
	t := &types.Int32Type{Nullability: n}
	b := expr.ExprBuilder{Reg: reg, BaseSchema: types.NewRecordTypeFromTypes([]types.Type{&types.StringType{}, t})}
	type both interface {
		expr.Builder
		expr.FuncArgBuilder
	}
	v := sym.Int32("v")
	id := extensions.FunctionID{URN: callURN, Name: "add"}
	mk := func(name string, i int) (bb both, check func(types.FuncArg) bool, fails bool) {
		switch sym.Choice(name, 8) {
		case 0:
			l := expr.NewPrimitiveLiteral(v, n == types.NullabilityNullable)
			return b.Literal(l), func(a types.FuncArg) bool { return a == types.FuncArg(l) }, false
		case 1:
			l := expr.NewPrimitiveLiteral(v, n == types.NullabilityNullable)
			return b.Wrap(l, nil), func(a types.FuncArg) bool { return a == types.FuncArg(l) }, false
		case 2:
			return b.Wrap(nil, errFailing), nil, true
		case 3:
			behavior := types.CastFailBehavior(sym.Int32(name + ".behavior"))
			in := &expr.DynamicParameter{OutputType: &types.StringType{}, ParameterReference: 7}
			return b.Cast(b.Expression(in), t).FailBehavior(behavior), func(a types.FuncArg) bool {
				c, ok := a.(*expr.Cast)
				if !ok || c.Input != expr.Expression(in) || c.Type != types.Type(t) {
					return false
				}
				return c.FailureBehavior == behavior
			}, false
		case 4:
			return b.Cast(failing{}, t), nil, true
		case 5:
			ref := sym.Uint32(name + ".ref")
			return b.DynamicParam(t, ref), func(a types.FuncArg) bool {
				p, ok := a.(*expr.DynamicParameter)
				if !ok || p.OutputType != types.Type(t) {
					return false
				}
				return p.ParameterReference == ref
			}, false
		case 6:
			return b.RootRef(expr.NewStructFieldRef(1)), func(a types.FuncArg) bool {
				r, ok := a.(*expr.FieldReference)
				if !ok || r.Root != expr.RootReference {
					return false
				}
				f, ok := r.Reference.(*expr.StructFieldRef)
				return ok && f.Field == 1 && r.GetType().Equals(t)
			}, false
		default:
			x := b.Expression(&expr.DynamicParameter{OutputType: t, ParameterReference: 3})
			inner := b.ScalarFunc(id).Args(x, x)
			return inner, func(a types.FuncArg) bool {
				s, ok := a.(*expr.ScalarFunction)
				return ok && s.NArgs() == 2 && s.CompoundName() == "add:i32_i32" && s.GetType().Equals(t)
			}, false
		}
	}
	x, checkX, failX := mk("x", 0)
	y, checkY, failY := mk("y", 1)
	var f invocation
	var err error
	failed := failX || failY
	kind := sym.Choice("function kind", 3)
	switch kind {
	case 0:
		f, err = b.ScalarFunc(id).Args(x, y).Build()
	case 1:
		f, err = b.AggFunc(id).Args(x, y).Phase(types.AggPhaseInitialToResult).Build()
	case 2:
		w := b.WindowFunc(id).Args(x, y).Phase(types.AggPhaseInitialToResult)
		if sym.Choice("partition", 2) == 1 {
			w = w.Partitions(x, failing{})
			failed = true
		}
		f, err = w.Build()
	}
	if err != nil {
		sym.Assert(failed, "arguments that can be built are accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(!failed, "an error of an argument is an error of the call")
	if failed {
		return
	}
	sym.Assert(f.NArgs() == 2, "the number of arguments")
	sym.Assert(checkX(f.Arg(0)), "the first argument is what its builder builds")
	sym.Assert(checkY(f.Arg(1)), "the second argument is what its builder builds")
	sym.Assert(f.GetType().Equals(t), "the result type")
	sym.Reach("accepted")
}

// X07Attributes: a call reports the attributes of the function it calls.
func X07Attributes() {
	reg, loaded := callsReg()
	if !loaded {
		return
	}
	variadic := &extensions.VariadicBehavior{Min: sym.Int("min"), Max: sym.Int("max")}
	session, det, ordered, maxSet := sym.Bool("session"), sym.Bool("det"), sym.Bool("ordered"), sym.Uint32("max set")
	dec := []extensions.DecomposeType{extensions.DecomposeNone, extensions.DecomposeOne, extensions.DecomposeMany, ""}[sym.Choice("decomposable", 4)]
	wt := []extensions.WindowType{extensions.StreamingWindow, extensions.PartitionWindow, ""}[sym.Choice("window type", 3)]
	inter := ""
	if dec == extensions.DecomposeOne || dec == extensions.DecomposeMany {
		inter = "i64?"
	}
	id := extensions.FunctionID{URN: "extension:o:mine", Name: "f:i32"}
	t := &types.Int32Type{Nullability: types.NullabilityRequired}
	common := func(f interface {
		Name() string
		CompoundName() string
		ID() extensions.FunctionID
		Variadic() *extensions.VariadicBehavior
		SessionDependant() bool
		Deterministic() bool
	}) {
		sym.Assert(f.Name() == "f" && f.CompoundName() == "f:i32" && f.ID() == id, "the names")
		sym.Assert(f.Variadic() == variadic, "the variadic behavior")
		sym.Assert(f.SessionDependant() == session, "session dependence")
		sym.Assert(f.Deterministic() == det, "determinism")
	}
	aggregate := func(f interface {
		Decomposable() extensions.DecomposeType
		Ordered() bool
		MaxSet() int
		IntermediateType() (types.FuncDefArgType, error)
	}) {
		want := dec
		if want == "" {
			want = extensions.DecomposeNone
		}
		sym.Assert(f.Decomposable() == want, "decomposability")
		sym.Assert(f.Ordered() == ordered, "order")
		sym.Assert(f.MaxSet() == int(maxSet), "set size")
		it, err := f.IntermediateType()
		sym.Assert((err == nil) == (inter != ""), "an intermediate type if decomposable")
		if err == nil && inter != "" {
			i, ok := it.(*types.Int64Type)
			sym.Assert(ok && i.Nullability == types.NullabilityNullable, "the intermediate type")
		}
	}
	switch sym.Choice("function kind", 3) {
	case 0:
		f, err := expr.NewCustomScalarFunc(reg, extensions.NewScalarFuncVariantWithProps(id, variadic, session, det), t, nil)
		sym.Assert(err == nil, "accepted")
		if err == nil {
			common(f)
		}
	case 1:
		f, err := expr.NewCustomAggregateFunc(reg, extensions.NewAggFuncVariantOpts(id, extensions.AggVariantOptions{Variadic: variadic, SessionDependant: session,
			Deterministic: det, Ordered: ordered, MaxSet: uint(maxSet), Decomposable: dec, IntermediateOutputType: inter}), t, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil)
		sym.Assert(err == nil, "accepted")
		if err == nil {
			common(f)
			aggregate(f)
		}
	case 2:
		f, err := expr.NewCustomWindowFunc(reg, extensions.NewWindowFuncVariantOpts(id, extensions.WindowVariantOpts{Variadic: variadic, SessionDependant: session,
			Deterministic: det, Ordered: ordered, MaxSet: uint(maxSet), Decomposable: dec, IntermediateOutputType: inter, WindowType: wt}), t, nil, types.AggInvocationAll, types.AggPhaseInitialToResult)
		sym.Assert(err == nil, "accepted")
		if err == nil {
			common(f)
			aggregate(f)
			want := wt
			if want == "" {
				want = extensions.PartitionWindow
			}
			sym.Assert(f.WindowType() == want, "the window type")
		}
	}
	sym.Reach("done")
}
