package harness

import (
	"github.com/substrait-io/substrait-go/v8/types"
	ip "github.com/substrait-io/substrait-go/v8/types/integer_parameters"

	"verif/gosym/sym"
)

var _ = reg("T06",
	H{F: T06Expr, Bounds: "every expression of depth 2 (3 when deep) over two parameters, a 64-bit literal, an undefined name and all operators, connectives, functions and conditionals, ill-typed ones included; every 64-bit parameter value", Reach: []string{"int", "bool", "error"}},
	H{F: T06Derivation, Bounds: "functions over decimal<P,S>, varchar<L>, precision_timestamp<T>; every 32-bit argument parameter for sums and differences, 12-bit (20 when deep) for products and quotients; one or two assignments with every operator; decimal, varchar and precision result types", Reach: []string{"ok", "error"}},
	H{F: T06Final, Bounds: "return types with a parameter of the arguments used directly, shared parameters with equal and different values, undefined parameters; every 32-bit value", Reach: []string{"ok", "error"}},
)

// val is the oracle's value: an integer, a boolean or an error.
type val struct {
	i    int64
	b    bool
	kind int // 0 int, 1 bool, 2 error
}

var vErr = val{kind: 2}

func vi(i int64) val { return val{i: i} }
func vb(b bool) val  { return val{b: b, kind: 1} }

var binOps = []types.BinaryOp{types.Plus, types.Minus, types.Multiply, types.Divide, types.LT, types.LTE, types.GT, types.GTE, types.EQ, types.NEQ, types.And, types.Or}

func applyBin(op types.BinaryOp, l, r val) val {
	if l.kind == 2 || r.kind == 2 {
		return vErr
	}
	if op == types.And || op == types.Or {
		if l.kind != 1 || r.kind != 1 {
			return vErr
		}
		if op == types.And {
			return vb(sym.And(l.b, r.b))
		}
		return vb(sym.Or(l.b, r.b))
	}
	if l.kind != 0 || r.kind != 0 {
		return vErr
	}
	x, y := l.i, r.i
	switch op {
	case types.Plus:
		return vi(x + y)
	case types.Minus:
		return vi(x - y)
	case types.Multiply:
		return vi(x * y)
	case types.Divide:
		if y == 0 {
			return vErr
		}
		return vi(x / y)
	case types.LT:
		return vb(x < y)
	case types.LTE:
		return vb(x <= y)
	case types.GT:
		return vb(x > y)
	case types.GTE:
		return vb(x >= y)
	case types.EQ:
		return vb(x == y)
	}
	return vb(x != y)
}

func intLeaf(name string, env map[string]int64) (types.Expr, val) {
	switch sym.Choice(name, 3) {
	case 0:
		return types.StringParameter("P"), vi(env["P"])
	case 1:
		return types.StringParameter("S"), vi(env["S"])
	}
	l := sym.Int64(name + ".lit")
	return &types.LiteralNumber{Value: l}, vi(l)
}

func smallLeaf(env map[string]int64) (types.Expr, val) {
	return types.StringParameter("S"), vi(env["S"])
}

func boolLeaf(env map[string]int64) (types.Expr, val) {
	return &types.BinaryExpr{Op: types.LT, Left: types.StringParameter("P"), Right: types.StringParameter("S")}, vb(env["P"] < env["S"])
}

// genExpr forks over expressions; one operand of each node is of full depth and
// the other one a leaf, on either side.
func genExpr(name string, depth int, env map[string]int64) (types.Expr, val) {
	if depth == 0 {
		switch sym.Choice(name+".leaf", 3) {
		case 0:
			return intLeaf(name, env)
		case 1:
			return boolLeaf(env)
		}
		return types.StringParameter("undefined"), vErr
	}
	sub, sv := genExpr(name+".s", depth-1, env)
	k := sym.Choice(name+".node", 5)
	switch k {
	case 0: // binary
		op := binOps[sym.Choice(name+".op", len(binOps))]
		var o types.Expr
		var ov val
		// at the outer level, pair the operand with one that makes it well typed
		if depth == 1 && sym.Choice(name+".other", 2) == 1 || depth > 1 && sv.kind == 1 {
			o, ov = boolLeaf(env)
		} else {
			o, ov = smallLeaf(env)
		}
		if sym.Choice(name+".side", 2) == 0 {
			return &types.BinaryExpr{Op: op, Left: sub, Right: o}, applyBin(op, sv, ov)
		}
		return &types.BinaryExpr{Op: op, Left: o, Right: sub}, applyBin(op, ov, sv)
	case 1:
		if sv.kind != 1 {
			return &types.NotExpr{Expr: sub}, vErr
		}
		return &types.NotExpr{Expr: sub}, vb(!sv.b)
	case 2: // functions
		return genFunc(name, depth, sub, sv, env)
	case 3: // conditional with the sub-expression as condition
		th, tv := smallLeaf(env)
		el, ev := types.Expr(&types.LiteralNumber{Value: 7}), vi(7)
		e := &types.IfExpr{Condition: sub, Then: th, Else: el, IsTernary: sym.Choice(name+".ternary", 2) == 1}
		if sv.kind != 1 {
			return e, vErr
		}
		return e, vi(sym.IteInt(sv.b, tv.i, ev.i))
	}
	// conditional with the sub-expression as a branch
	c, cv := boolLeaf(env)
	o, ov := smallLeaf(env)
	if sym.Choice(name+".branch", 2) == 0 {
		e := &types.IfExpr{Condition: c, Then: sub, Else: o}
		if cv.b {
			return e, sv
		}
		return e, ov
	}
	e := &types.IfExpr{Condition: c, Then: o, Else: sub}
	if cv.b {
		return e, ov
	}
	return e, sv
}

func genFunc(name string, depth int, sub types.Expr, sv val, env map[string]int64) (types.Expr, val) {
	o, ov := smallLeaf(env)
	fs := []string{"abs", "max", "min", "unknown"}
	if depth > 1 {
		fs = fs[:3]
	}
	f := fs[sym.Choice(name+".fn", len(fs))]
	var args []types.Expr
	var vs []val
	nargs := 0
	if depth == 1 {
		nargs = sym.Choice(name+".args", 5)
	} else if f == "abs" {
		nargs = 1
	} else {
		nargs = 2 + sym.Choice(name+".args", 2)
	}
	switch nargs {
	case 0:
	case 1:
		args, vs = []types.Expr{sub}, []val{sv}
	case 2:
		args, vs = []types.Expr{sub, o}, []val{sv, ov}
	case 3:
		args, vs = []types.Expr{o, sub}, []val{ov, sv}
	case 4:
		args, vs = []types.Expr{sub, o, o}, []val{sv, ov, ov}
	}
	e := &types.FunctionCallExpr{Name: f, Args: args}
	ok := f == "abs" && len(args) == 1 || (f == "max" || f == "min") && len(args) == 2
	for _, v := range vs {
		ok = ok && v.kind == 0
	}
	if !ok {
		return e, vErr
	}
	x := vs[0].i
	switch f {
	case "abs":
		return e, vi(sym.IteInt(x < 0, -x, x))
	case "max":
		return e, vi(sym.IteInt(x > vs[1].i, x, vs[1].i))
	}
	return e, vi(sym.IteInt(x < vs[1].i, x, vs[1].i))
}

func T06Expr() {
	d := 2
	if sym.Deep() {
		d = 3
	}
	env := map[string]int64{"P": sym.Int64("P"), "S": sym.Int64("S")}
	e, want := genExpr("e", d, env)
	got, err := e.Evaluate(map[string]any{"P": env["P"], "S": env["S"]})
	if want.kind == 2 {
		sym.Assert(err != nil, "an expression that has no value is an error")
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil, "an expression that has a value evaluates")
	if want.kind == 1 {
		b, ok := got.(bool)
		sym.Assert(ok, "boolean result")
		sym.Assert(b == want.b, "boolean value")
		sym.Reach("bool")
		return
	}
	i, ok := got.(int64)
	sym.Assert(ok, "integer result")
	sym.Assert(i == want.i, "integer value")
	sym.Reach("int")
}

func vp(s string) ip.IntegerParameter { return ip.NewVariableIntParam(s) }

func fits32(x int64) bool { return x == int64(int32(x)) }

func T06Derivation() {
	p, s, l, t := sym.Int32("P"), sym.Int32("S"), sym.Int32("L"), sym.Int32("T")
	sym.Assume(sym.And(t >= 0, t <= 9))
	params := []types.FuncDefArgType{
		&types.ParameterizedDecimalType{Nullability: types.NullabilityRequired, Precision: vp("P"), Scale: vp("S")},
		&types.ParameterizedVarCharType{Nullability: types.NullabilityRequired, IntegerOption: vp("L")},
		&types.ParameterizedPrecisionTimestampType{Nullability: types.NullabilityRequired, IntegerOption: vp("T")},
	}
	args := []types.Type{
		&types.DecimalType{Nullability: types.NullabilityRequired, Precision: p, Scale: s},
		&types.VarCharType{Nullability: types.NullabilityRequired, Length: l},
		&types.PrecisionTimestampType{Nullability: types.NullabilityRequired, Precision: types.TimePrecision(t)},
	}
	env := map[string]int64{"P": int64(p), "S": int64(s), "L": int64(l), "T": int64(t)}
	vars := []string{"P", "S", "L", "T", "nope"}
	pick := func(name string) (types.Expr, val) {
		v := vars[sym.Choice(name, len(vars))]
		x, ok := env[v]
		if !ok {
			return types.StringParameter(v), vErr
		}
		return types.StringParameter(v), vi(x)
	}
	a, av := pick("a")
	b, bv := pick("b")
	op := binOps[sym.Choice("op", 4)]
	if op == types.Multiply || op == types.Divide {
		// keep the multiplier small enough for the solver
		lim := int32(1) << 12
		if sym.Deep() {
			lim = 1 << 20
		}
		sym.Assume(sym.And(sym.And(p > -lim, p < lim), sym.And(s > -lim, s < lim)))
		sym.Assume(sym.And(l > -lim, l < lim))
	}
	x := applyBin(op, av, bv)
	y := x
	as := []types.Assignment{{Name: "X", Value: &types.BinaryExpr{Op: op, Left: a, Right: b}}}
	final := "X"
	if sym.Choice("second", 2) == 1 {
		as = append(as, types.Assignment{Name: "Y", Value: &types.FunctionCallExpr{Name: "max", Args: []types.Expr{types.StringParameter("X"), types.StringParameter("L")}}})
		final = "Y"
		if x.kind == 0 {
			y = vi(sym.IteInt(x.i > int64(l), x.i, int64(l)))
		}
	}
	n := nul("n")
	var ft types.FuncDefArgType
	k := sym.Choice("result", 2)
	switch k {
	case 0:
		ft = &types.ParameterizedDecimalType{Nullability: n, Precision: vp(final), Scale: vp("S")}
	case 1:
		ft = &types.ParameterizedVarCharType{Nullability: n, IntegerOption: vp(final)}
	}
	d := &types.OutputDerivation{Assignments: as, FinalType: ft}
	got, err := d.ReturnType(params, args)
	if y.kind == 2 || !fits32(y.i) {
		sym.Assert(err != nil, "no type for parameters that cannot be computed or do not fit")
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil, "a computable type is derived")
	var want types.Type
	if k == 0 {
		want = &types.DecimalType{Nullability: n, Precision: int32(y.i), Scale: s}
	} else {
		want = &types.VarCharType{Nullability: n, Length: int32(y.i)}
	}
	sym.Assert(got.Equals(want), "derived type has the computed parameters")
	again, err := d.ReturnType(params, args)
	sym.Assert(err == nil, "deriving again succeeds")
	sym.Assert(again.Equals(want), "deriving again gives the same type")
	sym.Reach("ok")
}

func T06Final() {
	mkParam := func(k int, v string) types.FuncDefArgType {
		switch k {
		case 0:
			return &types.ParameterizedVarCharType{Nullability: types.NullabilityRequired, IntegerOption: vp(v)}
		case 1:
			return &types.ParameterizedFixedBinaryType{Nullability: types.NullabilityRequired, IntegerOption: vp(v)}
		case 2:
			return &types.ParameterizedPrecisionTimestampTzType{Nullability: types.NullabilityRequired, IntegerOption: vp(v)}
		case 3:
			return &types.ParameterizedPrecisionTimeType{Nullability: types.NullabilityRequired, IntegerOption: vp(v)}
		}
		return &types.ParameterizedIntervalDayType{Nullability: types.NullabilityRequired, IntegerOption: vp(v)}
	}
	mkType := func(k int, n types.Nullability, l int32) types.Type {
		switch k {
		case 0:
			return &types.VarCharType{Nullability: n, Length: l}
		case 1:
			return &types.FixedBinaryType{Nullability: n, Length: l}
		case 2:
			return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(l)}}
		case 3:
			return &types.PrecisionTimeType{Nullability: n, Precision: types.TimePrecision(l)}
		}
		return &types.IntervalDayType{Nullability: n, Precision: types.TimePrecision(l)}
	}
	k1, k2 := sym.Choice("k1", 5), sym.Choice("k2", 5)
	x, y := sym.Int32("x"), sym.Int32("y")
	if k1 > 1 {
		sym.Assume(sym.And(x >= 0, x <= 9))
	}
	if k2 > 1 {
		sym.Assume(sym.And(y >= 0, y <= 9))
	}
	n2 := "B"
	shared := sym.Choice("shared", 2) == 1
	if shared {
		n2 = "A"
	}
	ps := []types.FuncDefArgType{mkParam(k1, "A"), mkParam(k2, n2)}
	ts := []types.Type{mkType(k1, types.NullabilityRequired, x), mkType(k2, types.NullabilityRequired, y)}
	n := nul("n")
	which := sym.Choice("which", 3)
	rk, rname, rv := k1, "A", x
	if which == 1 {
		rk, rname, rv = k2, n2, y
	} else if which == 2 {
		rname = "C"
	}
	ret := mkParam(rk, rname)
	ret.SetNullability(n)
	type returner interface {
		ReturnType([]types.FuncDefArgType, []types.Type) (types.Type, error)
	}
	got, err := ret.(returner).ReturnType(ps, ts)
	agree := sym.Or(!shared, x == y)
	sym.Assert(types.AreSyncTypeParametersMatching(ps, ts) == agree, "shared parameters must have one value")
	if which == 2 || !agree {
		sym.Assert(err != nil, "undefined or conflicting parameter is an error")
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil, "type is derived")
	sym.Assert(got.Equals(mkType(rk, n, rv)), "parameter of the argument used in the result")
	sym.Reach("ok")
}
