package harness

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/types/parser"

	"verif/gosym/sym"
)

var _ = reg("T07",
	H{F: T07Leaves, Bounds: "each type without type parameters, any keyword case, nullability and spacing, integer parameters being numbers of 1..2 digits of any sign or names of 1..2 letters", Reach: []string{"parsed"}},
	H{F: T07Nested, Bounds: "struct, list, map, func and user-defined types of 1..2 (thorough: 3) parameters, of 6 (thorough: 9) kinds (thorough: nested twice)", Reach: []string{"parsed"}},
	H{F: T07Numbers, Bounds: "numbers of 9..11 digits of any sign as each integer parameter", Reach: []string{"accepted", "rejected"}},
	H{F: T07Derivations, Bounds: "1..2 assignments of numbers, names, calls, the 12 operators, not, if and ternary, nested twice, and 5 kinds of final type", Reach: []string{"parsed"}},
	H{F: T07Literals, Bounds: "numbers of 1..18 and 20 digits of any sign in an assignment", Reach: []string{"accepted", "rejected"}},
	H{F: T07Malformed, Bounds: "43 malformed texts, with symbolic digits and letters in them", Reach: []string{"rejected"}},
)

// tg writes type expressions along with the types they mean.
type tg struct {
	style int
	sep   string
}

func newTg() *tg {
	k := sym.Choice("case", 3)
	return &tg{k, []string{",", ", ", " , "}[k]}
}

// kw is a keyword in the case of the expression.
func (g *tg) kw(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && (g.style == 1 || g.style == 2 && i%2 == 0) {
			b[i] = c - 'a' + 'A'
		}
	}
	return string(b)
}

func (g *tg) null(p string) (string, types.Nullability) {
	if sym.Choice(p+".null", 2) == 1 {
		return "?", types.NullabilityNullable
	}
	return "", types.NullabilityRequired
}

// numText is a number of n digits as the grammar writes it, and its value.
func numText(p string, n int) (string, int64) {
	s, v := digits(p, n)
	if n > 1 {
		sym.Assume(s[0] != '0')
	}
	if sym.Choice(p+".neg", 2) == 1 {
		return "-" + s, -v
	}
	return s, v
}

// word is a name of n symbolic letters, of which the first has no part in a keyword.
func word(p string, n int) string {
	s := sym.String(p, n, n)
	for i := range len(s) {
		lower := sym.And(s[i] >= 'a', s[i] <= 'z')
		upper := sym.And(s[i] >= 'A', s[i] <= 'Z')
		sym.Assume(sym.Or(lower, upper))
	}
	return "q" + s
}

func (g *tg) integer(p string) (string, integer_parameters.IntegerParameter) {
	switch k := sym.Choice(p+".int", 4); k {
	case 0, 1:
		s, v := numText(p+".n", k+1)
		return s, integer_parameters.NewConcreteIntParam(int32(v))
	default:
		s := word(p+".w", k-1)
		return s, integer_parameters.NewVariableIntParam(s)
	}
}

var scalarNames = []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "timestamp_tz", "date", "time", "interval_year", "uuid"}

func scalarType(name string, n types.Nullability) types.FuncDefArgType {
	switch name {
	case "boolean":
		return &types.BooleanType{Nullability: n}
	case "i8":
		return &types.Int8Type{Nullability: n}
	case "i16":
		return &types.Int16Type{Nullability: n}
	case "i32":
		return &types.Int32Type{Nullability: n}
	case "i64":
		return &types.Int64Type{Nullability: n}
	case "fp32":
		return &types.Float32Type{Nullability: n}
	case "fp64":
		return &types.Float64Type{Nullability: n}
	case "string":
		return &types.StringType{Nullability: n}
	case "binary":
		return &types.BinaryType{Nullability: n}
	case "timestamp":
		return &types.TimestampType{Nullability: n}
	case "timestamp_tz":
		return &types.TimestampTzType{Nullability: n}
	case "date":
		return &types.DateType{Nullability: n}
	case "time":
		return &types.TimeType{Nullability: n}
	case "interval_year":
		return &types.IntervalYearType{Nullability: n}
	}
	return &types.UUIDType{Nullability: n}
}

var integerNames = []string{"fixedchar", "varchar", "fixedbinary", "interval_day", "precision_time", "precision_timestamp", "precision_timestamp_tz"}

func integerType(name string, i integer_parameters.IntegerParameter, n types.Nullability) types.FuncDefArgType {
	switch name {
	case "fixedchar":
		return &types.ParameterizedFixedCharType{IntegerOption: i, Nullability: n}
	case "varchar":
		return &types.ParameterizedVarCharType{IntegerOption: i, Nullability: n}
	case "fixedbinary":
		return &types.ParameterizedFixedBinaryType{IntegerOption: i, Nullability: n}
	case "interval_day":
		return &types.ParameterizedIntervalDayType{IntegerOption: i, Nullability: n}
	case "precision_time":
		return &types.ParameterizedPrecisionTimeType{IntegerOption: i, Nullability: n}
	case "precision_timestamp":
		return &types.ParameterizedPrecisionTimestampType{IntegerOption: i, Nullability: n}
	}
	return &types.ParameterizedPrecisionTimestampTzType{IntegerOption: i, Nullability: n}
}

// leaf is a type that has no types as parameters.
func (g *tg) leaf(p string, k int) (string, types.FuncDefArgType) {
	q, n := g.null(p)
	if k < len(scalarNames) {
		return g.kw(scalarNames[k]) + q, scalarType(scalarNames[k], n)
	}
	k -= len(scalarNames)
	if k < len(integerNames) {
		s, i := g.integer(p)
		return g.kw(integerNames[k]) + q + "<" + s + ">", integerType(integerNames[k], i, n)
	}
	switch k - len(integerNames) {
	case 0:
		ps, pi := g.integer(p + ".p")
		ss, si := g.integer(p + ".s")
		return g.kw("decimal") + q + "<" + ps + g.sep + ss + ">", &types.ParameterizedDecimalType{Precision: pi, Scale: si, Nullability: n}
	case 1:
		return g.kw("any") + q, &types.AnyType{Name: "any", Nullability: n}
	case 2:
		d := sym.String(p+".any", 1, 1)
		sym.Assume(sym.And(d[0] >= '0', d[0] <= '9'))
		return "any" + d + q, &types.AnyType{Name: "any" + d, Nullability: n}
	case 3:
		s := word(p+".udt", 1)
		return g.kw("u!") + s + q, &types.ParameterizedUserDefinedType{Name: s, Nullability: n}
	case 4:
		s, v := numText(p+".n", 2)
		return g.kw("u!") + "q" + q + "<" + s + ">", &types.ParameterizedUserDefinedType{Name: "q", Nullability: n,
			TypeParameters: []types.UDTParameter{&types.IntegerUDTParam{Integer: int32(v)}}}
	default:
		s := word(p+".w", 1)
		return g.kw("u!") + "q_1" + q + "<" + s + ">", &types.ParameterizedUserDefinedType{Name: "q_1", Nullability: n,
			TypeParameters: []types.UDTParameter{&types.StringUDTParam{StringVal: s}}}
	}
}

var typeLeaves = len(scalarNames) + len(integerNames) + 6

// typ is a type nested up to depth times.
func (g *tg) typ(p string, depth int) (string, types.FuncDefArgType) {
	leaves := []int{10, 16, 24}
	if sym.Deep() {
		leaves = []int{0, 10, 16, 22, 24, 25, 27}
	}
	k := sym.Choice(p+".type", len(leaves)+2)
	if k < len(leaves) {
		return g.leaf(p, leaves[k])
	}
	if k == len(leaves) {
		s, t := g.leaf(p, 3)
		return "(" + s + ")", t
	}
	if depth == 0 {
		return g.leaf(p, 7)
	}
	return g.nest(p, depth-1)
}

func (g *tg) nest(p string, depth int) (string, types.FuncDefArgType) {
	q, n := g.null(p)
	max := 2
	if sym.Deep() {
		max = 3
	}
	var ss []string
	var ts []types.FuncDefArgType
	params := func(least, most int) string {
		all := ""
		for i := range least + sym.Choice(p+".params", most-least+1) {
			var s string
			var t types.FuncDefArgType
			if i == 0 {
				s, t = g.typ(p+".0", depth)
			} else {
				s, t = g.leaf(p+"."+string(rune('0'+i)), 3*i)
				all += g.sep
			}
			ss, ts, all = append(ss, s), append(ts, t), all+s
		}
		return all
	}
	switch sym.Choice(p+".nest", 6) {
	case 0:
		return g.kw("struct") + q + "<" + params(1, max) + ">", &types.ParameterizedStructType{Types: ts, Nullability: n}
	case 1:
		s := params(1, 1)
		return g.kw("list") + q + "<" + s + ">", &types.ParameterizedListType{Type: ts[0], Nullability: n}
	case 2:
		s := params(2, 2)
		if sym.Choice(p+".first", 2) == 1 {
			return g.kw("map") + q + "<" + ss[1] + g.sep + ss[0] + ">", &types.ParameterizedMapType{Key: ts[1], Value: ts[0], Nullability: n}
		}
		return g.kw("map") + q + "<" + s + ">", &types.ParameterizedMapType{Key: ts[0], Value: ts[1], Nullability: n}
	case 3:
		s := params(1, max)
		if len(ts) > 1 || sym.Choice(p+".parens", 2) == 1 {
			s = "(" + s + ")"
		}
		rs, rt := g.leaf(p+".ret", 3)
		return g.kw("func") + q + "<" + s + " -> " + rs + ">", &types.ParameterizedFuncType{Parameters: ts, Return: rt, Nullability: n}
	case 4:
		s := params(1, 1)
		rs, rt := g.leaf(p+".of", 4)
		return g.kw("func") + q + "<" + rs + " -> " + s + ">", &types.ParameterizedFuncType{Parameters: []types.FuncDefArgType{rt}, Return: ts[0], Nullability: n}
	}
	s := params(1, max)
	udt := &types.ParameterizedUserDefinedType{Name: "Q", Nullability: n}
	for _, t := range ts {
		udt.TypeParameters = append(udt.TypeParameters, &types.DataTypeUDTParam{Type: t})
	}
	return g.kw("u!") + "Q" + q + "<" + s + ">", udt
}

// reads parses a text that must mean the type, and what the type prints as.
func reads(s string, want types.FuncDefArgType) {
	sym.Parse()
	t, err := parser.ParseType(s)
	sym.Assert(err == nil, "parses")
	sym.Assert(sym.DeepEqual(t, want), "means the type written")
	again, err := parser.ParseType(t.String())
	sym.Assert(err == nil, "parses what it prints")
	sym.Assert(sym.DeepEqual(again, want), "means the same once printed")
	sym.Reach("parsed")
}

func T07Leaves() {
	g := newTg()
	k := sym.Choice("kind", typeLeaves)
	s, t := g.leaf("t", k)
	reads(s, t)
}

func T07Nested() {
	g := &tg{0, ", "}
	depth := 1
	if sym.Deep() {
		depth = 2
	}
	s, t := g.nest("t", depth-1)
	reads(s, t)
}

func T07Numbers() {
	sym.Parse()
	s, v := numText("n", 9+sym.Choice("digits", 3))
	k := sym.Choice("kind", len(integerNames)+3)
	one := integer_parameters.NewConcreteIntParam(1)
	i := integer_parameters.NewConcreteIntParam(int32(v))
	n := types.NullabilityRequired
	var text string
	var want types.FuncDefArgType
	switch k - len(integerNames) {
	case 0:
		text, want = "decimal<"+s+",1>", &types.ParameterizedDecimalType{Precision: i, Scale: one, Nullability: n}
	case 1:
		text, want = "decimal<1,"+s+">", &types.ParameterizedDecimalType{Precision: one, Scale: i, Nullability: n}
	case 2:
		text, want = "u!q<"+s+">", &types.ParameterizedUserDefinedType{Name: "q", Nullability: n,
			TypeParameters: []types.UDTParameter{&types.IntegerUDTParam{Integer: int32(v)}}}
	default:
		text, want = integerNames[k]+"<"+s+">", integerType(integerNames[k], i, n)
	}
	t, err := parser.ParseType(text)
	sym.Assert((err == nil) == int32Fits(v), "accepted just when it fits")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.DeepEqual(t, want), "means the number written")
	sym.Reach("accepted")
}

var derivOps = []string{"+", "-", "*", "/", "<", ">", "=", "!=", "<=", ">=", "and", "or"}
var derivOpTypes = []types.BinaryOp{types.Plus, types.Minus, types.Multiply, types.Divide, types.LT, types.GT, types.EQ, types.NEQ, types.LTE, types.GTE, types.And, types.Or}

// derivation is an expression nested depth times, in parentheses where it is an operand.
func derivation(p string, depth int) (string, types.Expr) {
	if depth == 0 {
		if sym.Choice(p+".leaf", 2) == 0 {
			s, v := numText(p, 1)
			return s, &types.LiteralNumber{Value: v}
		}
		s := word(p, 1)
		return s, types.StringParameter(s)
	}
	deep, made := -1, 0
	arg := func() (string, types.Expr) {
		made++
		i := made - 1
		q := p + "." + string(rune('0'+i))
		if i == deep {
			s, e := derivation(q, depth-1)
			return "(" + s + ")", e
		}
		if i%2 == 0 {
			return "x", types.StringParameter("x")
		}
		return "7", &types.LiteralNumber{Value: 7}
	}
	switch sym.Choice(p+".expr", 5) {
	case 0:
		n := sym.Choice(p+".args", 3)
		name := []string{"abs", "max", "other"}[n]
		if n > 0 {
			deep = sym.Choice(p+".deep", n)
		}
		f := &types.FunctionCallExpr{Name: name, Args: []types.Expr{}}
		s := ""
		for i := range n {
			a, e := arg()
			f.Args = append(f.Args, e)
			if i > 0 {
				s += ", "
			}
			s += a
		}
		return name + "(" + s + ")", f
	case 1:
		k := sym.Choice(p+".op", len(derivOps))
		deep = sym.Choice(p+".deep", 2)
		l, le := arg()
		r, re := arg()
		return "(" + l + " " + derivOps[k] + " " + r + ")", &types.BinaryExpr{Op: derivOpTypes[k], Left: le, Right: re}
	case 2:
		deep = 0
		a, e := arg()
		return "!" + a, &types.NotExpr{Expr: e}
	case 3:
		deep = sym.Choice(p+".deep", 3)
		c, ce := arg()
		t, te := arg()
		e, ee := arg()
		return "if " + c + " then " + t + " else " + e, &types.IfExpr{Condition: ce, Then: te, Else: ee}
	default:
		deep = sym.Choice(p+".deep", 3)
		c, ce := arg()
		t, te := arg()
		e, ee := arg()
		return c + " ? " + t + " : " + e, &types.IfExpr{Condition: ce, Then: te, Else: ee, IsTernary: true}
	}
}

func T07Derivations() {
	d := &types.OutputDerivation{}
	text := ""
	depth, k := 2, 3
	if sym.Choice("depth", 2) == 0 {
		depth, k = 1, sym.Choice("final", 5)
	}
	if k > 2 {
		text = "y = x + 1\n"
		d.Assignments = []types.Assignment{{Name: "y", Value: &types.BinaryExpr{Op: types.Plus, Left: types.StringParameter("x"), Right: &types.LiteralNumber{Value: 1}}}}
	}
	name := word("name", 1)
	s, e := derivation("e", depth)
	d.Assignments = append(d.Assignments, types.Assignment{Name: name, Value: e})
	i := integer_parameters.NewVariableIntParam(name)
	one := integer_parameters.NewConcreteIntParam(1)
	q, n := "", types.NullabilityRequired
	if k%2 == 1 {
		q, n = "?", types.NullabilityNullable
	}
	var fs string
	switch k {
	case 0, 1:
		fs, d.FinalType = "varchar"+q+"<"+name+">", integerType("varchar", i, n)
	case 2, 3:
		fs, d.FinalType = "decimal"+q+"<"+name+",1>", &types.ParameterizedDecimalType{Precision: i, Scale: one, Nullability: n}
	default:
		fs, d.FinalType = "list<any1>", &types.ParameterizedListType{Type: &types.AnyType{Name: "any1", Nullability: n}, Nullability: n}
	}
	reads(text+name+" = "+s+"\n"+fs, d)
}

func T07Literals() {
	sym.Parse()
	n := 1 + sym.Choice("digits", 19)
	if n == 19 {
		s := sym.String("n", 20, 20)
		for i := range len(s) {
			sym.Assume(isDigit(s[i]))
		}
		sym.Assume(s[0] != '0')
		_, err := parser.ParseType("q = " + s + "\nvarchar<q>")
		sym.Assert(err != nil, "too large a number is an error")
		sym.Reach("rejected")
		return
	}
	s, v := numText("n", n)
	t, err := parser.ParseType("q = " + s + "\nvarchar<q>")
	sym.Assert(err == nil, "parses")
	d, ok := t.(*types.OutputDerivation)
	sym.Assert(ok && len(d.Assignments) == 1, "is a derivation")
	l, ok := d.Assignments[0].Value.(*types.LiteralNumber)
	sym.Assert(ok && l.Value == v, "means the number written")
	sym.Reach("accepted")
}

func T07Malformed() {
	sym.Parse()
	n, _ := numText("n", 1)
	w := word("w", 1)
	all := []string{
		"", " ", n, w, w + "?", "i32" + n, "i32 " + n, "i32 i32", "i32??", "varchar", "varchar<>", "varchar<" + n, "varchar<" + n + "," + n + ">",
		"varchar<i32>", "varchar<" + n + " + " + n + ">", "decimal<" + n + ">", "decimal<" + n + "," + n + "," + n + ">", "decimal(" + n + ",1)",
		"list<>", "list<" + n + ">", "list<" + w + ">", "list<i32, i32>", "map<i32>", "map<" + n + ", i32>", "map<i32, " + w + ">", "struct<>", "struct<" + w + ">",
		"struct<i32,>", "nstruct<" + w + " i32>", "func<i32>", "func<() -> i32>", "func<" + w + " -> i32>", "u!", "u!" + w + "<>", w + " = i32\ni32",
		w + " = 1", w + " = \ni32", "x = 1 + \ni32", "i32 @", "va;rchar<" + n + ">", "i32 '", "varchar<\"" + w + "\">", "[i32]",
	}
	k := sym.Choice("text", len(all))
	s := all[k]
	sym.Case(fmt.Sprintf("text %d", k))
	t, err := parser.ParseType(s)
	sym.Assert(err != nil, "is an error")
	sym.Assert(t == nil, "is no type")
	sym.Reach("rejected")
}
