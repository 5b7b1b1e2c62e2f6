package harness

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("F01",
	H{F: F01Lookup, Bounds: "a dialect with four scalar functions (same name twice in one URN with different local names, in another URN without local name), an aggregate and a window function of the same ID; every 3-letter local name, equal to each other and to standard names included; lookups of every name by 0..3 arguments; every iteration order", Reach: []string{"clash", "found", "not found"}, Order: true},
	H{F: F01Call, Bounds: "calls of every function and kind of that dialect with two arguments of 4 types, an option with every 2-letter value in every case", Reach: []string{"accepted", "rejected"}, Order: true},
	H{F: F01Variadic, Bounds: "functions of every kind with 0..3 parameters, not variadic or with minimum 0..2 and maximum unbounded or up to one more; lookups by 0..5 arguments, in the registry and through a dialect", Reach: []string{"takes", "does not take"}},
	H{F: F01Missing, Bounds: "dialects with a function, kernel, dependency, kind or type that does not exist; malformed names; any of the names clashing; every iteration order", Reach: []string{"accepted", "rejected"}, Order: true},
)

const dialectFuncs = `scalar_functions:
- name: add
  impls:
  - args: [{name: x, value: i32}, {name: y, value: i32}]
    return: i32
  - args: [{name: x, value: i64}, {name: y, value: i64}]
    return: i64
  - args: [{name: x, value: any1}]
    return: i64
- name: sub
  impls:
  - args: [{name: x, value: i32}, {name: y, value: i32}]
    return: i32
aggregate_functions:
- name: sum
  impls:
  - args: [{name: x, value: i32}, {name: y, value: i32}]
    return: i32
`

func dialectCollection() *extensions.Collection {
	c := &extensions.Collection{}
	for _, u := range []string{urnA, urnB} {
		if err := c.Load(&yamlFile{text: "urn: " + u + "\n" + dialectFuncs}); err != nil {
			panic(err)
		}
	}
	return c
}

func dialectRegistry() (functions.FunctionRegistry, expr.ExtensionRegistry) {
	c := dialectCollection()
	return functions.NewFunctionRegistry(c), expr.NewEmptyExtensionRegistry(c)
}

// lf is a function that the dialect declares.
type lf struct {
	kind           string
	urn, name, sig string
	local          string
	notation       functions.FunctionNotation
	options        string // value of the option "o"
	args           int
}

const dialectHead = "name: d\ntype: sql\ndependencies: {a: " + urnA + ", b: " + urnB + `}
supported_types:
  i32: {sql_type_name: INT}
  i64: {sql_type_name: BIGINT}
`

func letters(name string, n int) string {
	s := sym.String(name, n, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}

func testDialect(locals []string) (functions.Dialect, []lf) {
	d, err := functions.LoadDialect("d", &yamlFile{text: dialectHead + `scalar_functions:
- name: a.add
  local_name: "@0"
  infix: true
  required_options: {o: XY}
  supported_kernels: [i32_i32]
- name: a.add
  local_name: "@1"
  postfix: true
  required_options: {o: ZW}
  supported_kernels: [i64_i64, any1]
- name: b.add
  supported_kernels: [i32_i32]
- name: a.sub
  local_name: "@2"
  supported_kernels: [i32_i32]
aggregate_functions:
- name: a.sum
  local_name: "@3"
  required_options: {o: XY}
  supported_kernels: [i32_i32]
window_functions:
- name: a.sum
  local_name: "@4"
  supported_kernels: [i32_i32]
`, vals: locals})
	if err != nil {
		panic(err)
	}
	return d, []lf{
		{"scalar", urnA, "add", "i32_i32", locals[0], functions.INFIX, "XY", 2},
		{"scalar", urnA, "add", "i64_i64", locals[1], functions.POSTFIX, "ZW", 2},
		{"scalar", urnA, "add", "any", locals[1], functions.POSTFIX, "ZW", 1},
		{"scalar", urnB, "add", "i32_i32", "add", functions.PREFIX, "", 2},
		{"scalar", urnA, "sub", "i32_i32", locals[2], functions.PREFIX, "", 2},
		{"aggregate", urnA, "sum", "i32_i32", locals[3], functions.PREFIX, "XY", 2},
		{"window", urnA, "sum", "i32_i32", locals[4], functions.PREFIX, "", 2},
	}
}

type localVariant interface {
	extensions.FunctionVariant
	LocalName() string
	Notation() functions.FunctionNotation
	IsOptionSupported(name, value string) bool
}

func (f lf) is(v localVariant) bool {
	r := v.URN() == f.urn && v.CompoundName() == f.name+":"+f.sig
	if r {
		sym.Assert(v.LocalName() == f.local, "a function has its local name")
		sym.Assert(v.Notation() == f.notation, "a function has its notation")
		sym.Assert(v.IsOptionSupported("o", f.options) == (f.options != ""), "a function has its options")
		sym.Assert(!v.IsOptionSupported("p", "XY") && !v.IsOptionSupported("o", "??"), "a function has no other options")
	}
	return r
}

// sameFunctions: got is fs of that kind for which keep holds.
func sameFunctions(got []localVariant, fs []lf, kind string, keep func(lf) bool) {
	n := 0
	for _, f := range fs {
		if f.kind != kind || !keep(f) {
			continue
		}
		n++
		found := 0
		for _, v := range got {
			if f.is(v) {
				found++
			}
		}
		sym.Assert(found == 1, "a declared "+kind+" function is found once")
	}
	sym.Assert(len(got) == n, "only declared "+kind+" functions are found")
	if n > 0 {
		sym.Reach("found")
	} else {
		sym.Reach("not found")
	}
}

func conv[T localVariant](ts []T) []localVariant {
	var r []localVariant
	for _, t := range ts {
		r = append(r, t)
	}
	return r
}

func F01Lookup() {
	var locals []string
	switch sym.Choice("which", 3) {
	case 0: // scalar functions clash
		locals = []string{letters("l0", 3), letters("l1", 3), "sub", "avg", "avg"}
	case 1:
		locals = []string{"add", letters("l1", 3), letters("l2", 3), "sum", "add"}
	case 2:
		locals = []string{"sub", "sub", "add", letters("l3", 3), letters("l4", 3)}
	}
	d, fs := testDialect(locals)
	reg, _ := dialectRegistry()
	sym.MapOrder(true)
	r, err := d.LocalizeFunctionRegistry(reg)
	sym.MapOrder(false)
	sym.Assert(err == nil, "a dialect of existing functions is accepted")
	if err != nil {
		return
	}
	for _, l := range locals {
		if l == "add" || l == "sub" || l == "sum" {
			sym.Reach("clash")
		}
	}
	sym.Assert(len(r.GetAllFunctions()) == len(fs), "all functions are listed")
	for _, f := range fs {
		found := 0
		for _, v := range r.GetAllFunctions() {
			lv := v.(localVariant)
			_, scalar := v.(*functions.LocalScalarFunctionVariant)
			_, agg := v.(*functions.LocalAggregateFunctionVariant)
			if scalar == (f.kind == "scalar") && agg == (f.kind == "aggregate") && f.is(lv) {
				found++
			}
		}
		sym.Assert(found == 1, "every declared function is listed once")
	}
	for n := 0; n <= 3; n++ {
		for _, q := range []string{"add", "sub", "sum", "avg"} {
			name := functions.SubstraitFunctionName(q)
			keep := func(f lf) bool { return f.name == q && f.args == n }
			sameFunctions(conv(r.GetScalarFunctions(name, n)), fs, "scalar", keep)
			sameFunctions(conv(r.GetAggregateFunctions(name, n)), fs, "aggregate", keep)
			sameFunctions(conv(r.GetWindowFunctions(name, n)), fs, "window", keep)
		}
		for i := 0; i < 7; i++ {
			q := "add"
			if i < 5 {
				q = locals[i]
			} else if i == 5 {
				q = "xyz"
			}
			name := functions.LocalFunctionName(q)
			keep := func(f lf) bool { return f.local == q && f.args == n }
			sameFunctions(conv(r.GetScalarFunctions(name, n)), fs, "scalar", keep)
			sameFunctions(conv(r.GetAggregateFunctions(name, n)), fs, "aggregate", keep)
			sameFunctions(conv(r.GetWindowFunctions(name, n)), fs, "window", keep)
		}
	}
}

func F01Call() {
	locals := []string{"add", "sub", "sub", "sum", "tot"}
	d, fs := testDialect(locals)
	freg, ereg := dialectRegistry()
	sym.MapOrder(true)
	r, err := d.LocalizeFunctionRegistry(freg)
	sym.MapOrder(false)
	if err != nil {
		panic(err)
	}
	urn := []string{urnA, urnB}[sym.Choice("urn", 2)]
	var opts []*types.FunctionOption
	val := ""
	if sym.Bool("option") {
		val = sym.String("value", 2, 2)
		sym.Assume(sym.And(val[0] < 128, val[1] < 128))
		name := "o"
		if sym.Bool("other") {
			name = "p"
		}
		opts = []*types.FunctionOption{{Name: name, Preference: []string{"??", val}[1-sym.Choice("prefs", 2):]}}
	}
	// arguments of a supported, another supported and an unsupported type
	lit := func(k int) expr.Expression {
		switch k {
		case 0:
			return expr.NewPrimitiveLiteral(int32(1), false)
		case 1:
			return expr.NewPrimitiveLiteral(int64(1), false)
		case 2:
			return expr.NewPrimitiveLiteral(float32(1), false)
		}
		return expr.NewPrimitiveLiteral("x", true)
	}
	var args []types.FuncArg
	k := sym.Choice("arg", 4)
	supported := k < 2
	var v localVariant
	kind := []string{"scalar", "aggregate", "window", "unary"}[sym.Choice("kind", 4)]
	want := func(name, sig string) *lf {
		for i := range fs {
			f := &fs[i]
			if (f.kind == kind || kind == "unary" && f.kind == "scalar") && f.urn == urn && f.name == name && f.sig == sig {
				return f
			}
		}
		return nil
	}
	var w *lf
	switch kind {
	case "scalar":
		sym.Assume(k < 2)
		sig := "i32_i32"
		if k == 1 {
			sig = "i64_i64"
		}
		args = []types.FuncArg{lit(k), lit(k)}
		f, e := expr.NewScalarFunc(ereg, extensions.FunctionID{URN: urn, Name: "add:" + sig}, opts, args...)
		if e != nil {
			panic(e)
		}
		w = want("add", sig)
		var lv *functions.LocalScalarFunctionVariant
		if lv, err = r.GetScalarFunctionByInvocation(f); err == nil {
			v = lv
		}
	case "unary":
		f, e := expr.NewScalarFunc(ereg, extensions.FunctionID{URN: urn, Name: "add:any"}, opts, lit(k))
		if e != nil {
			panic(e)
		}
		w = want("add", "any")
		var lv *functions.LocalScalarFunctionVariant
		if lv, err = r.GetScalarFunctionByInvocation(f); err == nil {
			v = lv
		}
	case "aggregate":
		sym.Assume(k == 0)
		f, e := expr.NewAggregateFunc(ereg, extensions.FunctionID{URN: urn, Name: "sum:i32_i32"}, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, lit(0), lit(0))
		if e != nil {
			panic(e)
		}
		w = want("sum", "i32_i32")
		var lv *functions.LocalAggregateFunctionVariant
		if lv, err = r.GetAggregateFunctionByInvocation(f); err == nil {
			v = lv
		}
	case "window":
		sym.Assume(k == 0)
		f, e := expr.NewWindowFunc(ereg, extensions.FunctionID{URN: urn, Name: "sum:i32_i32"}, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, lit(0), lit(0))
		if e != nil {
			panic(e)
		}
		w = want("sum", "i32_i32")
		var lv *functions.LocalWindowFunctionVariant
		if lv, err = r.GetWindowFunctionByInvocation(f); err == nil {
			v = lv
		}
	}
	ok := w != nil && supported
	if ok && opts != nil {
		lower := func(b byte) byte {
			if b >= 'A' && b <= 'Z' {
				return b + 32
			}
			return b
		}
		ok = opts[0].Name == "o" && len(opts[0].Preference) == 1 && w.options != "" && lower(val[0]) == lower(w.options[0]) && lower(val[1]) == lower(w.options[1])
	}
	sym.Assert((err == nil) == ok, "a call is supported exactly when the dialect declares it")
	if err == nil {
		sym.Assert(w.is(v), "a call is of the declared function")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

func F01Missing() {
	good := "- {name: a.add, local_name: \"@0\", supported_kernels: [i32_i32]}\n- {name: a.sub, local_name: \"@1\", supported_kernels: [i32_i32]}\n"
	bad := []string{
		"- {name: a.mul, local_name: \"@0\", supported_kernels: [i32_i32]}\n",
		"- {name: a.add, local_name: \"@1\", supported_kernels: [i64_i32]}\n",
		"- {name: b.add, local_name: \"@1\", supported_kernels: [i32_i32, i64_i64, fp32]}\n",
		"- {name: a.sum, supported_kernels: [i32_i32]}\n",
		"- {name: a.sum, local_name: add, supported_kernels: [i32_i32]}\n",
		"- {name: c.add, supported_kernels: [i32_i32]}\n",
		"- {name: add, supported_kernels: [i32_i32]}\n",
		"- {name: a.b.add, supported_kernels: [i32_i32]}\n",
		"- {name: a.sub, supported_kernels: [foo]}\n",
		"- {name: a.sub, supported_kernels: []}\n",
		"- {name: \"\", supported_kernels: [i32_i32]}\n",
		"",
	}
	k := sym.Choice("bad", len(bad))
	kind := []string{"scalar", "aggregate", "window"}[sym.Choice("kind", 3)]
	want := k == len(bad)-1
	text := dialectHead
	fs := bad[k]
	if kind == "scalar" {
		fs += good
	} else {
		want = want || k == 3 || k == 4
		text += "scalar_functions:\n" + good
	}
	if fs != "" {
		text += kind + "_functions:\n" + fs
	}
	names := []string{letters("l0", 3), letters("l1", 3)}
	var err error
	panicked := sym.Catch(func() {
		var d functions.Dialect
		d, err = functions.LoadDialect("d", &yamlFile{text: text, vals: names})
		if err == nil {
			reg, _ := dialectRegistry()
			sym.MapOrder(true)
			_, err = d.LocalizeFunctionRegistry(reg)
			sym.MapOrder(false)
		}
	})
	sym.Assert(!panicked, "a dialect does not panic")
	sym.Assert((err == nil) == want, "a dialect is accepted exactly when all it names exists")
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// takes tells whether n arguments can be given to a function of na parameters
// when its last one may be repeated min to max times (0: any number of times).
func takes(na int, variadic bool, min, max, n int) bool {
	if !variadic || na == 0 {
		return n == na
	}
	last := n - (na - 1)
	return last >= 0 && last >= min && (max == 0 || last <= max)
}

// F01Variadic: a function is looked up by the number of arguments it is declared with
// and by the numbers of arguments it can be called with.
func F01Variadic() {
	na := sym.Choice("parameters", 4)
	variadic := sym.Choice("variadic", 2) == 1
	min, max := 0, 0
	args := []string{"", "{name: x, value: i64}", "{name: x, value: i64}, {name: y, value: i32}", "{name: x, value: i64}, {name: y, value: string}, {name: z, value: i32}"}[na]
	sig := []string{"", "i64", "i64_i32", "i64_str_i32"}[na]
	impl := "\n  impls:\n  - args: [" + args + "]\n    return: i32\n"
	if variadic {
		min = sym.Choice("min", 3)
		if m := sym.Choice("max", 3); m > 0 {
			max = min + m - 1
		}
		impl += "    variadic: {min: " + string(rune('0'+min)) + ", max: " + string(rune('0'+max)) + "}\n"
	}
	c := &extensions.Collection{}
	err := c.Load(&yamlFile{text: "urn: " + urnA + "\nscalar_functions:\n- name: fs" + impl + "- name: fo" + impl + "aggregate_functions:\n- name: fa" + impl + "window_functions:\n- name: fw" + impl})
	sym.Assert(err == nil, "loads")
	r := functions.NewFunctionRegistry(c)
	sym.Assert(len(r.GetAllFunctions()) == 5, "all functions are listed") // an aggregate function is a window function
	n := sym.Choice("n", 6)
	want := n == na || takes(na, variadic, min, max, n)
	s, o := r.GetScalarFunctions("fs", n), r.GetScalarFunctions("fo", n)
	a, w := r.GetAggregateFunctions("fa", n), r.GetWindowFunctions("fw", n)
	sym.Assert((len(s) == 1) == want && len(s) <= 1, "a scalar function is found by the numbers of arguments it takes")
	sym.Assert((len(o) == 1) == want && len(o) <= 1, "every scalar function is found by the numbers of arguments it takes")
	sym.Assert((len(a) == 1) == want && len(a) <= 1, "an aggregate function is found by the numbers of arguments it takes")
	sym.Assert((len(w) == 1) == want && len(w) <= 1, "a window function is found by the numbers of arguments it takes")
	sym.Assert(len(r.GetScalarFunctions("fa", n)) == 0 && len(r.GetAggregateFunctions("fs", n)) == 0 && len(r.GetWindowFunctions("fs", n)) == 0, "functions are found under their own kind")
	all := r.GetScalarFunctionsByName("fs")
	sym.Assert(len(all) == 1 && all[0].CompoundName() == "fs:"+sig && all[0].URN() == urnA, "functions are found by name")
	if want {
		sym.Assert(s[0].Name() == "fs" && o[0].Name() == "fo" && a[0].Name() == "fa" && w[0].Name() == "fw", "functions are found by their name")
		sym.Reach("takes")
	} else {
		sym.Reach("does not take")
	}
	if !variadic {
		sym.Assert(all[0].MinArgumentCount() == na && all[0].MaxArgumentCount() == na, "a function takes its parameters")
		sym.Assert(r.GetAggregateFunctionsByName("fa")[0].MinArgumentCount() == na && r.GetAggregateFunctionsByName("fa")[0].MaxArgumentCount() == na, "an aggregate function takes its parameters")
		sym.Assert(r.GetWindowFunctionsByName("fw")[0].MinArgumentCount() == na && r.GetWindowFunctionsByName("fw")[0].MaxArgumentCount() == na, "a window function takes its parameters")
	}
	if !variadic || na == 0 {
		return
	}
	d, err := functions.LoadDialect("d", &yamlFile{text: dialectHead + "scalar_functions:\n- name: a.fs\n  local_name: lfs\n  supported_kernels: [" + sig + "]\n"})
	sym.Assert(err == nil, "dialect loads")
	l, err := d.LocalizeFunctionRegistry(r)
	sym.Assert(err == nil, "localizes")
	sym.Assert((len(l.GetScalarFunctions(functions.LocalFunctionName("lfs"), n)) == 1) == want, "a local function is found by the numbers of arguments it takes")
	sym.Assert((len(l.GetScalarFunctions(functions.SubstraitFunctionName("fs"), n)) == 1) == want, "a standard function is found by the numbers of arguments it takes")
}
