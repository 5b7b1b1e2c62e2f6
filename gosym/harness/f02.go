package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("F02",
	H{F: F02Strings, Bounds: "every type name, with or without the nullability marker, no parameters or 0..2 parameters whose text is up to 2 (deep: 4) arbitrary bytes; the standard registry and that of a dialect with every type", Reach: []string{"type", "malformed"}},
	H{F: F02Names, Bounds: "every string of up to 4 (deep: 6) bytes as a type string of the standard registry and as a local one", Reach: []string{"type", "malformed"}},
	H{F: F02Printed, Bounds: "every type with a name, every length, precision, scale and nullability: printed, translated to the local name and back, repeatedly and in between others", Reach: []string{"printed", "local"}},
	H{F: F02Dialect, Bounds: "a dialect with three types, local names of up to 2 bytes, shared ones included, and column flags; every iteration order", Reach: []string{"shared", "distinct"}, Order: true},
)

// namedKinds are the type names of the registry and the parameters of each.
var namedKinds = []struct {
	name, short, kind string
	least, most       int
}{
	{"boolean", "bool", "boolean", 0, 0},
	{"i8", "i8", "i8", 0, 0},
	{"i16", "i16", "i16", 0, 0},
	{"i32", "i32", "i32", 0, 0},
	{"i64", "i64", "i64", 0, 0},
	{"fp32", "fp32", "fp32", 0, 0},
	{"fp64", "fp64", "fp64", 0, 0},
	{"string", "str", "string", 0, 0},
	{"binary", "vbin", "binary", 0, 0},
	{"date", "date", "date", 0, 0},
	{"time", "time", "time", 0, 0},
	{"timestamp", "ts", "timestamp", 0, 0},
	{"timestamp_tz", "tstz", "timestamp_tz", 0, 0},
	{"interval_year", "iyear", "interval_year", 0, 0},
	{"uuid", "uuid", "uuid", 0, 0},
	{"fixedbinary", "fbin", "fixedbinary", 1, 1},
	{"fixedchar", "fchar", "fixedchar", 1, 1},
	{"varchar", "vchar", "varchar", 1, 1},
	{"decimal", "dec", "decimal", 2, 2},
	{"interval_day", "iday", "interval_day", 0, 1},
	{"precision_time", "pt", "precision_time", 0, 1},
	{"precision_timestamp", "pts", "precision_timestamp", 0, 1},
	{"precision_timestamp_tz", "ptstz", "precision_timestamp_tz", 0, 1},
}

// named builds the type of that kind, nil when the parameters do not fit.
func named(kind string, n types.Nullability, ps []int32) types.Type {
	p := func(i int) int32 {
		if i < len(ps) {
			return ps[i]
		}
		return 0
	}
	switch kind {
	case "interval_day", "precision_time", "precision_timestamp", "precision_timestamp_tz":
		if p(0) < 0 || p(0) > 9 {
			return nil
		}
	}
	t := types.TimePrecision(p(0))
	switch kind {
	case "boolean":
		return &types.BooleanType{Nullability: n}
	case "i8":
		return &types.Int8Type{Nullability: n}
	case "i16":
		return &types.Int16Type{Nullability: n}
	case "i32":
		return &types.Int32Type{Nullability: n}
	case "i64":
		return &types.Int64Type{Nullability: n}
	case "fp32":
		return &types.Float32Type{Nullability: n}
	case "fp64":
		return &types.Float64Type{Nullability: n}
	case "string":
		return &types.StringType{Nullability: n}
	case "binary":
		return &types.BinaryType{Nullability: n}
	case "date":
		return &types.DateType{Nullability: n}
	case "time":
		return &types.TimeType{Nullability: n}
	case "timestamp":
		return &types.TimestampType{Nullability: n}
	case "timestamp_tz":
		return &types.TimestampTzType{Nullability: n}
	case "interval_year":
		return &types.IntervalYearType{Nullability: n}
	case "uuid":
		return &types.UUIDType{Nullability: n}
	case "fixedbinary":
		return &types.FixedBinaryType{Length: p(0), Nullability: n}
	case "fixedchar":
		return &types.FixedCharType{Length: p(0), Nullability: n}
	case "varchar":
		return &types.VarCharType{Length: p(0), Nullability: n}
	case "decimal":
		return &types.DecimalType{Precision: p(0), Scale: p(1), Nullability: n}
	case "interval_day":
		return &types.IntervalDayType{Precision: t, Nullability: n}
	case "precision_time":
		return &types.PrecisionTimeType{Precision: t, Nullability: n}
	case "precision_timestamp":
		return &types.PrecisionTimestampType{Precision: t, Nullability: n}
	case "precision_timestamp_tz":
		return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: t, Nullability: n}}
	}
	panic(kind)
}

const anyFunction = `scalar_functions:
- name: a.add
  supported_kernels: [i32_i32]
`

// allTypes is a dialect in which every type has a local name: its short name in capitals and "x".
func allTypes() functions.LocalTypeRegistry {
	text := "name: d\ntype: sql\ndependencies: {a: " + urnA + "}\nsupported_types:\n"
	for _, k := range namedKinds {
		text += "  " + k.short + ": {sql_type_name: X" + k.short + "}\n"
	}
	d, err := functions.LoadDialect("d", &yamlFile{text: text + anyFunction})
	if err != nil {
		panic(err)
	}
	r, err := d.GetLocalTypeRegistry()
	if err != nil {
		panic(err)
	}
	return r
}

// number is the value of a decimal 32-bit text.
func number(s string) (int32, bool) {
	d := s
	neg := false
	if len(d) > 0 && (d[0] == '+' || d[0] == '-') {
		neg = d[0] == '-'
		d = d[1:]
	}
	if len(d) == 0 {
		return 0, false
	}
	v := int64(0)
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
		v = v*10 + int64(d[i]-'0')
	}
	if neg {
		v = -v
	}
	return int32(v), v >= -1<<31 && v < 1<<31
}

func checkString(get func(string) (types.Type, error), s string, want types.Type) {
	var got types.Type
	var err error
	panicked := sym.Catch(func() { got, err = get(s) })
	sym.Assert(!panicked, "a type string does not panic")
	if panicked {
		return
	}
	sym.Assert((err == nil) == (want != nil), "a type string is accepted exactly when it is well formed")
	if err != nil {
		sym.Reach("malformed")
		return
	}
	sym.Assert(got.Equals(want), "the type that the string denotes")
	sym.Reach("type")
	// the answer is the caller's
	_ = got.WithNullability(types.NullabilityUnspecified)
	again, err := get(s)
	sym.Assert(err == nil && again.Equals(want), "the same type again")
}

func F02Strings() {
	std := functions.NewTypeRegistry()
	loc := allTypes()
	k := namedKinds[sym.Choice("name", len(namedKinds))]
	mark, n := "", types.NullabilityRequired
	if sym.Choice("nullable", 2) == 1 {
		mark, n = "?", types.NullabilityNullable
	}
	most := 2
	if sym.Deep() {
		most = 4
	}
	reg := sym.Choice("registry", 4)
	count := sym.Choice("params", 4) - 1
	if count == 2 && !sym.Deep() {
		most = 1
	}
	ok := true
	var ps []int32
	var texts []string
	for i := 0; i < count; i++ {
		t := sym.String("param"+strconv.Itoa(i), 0, most)
		for j := 0; j < len(t); j++ {
			sym.Assume(sym.And(sym.And(t[j] != '<', t[j] != '>'), sym.And(sym.And(t[j] != '(', t[j] != ')'), t[j] != ',')))
			sym.Assume(t[j] < 128)
			if !sym.Deep() && (reg == 1 || reg == 2) {
				sym.Assume(sym.And(t[j] >= '0', t[j] <= '9'))
			}
		}
		texts = append(texts, t)
		x, good := number(t)
		ok = ok && good
		ps = append(ps, x)
	}
	in := ""
	switch {
	case count == 0: // empty brackets
		ok = false
	case count > 0:
		ok = ok && count >= k.least && count <= k.most
		in = texts[0]
		if count == 2 {
			in += "," + texts[1]
		}
	default:
		ok = k.least == 0
	}
	var want types.Type
	if ok {
		want = named(k.kind, n, ps)
	}
	brackets := func(open, end string) string {
		if count < 0 {
			return ""
		}
		return open + in + end
	}
	switch reg {
	case 0:
		checkString(std.GetTypeFromTypeString, k.name+mark+brackets("<", ">"), want)
	case 1:
		checkString(std.GetTypeFromTypeString, k.short+mark+brackets("<", ">"), want)
	case 2:
		checkString(loc.GetTypeFromTypeString, k.name+mark+brackets("<", ">"), want)
	case 3:
		checkString(loc.GetSubstraitTypeFromLocalType, "X"+k.short+mark+brackets("(", ")"), want)
	}
}

func F02Names() {
	most := 4
	if sym.Deep() {
		most = 6
	}
	s := sym.String("s", 0, most)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128)
	}
	get := functions.NewTypeRegistry().GetTypeFromTypeString
	prefix, open, end := "", byte('<'), byte('>')
	if sym.Choice("local", 2) == 1 {
		get = allTypes().GetSubstraitTypeFromLocalType
		prefix, open, end = "X", '(', ')'
	}
	base, n := s, types.NullabilityRequired
	var ps []int32
	ok, brackets := true, false
	if len(s) > 0 && s[len(s)-1] == end {
		for i := 0; i < len(s); i++ {
			if s[i] == open {
				base, brackets = s[:i], true
				x, good := number(s[i+1 : len(s)-1])
				ps, ok = []int32{x}, good
				break
			}
		}
	}
	if len(base) > 0 && base[len(base)-1] == '?' {
		base, n = base[:len(base)-1], types.NullabilityNullable
	}
	sym.Assume(base != "u!")
	var want types.Type
	for _, k := range namedKinds {
		if base == k.short || base == k.name && prefix == "" {
			if ok && len(ps) >= k.least && len(ps) <= k.most {
				want = named(k.kind, n, ps)
			}
		}
	}
	_ = brackets
	checkString(get, prefix+s, want)
}

// symNamed is any type with a name.
func symNamed(name string) (int, types.Type) {
	i := sym.Choice(name, len(namedKinds))
	k := namedKinds[i]
	ps := []int32{}
	for j := 0; j < k.most; j++ {
		p := sym.Int32(name + ".p" + strconv.Itoa(j))
		if k.least == 0 {
			sym.Assume(sym.And(p >= 0, p <= 9))
		} else if sym.Deep() {
			sym.Assume(sym.And(p >= 0, p < 10000))
		} else {
			sym.Assume(sym.And(p >= 0, p < 100))
		}
		ps = append(ps, p)
	}
	return i, named(k.kind, nul2(name+".nul"), ps)
}

func F02Printed() {
	std := functions.NewTypeRegistry()
	loc := allTypes()
	i, t := symNamed("t")
	u := t.WithNullability(types.NullabilityRequired)
	printed, err := std.GetTypeFromTypeString(t.String())
	sym.Assert(err == nil && printed.Equals(t), "the printed form of a type denotes it")
	sym.Reach("printed")
	local, err := loc.GetLocalTypeFromSubstraitType(t)
	sym.Assert(err == nil, "every declared type has a local name")
	n := len(namedKinds[i].short) + 1
	sym.Assert(len(local) >= n && local[:n] == "X"+namedKinds[i].short, "the declared local name")
	sym.Assert(loc.IsTypeSupportedInTables(t), "supported in tables unless declared otherwise")
	back, err := loc.GetSubstraitTypeFromLocalType(local)
	sym.Assert(err == nil && back.Equals(u), "a local name translates back")
	other := namedKinds[(i+1)%len(namedKinds)]
	if _, err := loc.GetSubstraitTypeFromLocalType("X" + other.short + "?"); (err == nil) != (other.least == 0) {
		sym.Assert(false, "another local name")
	}
	again, err := loc.GetLocalTypeFromSubstraitType(t)
	sym.Assert(err == nil && again == local, "the same local name again")
	back, err = loc.GetSubstraitTypeFromLocalType(local)
	sym.Assert(err == nil && back.Equals(u), "a local name translates back again")
	_, err = loc.GetLocalTypeFromSubstraitType(&types.ListType{Type: t})
	sym.Assert(err != nil, "an undeclared type has no local name")
	sym.Reach("local")
}

func F02Dialect() {
	n := []string{sym.String("n0", 1, 2), sym.String("n1", 1, 2), sym.String("n2", 1, 2)}
	for _, s := range n {
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.And(s[i] >= 'A', s[i] <= 'Z'))
		}
	}
	cols := []bool{false, true, true}
	text := "name: d\ntype: sql\ndependencies: {a: " + urnA + `}
supported_types:
  i32: {sql_type_name: "@0", supported_as_column: false}
  str: {sql_type_name: "@1"}
  date: {sql_type_name: "@2", supported_as_column: true}
`
	d, err := functions.LoadDialect("d", &yamlFile{text: text + anyFunction, vals: n})
	if err != nil {
		panic(err)
	}
	sym.MapOrder(true)
	r, err := d.LocalizeTypeRegistry(functions.NewTypeRegistry())
	sym.MapOrder(false)
	sym.Assert(err == nil, "the dialect has a type registry")
	ts := []types.Type{&types.Int32Type{Nullability: types.NullabilityRequired}, &types.StringType{Nullability: types.NullabilityRequired}, &types.DateType{Nullability: types.NullabilityRequired}}
	distinct := n[0] != n[1] && n[1] != n[2] && n[0] != n[2]
	d2, err := functions.LoadDialect("d", &yamlFile{text: text + anyFunction, vals: n})
	if err != nil {
		panic(err)
	}
	r2, _ := d2.GetLocalTypeRegistry()
	for i, t := range ts {
		s, err := r.GetLocalTypeFromSubstraitType(t)
		sym.Assert(err == nil && s == n[i], "the local name of a type")
		sym.Assert(r.IsTypeSupportedInTables(t) == cols[i], "supported in tables as declared")
		back, err := r.GetSubstraitTypeFromLocalType(s)
		sym.Assert(err == nil, "a local name translates back")
		if err != nil {
			return
		}
		if distinct {
			sym.Assert(back.Equals(t), "a local name translates back to its type")
			sym.Reach("distinct")
		} else {
			back2, _ := r2.GetSubstraitTypeFromLocalType(s)
			sym.Assert(back.Equals(back2), "a shared local name denotes the same type every time")
			sym.Reach("shared")
		}
	}
	q := sym.String("q", 0, 2)
	_, err = r.GetSubstraitTypeFromLocalType(q)
	known := false
	base := q
	if len(q) > 0 && q[len(q)-1] == '?' {
		base = q[:len(q)-1]
	}
	for _, s := range n {
		known = known || s == base
	}
	sym.Assert((err == nil) == known, "an undeclared local name is an error")
}
