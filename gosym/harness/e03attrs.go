package harness

import (
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("E03",
	H{F: E03Attributes, Bounds: "a function of each kind, and an aggregate used as a window function, with each attribute declared or not, every text of 1 byte", Reach: []string{"scalar", "aggregate", "window", "aggregate as window"}},
)

// E03Attributes: a loaded function has the attributes that its file declares, and
// the defaults of the specification for the others.
func E03Attributes() {
	kinds := []string{"scalar", "aggregate", "window", "aggregate as window"}
	kind := kinds[sym.Choice("function kind", 4)]
	sym.Case(kind)
	vals := []string{sym.String("desc", 1, 1), sym.String("meta", 1, 1), sym.String("option", 1, 1), sym.String("value", 1, 1), sym.String("file meta", 1, 1), sym.String("arg", 1, 1)}
	text := "urn: " + urnA + "\nmetadata: {k: \"@4\"}\n"
	switch kind {
	case "scalar":
		text += "scalar_functions:\n"
	case "window":
		text += "window_functions:\n"
	default:
		text += "aggregate_functions:\n"
	}
	text += "- name: f\n  description: \"@0\"\n"
	meta := sym.Choice("metadata", 2) == 1
	if meta {
		text += "  metadata: {m: \"@1\"}\n"
	}
	text += "  impls:\n  - args: [{name: \"@5\", description: d, value: i32?, constant: true}, {name: e, options: [A, B]}]\n    return: i64\n"
	var minimum, maximum int
	consistency := extensions.ConsistentParams
	variadic := sym.Choice("variadic", 3)
	switch variadic {
	case 1:
		text += "    variadic: {min: 1, max: 3, parameterConsistency: INCONSISTENT}\n"
		minimum, maximum, consistency = 1, 3, extensions.InconsistentParams
	case 2:
		text += "    variadic: {min: 2}\n"
		minimum = 2
	}
	det := sym.Choice("deterministic", 3) // left out, false, true
	text += []string{"", "    deterministic: false\n", "    deterministic: true\n"}[det]
	session := sym.Choice("session", 2) == 1
	if session {
		text += "    sessionDependent: true\n"
	}
	handling := []extensions.NullabilityHandling{"", extensions.MirrorNullability, extensions.DeclaredOutputNullability, extensions.DiscreteNullability}[sym.Choice("handling", 4)]
	if handling == "" {
		handling = extensions.MirrorNullability
	} else {
		text += "    nullability: " + string(handling) + "\n"
	}
	option := sym.Choice("options", 2) == 1
	if option {
		text += "    options: {o: {description: \"@2\", values: [X, \"@3\"]}}\n"
	}
	dec, ordered, maxSet, wt := extensions.DecomposeNone, false, 0, extensions.PartitionWindow
	if kind != "scalar" && sym.Choice("aggregate attributes", 2) == 1 {
		dec, ordered, maxSet = extensions.DecomposeMany, true, 7
		text += "    decomposable: MANY\n    intermediate: date?\n    ordered: true\n    maxset: 7\n"
	}
	if kind == "aggregate as window" {
		wt = extensions.StreamingWindow
	}
	if kind == "window" && sym.Choice("window type", 2) == 1 {
		wt = extensions.StreamingWindow
		text += "    window_type: STREAMING\n"
	}
	c := &extensions.Collection{}
	if err := c.Load(&yamlFile{text: text, vals: vals}); err != nil {
		sym.Assert(false, "the file loads")
		return
	}
	if m := c.GetFileMetadata(urnA); len(m) != 1 || m["k"] == nil {
		sym.Assert(false, "the metadata of the file")
	} else {
		s, ok := m["k"].(string)
		sym.Assert(ok, "the metadata of the file")
		sym.Assert(s == vals[4], "the metadata of the file")
	}
	sym.Assert(c.GetFileMetadata(urnB) == nil, "no metadata of another file")
	id := extensions.FunctionID{URN: urnA, Name: "f:i32_req"}
	var f interface {
		extensions.FunctionVariant
		SessionDependent() bool
		Deterministic() bool
		Nullability() extensions.NullabilityHandling
	}
	var ok bool
	switch kind {
	case "scalar":
		f, ok = c.GetScalarFunc(id)
	case "aggregate":
		f, ok = c.GetAggregateFunc(id)
	default:
		f, ok = c.GetWindowFunc(id)
	}
	if !ok {
		sym.Assert(false, "the function is found")
		return
	}
	sym.Assert(f.Description() == vals[0], "the description")
	if meta {
		s, ok := f.Metadata()["m"].(string)
		sym.Assert(ok, "the metadata")
		sym.Assert(s == vals[1], "the metadata")
	} else {
		sym.Assert(len(f.Metadata()) == 0, "no metadata")
	}
	if v := f.Variadic(); variadic == 0 {
		sym.Assert(v == nil, "not variadic")
	} else if v == nil {
		sym.Assert(false, "variadic")
	} else {
		sym.Assert(v.Min == minimum && v.Max == maximum && v.ParameterConsistency == consistency, "the variadic behavior")
	}
	sym.Assert(f.Deterministic() == (det != 1), "determinism")
	sym.Assert(f.SessionDependent() == session, "session dependence")
	sym.Assert(f.Nullability() == handling, "nullability handling")
	if option {
		o, ok := f.Options()["o"]
		sym.Assert(ok && len(f.Options()) == 1 && len(o.Values) == 2 && o.Values[0] == "X", "the options")
		if ok && len(o.Values) == 2 {
			sym.Assert(o.Values[1] == vals[3], "the values of an option")
			sym.Assert(o.Description == vals[2], "the description of an option")
		}
	} else {
		sym.Assert(len(f.Options()) == 0, "no options")
	}
	args := f.Args()
	sym.Assert(len(args) == 2, "the parameters")
	if len(args) == 2 {
		v, ok := args[0].(extensions.ValueArg)
		sym.Assert(ok && v.Constant && v.Description == "d", "the value parameter")
		if ok {
			sym.Assert(v.Name == vals[5], "the name of the parameter")
			t, ok := v.GetTypeExpression().(*types.Int32Type)
			sym.Assert(ok && t.Nullability == types.NullabilityNullable, "the type of the parameter")
		}
		e, ok := args[1].(extensions.EnumArg)
		sym.Assert(ok && e.Name == "e" && len(e.Options) == 2 && e.Options[0] == "A" && e.Options[1] == "B", "the enum parameter")
	}
	if a, ok := f.(interface {
		Decomposability() extensions.DecomposeType
		Intermediate() (types.FuncDefArgType, error)
		Ordered() bool
		MaxSet() int
	}); ok {
		sym.Assert(a.Decomposability() == dec, "decomposability")
		sym.Assert(a.Ordered() == ordered && a.MaxSet() == maxSet, "order and set size")
		it, err := a.Intermediate()
		sym.Assert((err == nil) == ordered, "an intermediate type if declared")
		if ordered && err == nil {
			t, ok := it.(*types.DateType)
			sym.Assert(ok && t.Nullability == types.NullabilityNullable, "the intermediate type")
		}
	} else {
		sym.Assert(kind == "scalar", "an aggregate or window function")
	}
	if w, ok := f.(*extensions.WindowFunctionVariant); ok {
		sym.Assert(w.WindowType() == wt, "the window type")
	}
	sym.Reach(kind)
}
