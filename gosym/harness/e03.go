package harness

import (
	"github.com/substrait-io/substrait-go/v8/extensions"

	"verif/gosym/sym"
)

var _ = reg("E03",
	H{F: E03Lookup, Bounds: "two files; the first with two scalar, two aggregate (one of them overloaded) and two window overloads, the second with one of each kind; every one-byte function name, equal names included; lookups of every name of up to 5 bytes under both and an unknown URN", Reach: []string{"scalar", "aggregate", "window", "none"}},
	H{F: E03Types, Bounds: "two files with two types and two type variations each, every one-byte name; lookups of every name of up to 2 bytes", Reach: []string{"type", "variation", "none"}},
	H{F: E03Load, Bounds: "every URN of up to 14 bytes over its prefix, loaded once or twice, with declared and undeclared user-defined types, loaded and missing dependencies", Reach: []string{"accepted", "rejected"}},
)

// fn is one declared overload as the harness knows it.
type fn struct {
	name, sig, desc string
}

func (f fn) compound() string { return f.name + ":" + f.sig }

func letter(name string) string {
	s := sym.String(name, 1, 1)
	sym.Assume(sym.And(s[0] >= 'a', s[0] <= 'z'))
	return s
}

// lookup is what the declarations say about a name: the overload, if any.
func lookup(fns []fn, q string) (string, bool) {
	for _, f := range fns {
		if q == f.compound() {
			return f.compound(), true
		}
	}
	n := 0
	var r string
	for _, f := range fns {
		if q == f.name {
			n++
			r = f.compound()
		}
	}
	return r, n == 1
}

func E03Lookup() {
	s0, s1, a0, w0, w1 := letter("s0"), letter("s1"), letter("a0"), letter("w0"), letter("w1")
	text := `urn: "` + urnA + `"
scalar_functions:
- name: "@0"
  description: "scalar 0"
  impls:
  - args: [{name: x, value: i32}]
    return: i32
- name: "@1"
  description: "scalar 1"
  impls:
  - args: [{name: x, value: i64}]
    return: i32
aggregate_functions:
- name: "@2"
  description: "aggregate"
  impls:
  - args: [{name: x, value: i32}]
    return: i32
  - args: [{name: x, value: i64}]
    return: i32
window_functions:
- name: "@3"
  description: "window 0"
  impls:
  - args: [{name: x, value: i32}]
    return: i32
    window_type: PARTITION
- name: "@4"
  description: "window 1"
  impls:
  - args: [{name: x, value: date}]
    return: i32
    window_type: PARTITION
`
	textB := `urn: "` + urnB + `"
scalar_functions:
- name: "@0"
  description: "scalar 0"
  impls:
  - args: [{name: x, value: i32}]
    return: i32
aggregate_functions:
- name: "@1"
  description: "aggregate"
  impls:
  - args: []
    return: i32
window_functions:
- name: "@0"
  description: "window 0"
  impls:
  - args: []
    return: i32
`
	scalar := []fn{{s0, "i32", "scalar 0"}, {s1, "i64", "scalar 1"}}
	agg := []fn{{a0, "i32", "aggregate"}, {a0, "i64", "aggregate"}}
	win := []fn{{w0, "i32", "window 0"}, {w1, "date", "window 1"}, {a0, "i64", "aggregate"}}
	if w0 != a0 {
		win = append(win, fn{a0, "i32", "aggregate"})
	}
	b0, b1 := letter("b0"), letter("b1")
	scalarB := []fn{{b0, "i32", "scalar 0"}}
	aggB := []fn{{b1, "", "aggregate"}}
	winB := []fn{{b0, "", "window 0"}}
	if b0 != b1 {
		winB = append(winB, fn{b1, "", "aggregate"})
	}
	c := &extensions.Collection{}
	sym.Assert(c.Load(&yamlFile{text: text, vals: []string{s0, s1, a0, w0, w1}}) == nil, "first file loads")
	sym.Assert(c.Load(&yamlFile{text: textB, vals: []string{b0, b1}}) == nil, "second file loads")

	sym.Assert(len(c.GetAllScalarFunctions()) == len(scalar)+len(scalarB), "every scalar overload is listed")
	sym.Assert(len(c.GetAllAggregateFunctions()) == len(agg)+len(aggB), "every aggregate overload is listed")
	sym.Assert(len(c.GetAllWindowFunctions()) == len(win)+len(winB), "every window overload is listed")

	urn := []string{urnA, urnB, "extension:o:c"}[sym.Choice("urn", 3)]
	switch urn {
	case urnB:
		scalar, agg, win = scalarB, aggB, winB
	case urnA:
	default:
		scalar, agg, win = nil, nil, nil
	}
	// every name: of a length that can match, or of the other lengths
	q := sym.String("q", 0, 6)
	id := extensions.FunctionID{URN: urn, Name: q}
	desc := func(fns []fn, compound string) string {
		for _, f := range fns {
			if f.compound() == compound {
				return f.desc
			}
		}
		return ""
	}
	check := func(kind string, fns []fn, v extensions.FunctionVariant, ok bool) bool {
		want, found := lookup(fns, q)
		sym.Assert(ok == found, kind+" is found exactly when declared")
		if !ok {
			return false
		}
		sym.Assert(v.CompoundName() == want, kind+" is the overload asked for")
		sym.Assert(v.URN() == urn, kind+" has its URN")
		sym.Assert(v.Description() == desc(fns, want), kind+" is the declared one")
		sym.Assert(v.Name()+":"+want[2:] == want, kind+" has its plain name")
		sym.Reach(kind)
		return true
	}
	sv, ok := c.GetScalarFunc(id)
	any := check("scalar", scalar, sv, ok)
	av, ok := c.GetAggregateFunc(id)
	any = check("aggregate", agg, av, ok) || any
	wv, ok := c.GetWindowFunc(id)
	any = check("window", win, wv, ok) || any
	if !any {
		sym.Reach("none")
	}
	// the same through a set
	s := extensions.NewSet()
	s.GetFuncAnchor(extensions.FunctionID{URN: urnA, Name: "other"})
	anchor := s.GetFuncAnchor(id)
	sv2, _ := s.LookupScalarFunction(anchor, c)
	av2, _ := s.LookupAggregateFunction(anchor, c)
	wv2, _ := s.LookupWindowFunction(anchor, c)
	sym.Assert(sv2 == sv && av2 == av && wv2 == wv, "a set looks up the same functions")
}

func E03Types() {
	n := []string{letter("t0"), letter("t1"), letter("v0"), letter("v1")}
	sym.Assume(sym.And(n[0] != n[1], n[2] != n[3]))
	text := `types:
- name: "@0"
  structure: "string"
- name: "@1"
  structure: "i32"
type_variations:
- name: "@2"
  parent: "string"
  description: "v0"
- name: "@3"
  parent: "i32"
  description: "v1"
`
	c := &extensions.Collection{}
	for i, u := range []string{urnA, urnB} {
		vals := n
		if i == 1 {
			vals = []string{n[1], n[2], n[3], n[0]}
			sym.Assume(sym.And(vals[0] != vals[1], vals[2] != vals[3]))
		}
		sym.Assert(c.Load(&yamlFile{text: "urn: " + u + "\n" + text, vals: vals}) == nil, "loads")
		q := sym.String("q", 0, 2)
		t, ok := c.GetType(extensions.TypeID{URN: u, Name: q})
		sym.Assert(ok == sym.Or(q == vals[0], q == vals[1]), "a type is found exactly when declared")
		if ok {
			sym.Assert(t.Name == q, "the type asked for")
			sym.Assert((t.Structure == "string") == (q == vals[0]), "with its structure")
			sym.Reach("type")
		}
		v, ok := c.GetTypeVariation(extensions.TypeVariationID{URN: u, Name: q})
		sym.Assert(ok == sym.Or(q == vals[2], q == vals[3]), "a type variation is found exactly when declared")
		if ok {
			sym.Assert(v.Name == q, "the type variation asked for")
			sym.Assert((v.Description == "v0") == (q == vals[2]), "with its declaration")
			sym.Reach("variation")
		} else {
			sym.Reach("none")
		}
		s := extensions.NewSet()
		ta, va := s.GetTypeAnchor(extensions.TypeID{URN: u, Name: q}), s.GetTypeVariationAnchor(extensions.TypeVariationID{URN: u, Name: q})
		t2, ok2 := s.LookupType(ta, c)
		sym.Assert(ok2 == sym.Or(q == vals[0], q == vals[1]), "a set looks up the same types")
		if ok2 {
			sym.Assert(t2.Name == q, "a set looks up the same type")
		}
		v2, ok3 := s.LookupTypeVariation(va, c)
		sym.Assert(ok3 == ok, "a set looks up the same type variations")
		if ok3 {
			sym.Assert(v2.Name == q, "a set looks up the same type variation")
		}
		_, ok = c.GetType(extensions.TypeID{URN: "extension:o:c", Name: q})
		sym.Assert(!ok, "nothing under another URN")
	}
}

func validURN(u string) bool {
	// extension:<owner>:<id>, without colons in owner and id
	if len(u) < 10 || u[:10] != "extension:" {
		return false
	}
	n, pos := 0, -1
	for i := 10; i < len(u); i++ {
		if u[i] == ':' {
			n++
			pos = i
		}
	}
	return n == 1 && pos > 10 && pos < len(u)-1
}

func E03Load() {
	c := &extensions.Collection{}
	if c.Load(&yamlFile{text: "urn: " + urnA + "\n"}) != nil {
		panic("load")
	}
	var urn string
	dep := sym.Choice("what", 5)
	switch dep {
	case 0:
		urn = "extension:" + sym.String("urn", 0, 4)
	case 1:
		urn = sym.String("urn", 0, 9) + ":b"
	default:
		urn = urnB
	}
	for i := 0; i < len(urn); i++ {
		sym.Assume(sym.And(urn[i] >= ' ', urn[i] < 127))
	}
	text := "urn: \"@0\"\n"
	want := validURN(urn)
	if urn == urnA {
		want = false // loaded before
	}
	udt := ""
	switch dep {
	case 2: // user-defined types declared or not
		udt = letter("udt")
		text += `types:
- name: "@1"
scalar_functions:
- name: "f"
  impls:
  - args: [{name: x, value: u!t}]
    return: i32
`
		want = udt == "t"
	case 3: // dependencies
		d := []string{urnA, urnB, "extension:o:c"}[sym.Choice("dep", 3)]
		text += "dependencies:\n  a: " + d + "\n"
		want = d == urnA
	case 4: // loaded before
		urn = urnA
		want = false
	}
	vals := []string{urn, udt}
	err := c.Load(&yamlFile{text: text, vals: vals})
	sym.Assert((err == nil) == want, "loads exactly when well formed")
	sym.Assert(c.URNLoaded(urnA), "earlier files stay loaded")
	if urn != urnA {
		sym.Assert(c.URNLoaded(urn) == want, "a URN is loaded exactly when its file was accepted")
	}
	if want {
		sym.Reach("accepted")
		sym.Assert(c.Load(&yamlFile{text: text, vals: vals}) != nil, "a URN is loaded once")
	} else {
		sym.Reach("rejected")
		sym.Assert(len(c.GetAllScalarFunctions()) == 0, "a rejected file adds nothing")
	}
}
