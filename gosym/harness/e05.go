package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

// concrete is the type that p denotes under the bindings, nil if it denotes none.
func (p pt) concrete(b *binds, reg extensions.Set) types.Type {
	num := func(i iparam) (int32, bool) {
		if i.v == "" {
			return i.c, true
		}
		for _, x := range b.ints {
			if x.v == i.v {
				return x.x, true
			}
		}
		return 0, false
	}
	switch p.kind {
	case "i32":
		return &types.Int32Type{Nullability: p.n}
	case "string":
		return &types.StringType{Nullability: p.n}
	case "any":
		for _, x := range b.types {
			if x.v == p.name {
				if p.n == types.NullabilityNullable {
					return x.t.WithNullability(p.n)
				}
				return x.t
			}
		}
		return nil
	case "fixedchar":
		if n, ok := num(p.a); ok {
			return &types.FixedCharType{Length: n, Nullability: p.n}
		}
	case "varchar":
		if n, ok := num(p.a); ok {
			return &types.VarCharType{Length: n, Nullability: p.n}
		}
	case "decimal":
		x, ok1 := num(p.a)
		y, ok2 := num(p.b)
		if ok1 && ok2 {
			return &types.DecimalType{Precision: x, Scale: y, Nullability: p.n}
		}
	case "list":
		if e := p.kids[0].concrete(b, reg); e != nil {
			return &types.ListType{Type: e, Nullability: p.n}
		}
	case "map":
		k, v := p.kids[0].concrete(b, reg), p.kids[1].concrete(b, reg)
		if k != nil && v != nil {
			return &types.MapType{Key: k, Value: v, Nullability: p.n}
		}
	case "struct":
		r := &types.StructType{Nullability: p.n}
		for _, c := range p.kids {
			t := c.concrete(b, reg)
			if t == nil {
				return nil
			}
			r.Types = append(r.Types, t)
		}
		return r
	case "udt":
		r := &types.UserDefinedType{Nullability: p.n, TypeReference: reg.GetTypeAnchor(extensions.TypeID{URN: sigURN, Name: "t"})}
		for _, c := range p.kids {
			t := c.concrete(b, reg)
			if t == nil {
				return nil
			}
			r.TypeParameters = append(r.TypeParameters, &types.DataTypeParameter{Type: t})
		}
		return r
	}
	return nil
}

// checkResolve resolves the call twice and compares with the reference.
func (s sig) checkResolve(kind int, args []types.Type) {
	v, fresh := s.variant(kind), s.impl()
	before := append([]types.Type(nil), args...)
	copies := make([]types.Type, len(args))
	for i, a := range args {
		copies[i] = a.WithNullability(a.GetNullability())
	}
	reg := extensions.NewSet()
	reg.GetTypeAnchor(extensions.TypeID{URN: sigURN, Name: "other"})
	var out, again types.Type
	var err, err2 error
	panicked := sym.Catch(func() { out, err = v.ResolveType(args, reg) })
	sym.Assert(!panicked, "resolving does not panic")
	if panicked {
		return
	}
	accepted, b := s.accepts(args)
	var want types.Type
	if accepted {
		want = s.ret.concrete(b, reg)
	}
	sym.Assert((err == nil) == (want != nil), "resolved exactly when the arguments are accepted and the result is determined")
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("resolved")
	if s.handling == extensions.MirrorNullability || s.handling == "" {
		n := false
		for _, a := range args {
			n = sym.Or(n, a.GetNullability() != types.NullabilityRequired)
		}
		if n {
			want = want.WithNullability(types.NullabilityNullable)
			sym.Reach("nullable")
		} else {
			want = want.WithNullability(types.NullabilityRequired)
			sym.Reach("required")
		}
	}
	sym.Assert(out.Equals(want), "the result type")
	again, err2 = v.ResolveType(args, reg)
	sym.Assert(err2 == nil && again.Equals(want), "resolving again gives the same type")
	for i, a := range args {
		sym.Assert(a == before[i] && a.Equals(copies[i]), "the argument types are unchanged")
	}
	sym.Assert(sym.DeepEqual(v.Args(), fresh.Args), "the declared parameters are unchanged")
	sym.Assert(sym.DeepEqual(s.variant(kind), v), "the declared function is unchanged")
}

func retType() *pt {
	i := iparam{v: "L"}
	n := nul2("ret.nul")
	all := []pt{
		{kind: "i32"},
		{kind: "any", name: "any1"},
		{kind: "list", kids: []pt{any1("any1")}},
		{kind: "fixedchar", a: i},
		{kind: "fixedchar", a: iparam{c: 5}},
		{kind: "decimal", a: i, b: iparam{c: 2}},
		{kind: "struct", kids: []pt{{kind: "i32", n: types.NullabilityNullable}, chr("varchar", "L")}},
		{kind: "map", kids: []pt{{kind: "string", n: types.NullabilityRequired}, any1("any1")}},
		{kind: "udt", kids: []pt{any1("any1")}},
	}
	r := all[sym.Choice("ret", len(all))]
	r.n = n
	return &r
}

func E05Resolve() {
	s := variadicSig()
	s.ret = retType()
	kind := 0
	if s.ret.kind == "i32" {
		kind = sym.Choice("function", 3)
	}
	s.checkResolve(kind, variadicArgs(2, "i32", "fixedchar"))
}

func E05Shared() {
	s, args := sharedSig()
	// the result uses any variable that there is
	var vars []pt
	var collect func(p pt)
	collect = func(p pt) {
		switch {
		case p.kind == "any" && p.name != "any":
			vars = append(vars, any1(p.name), nest("list", any1(p.name)))
		case p.a.v != "":
			vars = append(vars, chr("varchar", p.a.v), nest("list", chr("fixedchar", p.a.v)))
		}
		for _, c := range p.kids {
			collect(c)
		}
	}
	for _, p := range s.params {
		collect(p)
	}
	vars = append(vars, any1("any3"), chr("varchar", "M"))
	r := vars[sym.Choice("ret", len(vars))]
	r.n = nul2("ret.nul")
	s.ret = &r
	s.checkResolve(0, args)
}

// E05Mirror: every argument takes part in the nullability of the result.
func E05Mirror() {
	s := sig{handling: handlings[sym.Choice("handling", 4)], variadic: anyVariadic(), ret: &pt{kind: "string", n: nul2("ret")}}
	for i, n := 0, 1+sym.Choice("params", 3); i < n; i++ {
		s.params = append(s.params, pt{kind: "i32", n: nul2("param" + strconv.Itoa(i))})
	}
	s.checkResolve(sym.Choice("function", 3), variadicArgs(4, "i32"))
}
