package engine

import (
	"go/types"
)

// Protobuf messages are plain structs here. proto.Equal and proto.Clone are
// modelled structurally over exported fields (the generated code's internal
// bookkeeping fields are ignored).

func registerProto(P *Program) {
	N := P.Natives
	N["google.golang.org/protobuf/proto.Equal"] = func(p *Path, fr *frame, a []Value) Value {
		return p.protoEqualIface(a[0].(iface), a[1].(iface), 0)
	}
	N["google.golang.org/protobuf/proto.Clone"] = func(p *Path, fr *frame, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return i
		}
		return iface{i.t, p.protoClone(i.t, i.v, 0)}
	}
	N[symPkg+".Parts"] = func(p *Path, fr *frame, a []Value) Value {
		i := a[0].(iface)
		return uint64(len(p.protoParts(deref(i.t), i.v.(*Value))))
	}
	N[symPkg+".Drop"] = func(p *Path, fr *frame, a []Value) Value {
		i := a[0].(iface)
		k, ok := a[1].(uint64)
		if !ok {
			unsupported("dropping a symbolic part")
		}
		p.protoParts(deref(i.t), i.v.(*Value))[k]()
		return nil
	}
	N[symPkg+".ProtoEqual"] = N["google.golang.org/protobuf/proto.Equal"]
}

func (p *Path) protoEqualIface(a, b iface, depth int) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !sameType(a.t, b.t) {
		return false
	}
	x, _ := a.v.(*Value)
	y, _ := b.v.(*Value)
	if (x == nil) != (y == nil) {
		return false
	}
	if x == nil {
		return true
	}
	return p.protoEqual(deref(a.t), *x, *y, depth)
}

func exported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

func (p *Path) protoEqual(t types.Type, x, y Value, depth int) Value {
	if depth > 80 {
		unsupported("proto equality depth")
	}
	switch a := x.(type) {
	case structure:
		b := y.(structure)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range a {
			if !exported(st.Field(i).Name()) {
				continue
			}
			r = p.and(r, p.protoEqual(st.Field(i).Type(), a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *Value:
		b, _ := y.(*Value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return p.protoEqual(deref(t), *a, *b, depth+1)
	case iface: // oneof wrapper
		b := y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !sameType(a.t, b.t) {
			return false
		}
		pa, _ := a.v.(*Value)
		pb, _ := b.v.(*Value)
		if pa == nil || pb == nil {
			return pa == nil && pb == nil
		}
		// a set oneof member holding a nil message equals one holding an empty message on the
		// wire; keep them distinct only when both are non-nil
		return p.protoEqual(deref(a.t), *pa, *pb, depth+1)
	case []Value:
		b := y.([]Value)
		if len(a) != len(b) {
			return false
		}
		et := t.Underlying().(*types.Slice).Elem()
		var r Value = true
		for i := range a {
			r = p.and(r, p.protoEqual(et, a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *Map:
		b, _ := y.(*Map)
		an, bn := 0, 0
		if a != nil {
			an = a.n
		}
		if b != nil {
			bn = b.n
		}
		if an != bn {
			return false
		}
		if an == 0 {
			return true
		}
		var r Value = true
		for _, e := range a.entries {
			f := b.find(p, e.k)
			if f == nil {
				return false
			}
			r = p.and(r, p.protoEqual(a.vt, e.v, f.v, depth+1))
		}
		return r
	case float64, float32:
		return p.floatBitsEq(x, y)
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return p.floatBitsEq(x, y)
		}
	}
	return p.equal(t, x, y)
}

// floatBitsEq: equal, or both NaN (proto.Equal semantics).
func (p *Path) floatBitsEq(x, y Value) Value {
	w := uint16(64)
	if _, ok := x.(float32); ok {
		w = 32
	}
	if t, ok := x.(*Term); ok {
		w = t.W
	}
	a, b := p.term(x, w), p.term(y, w)
	if a == b {
		return true
	}
	eq := p.c.F(OFEq, 0, a, b)
	nan := p.c.And(p.c.F(OFNaN, 0, a, nil), p.c.F(OFNaN, 0, b, nil))
	return p.lift(p.c.Or(eq, nan))
}

func (p *Path) protoClone(t types.Type, v Value, depth int) Value {
	switch a := v.(type) {
	case *Value:
		if a == nil {
			return a
		}
		return mkPtr(p.protoClone(deref(t), *a, depth+1))
	case structure:
		st := t.Underlying().(*types.Struct)
		r := make(structure, len(a))
		for i := range a {
			if exported(st.Field(i).Name()) {
				r[i] = p.protoClone(st.Field(i).Type(), a[i], depth+1)
			} else {
				r[i] = zero(st.Field(i).Type())
			}
		}
		return r
	case iface:
		if a.t == nil {
			return a
		}
		return iface{a.t, p.protoClone(a.t, a.v, depth+1)}
	case []Value:
		if a == nil {
			return a
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := make([]Value, len(a))
		for i := range a {
			r[i] = p.protoClone(et, a[i], depth+1)
		}
		return r
	case *Map:
		if a == nil {
			return a
		}
		m := newMap(t)
		for _, e := range a.entries {
			m.set(p, e.k, p.protoClone(a.vt, e.v, depth+1))
		}
		return m
	}
	return v
}

func isMessagePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

// protoParts are the parts of a message that can be missing, in the order of
// sym.Parts.
func (p *Path) protoParts(t types.Type, m *Value) (r []func()) {
	st := t.Underlying().(*types.Struct)
	s := (*m).(structure)
	for i := range s {
		if !exported(st.Field(i).Name()) {
			continue
		}
		ft := st.Field(i).Type()
		// a message may be copied when it is assigned
		set := func(v Value) func() { return func() { (*m).(structure)[i] = v } }
		switch f := s[i].(type) {
		case *Value:
			if f == nil {
				continue
			}
			r = append(r, set((*Value)(nil)))
			if isMessagePtr(ft) {
				r = append(r, set(mkPtr(zero(deref(ft)))))
				r = append(r, p.protoParts(deref(ft), f)...)
			}
		case iface:
			if f.t == nil {
				continue
			}
			r = append(r, set(iface{}))
			w := f.v.(*Value)
			wt := deref(f.t).Underlying().(*types.Struct).Field(0).Type()
			if !isMessagePtr(wt) {
				continue
			}
			in := (*w).(structure)[0].(*Value)
			if in == nil {
				continue
			}
			r = append(r, func() { (*w).(structure)[0] = mkPtr(zero(deref(wt))) })
			r = append(r, p.protoParts(deref(wt), in)...)
		case []Value:
			if len(f) == 0 {
				continue
			}
			et := ft.Underlying().(*types.Slice).Elem()
			if !isMessagePtr(et) {
				r = append(r, set([]Value(nil)))
				continue
			}
			for j := range f {
				r = append(r, func() {
					n := append([]Value{}, f[:j]...)
					(*m).(structure)[i] = append(n, f[j+1:]...)
				}, func() { f[j] = mkPtr(zero(deref(et))) })
				r = append(r, p.protoParts(deref(et), f[j].(*Value))...)
			}
		}
	}
	return r
}
