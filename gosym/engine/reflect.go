package engine

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (p *Path) rtype(t types.Type) Value {
	if t == nil {
		return iface{}
	}
	return iface{p.x.P.rtypeType, rtypeV{t}}
}

func registerReflect(P *Program) {
	N := P.Natives
	rt := func(a Value) types.Type {
		r, ok := a.(rtypeV)
		if !ok {
			unsupported("reflect type %T", a)
		}
		return r.t
	}
	N["reflect.TypeOf"] = func(p *Path, fr *frame, a []Value) Value { return p.rtype(a[0].(iface).t) }
	N["reflect.TypeFor"] = func(p *Path, fr *frame, a []Value) Value { return p.rtype(fr.fc.fn.TypeArgs()[0]) }
	N["reflect.PointerTo"] = func(p *Path, fr *frame, a []Value) Value {
		return p.rtype(types.NewPointer(rt(a[0].(iface).v)))
	}
	N["reflect.PtrTo"] = N["reflect.PointerTo"]
	N["reflect.DeepEqual"] = func(p *Path, fr *frame, a []Value) Value { return p.deepEqual(nil, a[0], a[1], 0) }
	N["(*reflect.rtype).Kind"] = func(p *Path, fr *frame, a []Value) Value { return uint64(kindOf(rt(a[0]))) }
	N["(*reflect.rtype).Elem"] = func(p *Path, fr *frame, a []Value) Value {
		switch t := rt(a[0]).Underlying().(type) {
		case *types.Pointer:
			return p.rtype(t.Elem())
		case *types.Slice:
			return p.rtype(t.Elem())
		case *types.Array:
			return p.rtype(t.Elem())
		case *types.Map:
			return p.rtype(t.Elem())
		}
		panic(&targetPanic{v: ifaceErr(p, "reflect: Elem of invalid type"), msg: "reflect: Elem of invalid type", site: fr.site(), stack: fr.stackNames()})
	}
	N["(*reflect.rtype).Name"] = func(p *Path, fr *frame, a []Value) Value {
		switch t := types.Unalias(rt(a[0])).(type) {
		case *types.Named:
			n := t.Obj().Name()
			if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
				n += "["
				for i := 0; i < ta.Len(); i++ {
					if i > 0 {
						n += ","
					}
					n += types.TypeString(ta.At(i), nil)
				}
				n += "]"
			}
			return n
		case *types.Basic:
			return t.Name()
		}
		return ""
	}
	N["(*reflect.rtype).String"] = func(p *Path, fr *frame, a []Value) Value {
		return types.TypeString(rt(a[0]), func(pk *types.Package) string { return pk.Name() })
	}
	N["(*reflect.rtype).PkgPath"] = func(p *Path, fr *frame, a []Value) Value {
		if t, ok := types.Unalias(rt(a[0])).(*types.Named); ok && t.Obj().Pkg() != nil {
			return t.Obj().Pkg().Path()
		}
		return ""
	}
	N["(*reflect.rtype).Comparable"] = func(p *Path, fr *frame, a []Value) Value { return types.Comparable(rt(a[0])) }
	// reflect.Value is represented by rvalueV
	rv := func(a Value) rvalueV {
		r, ok := a.(rvalueV)
		if !ok {
			unsupported("reflect value %T", a)
		}
		return r
	}
	N["reflect.ValueOf"] = func(p *Path, fr *frame, a []Value) Value {
		i := a[0].(iface)
		return rvalueV{t: i.t, v: i.v}
	}
	N["reflect.New"] = func(p *Path, fr *frame, a []Value) Value {
		t := rt(a[0].(iface).v)
		return rvalueV{t: types.NewPointer(t), v: mkPtr(zero(t))}
	}
	N["reflect.Zero"] = func(p *Path, fr *frame, a []Value) Value {
		t := rt(a[0].(iface).v)
		return rvalueV{t: t, v: zero(t)}
	}
	N["(reflect.Value).Interface"] = func(p *Path, fr *frame, a []Value) Value {
		r := rv(a[0])
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return r.v
		}
		return iface{r.t, r.v}
	}
	N["(reflect.Value).Type"] = func(p *Path, fr *frame, a []Value) Value { return p.rtype(rv(a[0]).t) }
	N["(reflect.Value).Kind"] = func(p *Path, fr *frame, a []Value) Value {
		r := rv(a[0])
		if r.t == nil {
			return uint64(reflect.Invalid)
		}
		return uint64(kindOf(r.t))
	}
	N["(reflect.Value).IsNil"] = func(p *Path, fr *frame, a []Value) Value {
		r := rv(a[0])
		switch v := r.v.(type) {
		case *Value:
			return v == nil
		case []Value:
			return v == nil
		case *Map:
			return v == nil
		case iface:
			return v.t == nil
		case *ssa.Function:
			return v == nil
		}
		return false
	}
	N["(reflect.Value).IsValid"] = func(p *Path, fr *frame, a []Value) Value { return rv(a[0]).t != nil }
	N["(reflect.Value).Elem"] = func(p *Path, fr *frame, a []Value) Value {
		r := rv(a[0])
		switch v := r.v.(type) {
		case *Value:
			if v == nil {
				return rvalueV{}
			}
			return rvalueV{t: deref(r.t), v: *v, addr: v}
		case iface:
			return rvalueV{t: v.t, v: v.v}
		}
		unsupported("reflect Elem of %T", r.v)
		return nil
	}
	N["(reflect.Value).Set"] = func(p *Path, fr *frame, a []Value) Value {
		r, x := rv(a[0]), rv(a[1])
		if r.addr == nil {
			unsupported("reflect Set of unaddressable value")
		}
		v := x.v
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			if _, is := v.(iface); !is {
				v = iface{x.t, v}
			}
		}
		storeV(r.addr, v)
		return nil
	}
	N["(reflect.Value).Len"] = func(p *Path, fr *frame, a []Value) Value {
		switch v := p.force(rv(a[0]).v).(type) {
		case []Value:
			return uint64(len(v))
		case string:
			return uint64(len(v))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		}
		unsupported("reflect Len")
		return nil
	}
}
