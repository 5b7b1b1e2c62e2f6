package engine

import (
	"fmt"
	"go/types"
	"strings"
)

func anySymbolic(a []Value) bool {
	for _, v := range a {
		if i, ok := v.(iface); ok {
			switch i.v.(type) {
			case *Term, *SymStr, *LazyStr:
				return true
			}
		}
	}
	return false
}

func (p *Path) concat(parts []Value) Value {
	allc := true
	for i := range parts {
		parts[i] = p.force(parts[i])
		if _, ok := parts[i].(string); !ok {
			allc = false
		}
	}
	if allc {
		var sb strings.Builder
		for _, x := range parts {
			sb.WriteString(x.(string))
		}
		return sb.String()
	}
	var b []Value
	for _, x := range parts {
		b = append(b, p.strBytes(x)...)
	}
	return normStr(b)
}

// fmtInt renders an integer in decimal; symbolic ones fork on sign and digit count.
func (p *Path) fmtInt(v Value, w uint16, signed bool) Value {
	switch x := v.(type) {
	case uint64:
		if signed {
			return fmt.Sprint(sext(w, x))
		}
		return fmt.Sprint(x)
	case *Term:
		return &LazyStr{f: func(p *Path) Value { return p.fmtIntNow(x, w, signed) }}
	}
	panic(fmt.Sprintf("fmtInt %T", v))
}

func (p *Path) fmtIntNow(x *Term, w uint16, signed bool) Value {
	c := p.c
	var out []Value
	var abs *Term
	if signed {
		x = c.SExt(x, 64)
		if p.branch(c.Cmp(OSLT, x, c.Const(64, 0))) {
			out = append(out, uint64('-'))
			abs = c.Neg(x)
		} else {
			abs = x
		}
	} else {
		abs = c.ZExt(x, 64)
	}
	n := 1
	pow := uint64(10)
	for n < 20 {
		if p.branch(c.Cmp(OULT, abs, c.Const(64, pow))) {
			break
		}
		n++
		if n < 20 {
			pow *= 10
		}
	}
	// fresh digits
	sum := c.Const(64, 0)
	digits := make([]*Term, n)
	m := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := c.Var("digit", 4, true)
		digits[i] = d
		p.addPC(c.Cmp(OULE, d, c.Const(4, 9)))
		sum = c.Bin(OAdd, sum, c.Bin(OMul, c.ZExt(d, 64), c.Const(64, m)))
		m *= 10
	}
	if n == 20 {
		p.addPC(c.Eq(digits[0], c.Const(4, 1)))
	}
	p.addPC(c.Eq(abs, sum))
	for _, d := range digits {
		out = append(out, p.lift(c.Bin(OAdd, c.ZExt(d, 8), c.Const(8, '0'))))
	}
	return normStr(out)
}

// sprintf is a small fmt.Sprintf.
func (p *Path) sprintf(f string, args []Value) Value {
	return &LazyStr{f: func(p *Path) Value { return p.sprintfNow(f, args) }}
}

func (p *Path) sprintfNow(f string, args []Value) Value {
	var parts []Value
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, f[i:])
			break
		}
		if j > 0 {
			parts = append(parts, f[i:i+j])
		}
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			parts = append(parts, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			parts = append(parts, "%")
			continue
		}
		if n >= len(args) {
			parts = append(parts, "%!"+string(verb)+"(MISSING)")
			continue
		}
		parts = append(parts, p.fmtArg(verb, flags, args[n]))
		n++
	}
	return p.concat(parts)
}

func (p *Path) fmtArg(verb byte, flags string, a Value) Value {
	v, ok := a.(iface)
	if !ok {
		return "?"
	}
	if v.t == nil {
		if verb == 'v' || verb == 's' {
			return "<nil>"
		}
		return fmt.Sprintf("%%!%c(<nil>)", verb)
	}
	return p.fmtVal(verb, flags, v.t, v.v, 0)
}

func (p *Path) fmtVal(verb byte, flags string, t types.Type, v Value, depth int) Value {
	if depth > 8 {
		return "..."
	}
	if verb == 'T' {
		return types.TypeString(t, func(pk *types.Package) string { return pk.Name() })
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !strings.Contains(flags, "#") {
			for _, mn := range []string{"Error", "String"} {
				m := p.findMethod(t, mn)
				if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
					continue
				}
				if b, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
					continue
				}
				if ptr, ok := v.(*Value); ok && ptr == nil {
					return "<nil>"
				}
				s, panicked := p.callCatch(m, v)
				if panicked {
					return "%!" + string(verb) + "(PANIC=" + mn + " method)"
				}
				return p.fmtString(verb, flags, s)
			}
		}
	}
	switch x := p.force(v).(type) {
	case bool:
		return fmt.Sprintf("%"+flags+string(verb), x)
	case uint64:
		w, s, _ := intInfo(t)
		if s {
			return fmt.Sprintf("%"+flags+string(verb), sext(w, x))
		}
		return fmt.Sprintf("%"+flags+string(verb), x)
	case float64, float32:
		return fmt.Sprintf("%"+flags+string(verb), x)
	case *Term:
		if x.W == 0 {
			if p.branch(x) {
				return "true"
			}
			return "false"
		}
		if w, s, ok := intInfo(t); ok && (verb == 'd' || verb == 'v') && flags == "" {
			return p.fmtInt(x, w, s)
		}
		unsupported("formatting a symbolic value with %%%s%c", flags, verb)
	case string, *SymStr:
		return p.fmtString(verb, flags, x)
	case []Value:
		et := types.Type(nil)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		if k, ok := basicKind(et); ok && k == types.Uint8 && (verb == 's' || verb == 'x') {
			return p.fmtString(verb, flags, normStr(append([]Value(nil), x...)))
		}
		parts := []Value{"["}
		for i, e := range x {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, p.fmtElem(verb, flags, et, e, depth+1))
		}
		return p.concat(append(parts, "]"))
	case array:
		et := t.Underlying().(*types.Array).Elem()
		parts := []Value{"["}
		for i, e := range x {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, p.fmtElem(verb, flags, et, e, depth+1))
		}
		return p.concat(append(parts, "]"))
	case structure:
		st := t.Underlying().(*types.Struct)
		parts := []Value{"{"}
		for i, e := range x {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, p.fmtElem(verb, flags, st.Field(i).Type(), e, depth+1))
		}
		return p.concat(append(parts, "}"))
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if depth == 0 {
			if _, ok := (*x).(structure); ok {
				return p.concat([]Value{"&", p.fmtVal(verb, flags, deref(t), *x, depth+1)})
			}
		}
		return "0xc000000000"
	case *Map:
		parts := []Value{"map["}
		if x != nil {
			for i, e := range x.entries {
				if i > 0 {
					parts = append(parts, " ")
				}
				parts = append(parts, p.fmtElem(verb, flags, x.kt, e.k, depth+1), ":", p.fmtElem(verb, flags, x.vt, e.v, depth+1))
			}
		}
		return p.concat(append(parts, "]"))
	case iface:
		if x.t == nil {
			return "<nil>"
		}
		return p.fmtVal(verb, flags, x.t, x.v, depth)
	case rtypeV:
		return types.TypeString(x.t, func(pk *types.Package) string { return pk.Name() })
	}
	return "?"
}

func (p *Path) fmtElem(verb byte, flags string, t types.Type, v Value, depth int) Value {
	if t == nil {
		return "?"
	}
	return p.fmtVal(verb, flags, t, v, depth)
}

func (p *Path) callCatch(m Value, recv Value) (res Value, panicked bool) {
	depth := p.depth
	fr := p.curFrame
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*targetPanic); ok {
				p.depth = depth
				panicked = true
				return
			}
			panic(r)
		}
	}()
	return p.call(fr, m, []Value{recv}), false
}

func (p *Path) fmtString(verb byte, flags string, s Value) Value {
	s = p.force(s)
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), c)
	}
	if (verb == 's' || verb == 'v') && flags == "" {
		return s
	}
	if verb == 'q' {
		return p.concat([]Value{"\"", s, "\""})
	}
	unsupported("formatting a symbolic string with %%%s%c", flags, verb)
	return nil
}
