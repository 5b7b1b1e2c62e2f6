package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	p := fr.p
	switch in.Op {
	case token.MUL:
		return loadV(fr.ptr(x))
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return p.lift(p.c.Not(b))
		}
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			w, _, _ := intInfo(in.Type())
			return mask(w, -v)
		case float64:
			return -v
		case float32:
			return -v
		case *Term:
			if _, _, ok := intInfo(in.Type()); ok {
				return p.lift(p.c.Neg(v))
			}
			return p.lift(p.c.Bin(OBXor, v, p.c.Const(v.W, 1<<(v.W-1))))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			w, _, _ := intInfo(in.Type())
			return mask(w, ^v)
		case *Term:
			return p.lift(p.c.BNot(v))
		}
	case token.ARROW:
		unsupported("channel receive")
	}
	panic(fmt.Sprintf("unop %s on %T", in.Op, x))
}

var intOps = map[token.Token]Op{
	token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor,
}

func (fr *frame) binop(op token.Token, a *binAux, x, y Value) Value {
	p := fr.p
	c := p.c
	switch op {
	case token.EQL:
		return p.equal(a.t, x, y)
	case token.NEQ:
		switch r := p.equal(a.t, x, y).(type) {
		case bool:
			return !r
		case *Term:
			return p.lift(c.Not(r))
		}
	}
	switch {
	case a.isInt:
		xc, xok := x.(uint64)
		yc, yok := y.(uint64)
		switch op {
		case token.SHL, token.SHR:
			return fr.shift(op, a, x, y)
		case token.QUO, token.REM:
			if yok && yc == 0 {
				p.raise(fr, "integer divide by zero")
			}
			if !yok && p.branch(c.Eq(y.(*Term), c.Const(a.w, 0))) {
				p.raise(fr, "integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && a.signed:
				o = OSDiv
			case op == token.REM && a.signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			if xok && yok {
				return evalBin(o, a.w, xc, yc)
			}
			return p.lift(c.Bin(o, p.term(x, a.w), p.term(y, a.w)))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			o := OULT
			if a.signed {
				o = OSLT
			}
			if op == token.LEQ || op == token.GEQ {
				o++
			}
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
				xc, yc = yc, xc
			}
			if xok && yok {
				return evalCmp(o, a.w, xc, yc)
			}
			return p.lift(c.Cmp(o, p.term(x, a.w), p.term(y, a.w)))
		case token.AND_NOT:
			if xok && yok {
				return xc &^ yc
			}
			return p.lift(c.Bin(OBAnd, p.term(x, a.w), c.BNot(p.term(y, a.w))))
		}
		o, ok := intOps[op]
		if !ok {
			panic("int op " + op.String())
		}
		if xok && yok {
			return evalBin(o, a.w, xc, yc)
		}
		return p.lift(c.Bin(o, p.term(x, a.w), p.term(y, a.w)))
	case a.isFloat != 0:
		return p.floatOp(op, a.isFloat, x, y)
	case a.isStr:
		x, y = p.force(x), p.force(y)
		xs, xok := x.(string)
		ys, yok := y.(string)
		if xok && yok {
			switch op {
			case token.ADD:
				return xs + ys
			case token.LSS:
				return xs < ys
			case token.LEQ:
				return xs <= ys
			case token.GTR:
				return xs > ys
			case token.GEQ:
				return xs >= ys
			}
		}
		switch op {
		case token.ADD:
			return normStr(append(append([]Value(nil), p.strBytes(x)...), p.strBytes(y)...))
		case token.LSS:
			return p.lift(p.strLess(x, y, false))
		case token.LEQ:
			return p.lift(p.strLess(x, y, true))
		case token.GTR:
			return p.lift(p.strLess(y, x, false))
		case token.GEQ:
			return p.lift(p.strLess(y, x, true))
		}
	case a.isBool:
		xt, yt := p.term(x, 0), p.term(y, 0)
		switch op {
		case token.AND, token.LAND:
			return p.lift(c.And(xt, yt))
		case token.OR, token.LOR:
			return p.lift(c.Or(xt, yt))
		}
	}
	panic(fmt.Sprintf("binop %s on %s (%T,%T)", op, a.t, x, y))
}

// strLess is lexicographic x<y (or <=).
func (p *Path) strLess(x, y Value, orEq bool) *Term {
	a, b := p.strBytes(x), p.strBytes(y)
	c := p.c
	n := min(len(a), len(b))
	var r *Term
	if len(a) < len(b) || (len(a) == len(b) && orEq) {
		r = c.True
	} else {
		r = c.False
	}
	for i := n - 1; i >= 0; i-- {
		ai, bi := p.term(a[i], 8), p.term(b[i], 8)
		r = c.Or(c.Cmp(OULT, ai, bi), c.And(c.Eq(ai, bi), r))
	}
	return r
}

func (fr *frame) shift(op token.Token, a *binAux, x, y Value) Value {
	p := fr.p
	c := p.c
	if a.ysigned {
		switch v := y.(type) {
		case uint64:
			if sext(a.yw, v) < 0 {
				p.raise(fr, "negative shift amount")
			}
		case *Term:
			if p.branch(c.Cmp(OSLT, v, c.Const(a.yw, 0))) {
				p.raise(fr, "negative shift amount")
			}
		}
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if a.signed {
			o = OAShr
		}
	}
	xc, xok := x.(uint64)
	yc, yok := y.(uint64)
	if xok && yok {
		return evalBin(o, a.w, xc, yc)
	}
	// bring the shift count to the width of x, saturating
	var yt *Term
	if yok {
		if yc > uint64(a.w) {
			yc = uint64(a.w)
		}
		yt = c.Const(a.w, yc)
	} else {
		t := y.(*Term)
		if t.W <= a.w {
			yt = c.ZExt(t, a.w)
		} else {
			big := c.Cmp(OULE, c.Const(t.W, uint64(a.w)), t)
			yt = c.Ite(big, c.Const(a.w, uint64(a.w)), c.Extract(t, a.w-1, 0))
		}
	}
	return p.lift(c.Bin(o, p.term(x, a.w), yt))
}

func (p *Path) floatOp(op token.Token, w uint16, x, y Value) Value {
	c := p.c
	_, xs := x.(*Term)
	_, ys := y.(*Term)
	if !xs && !ys {
		if w == 32 {
			a, b := x.(float32), y.(float32)
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		a, b := x.(float64), y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		panic("float op")
	}
	a, b := p.term(x, w), p.term(y, w)
	switch op {
	case token.ADD:
		return c.F(OFAdd, w, a, b)
	case token.SUB:
		return c.F(OFSub, w, a, b)
	case token.MUL:
		return c.F(OFMul, w, a, b)
	case token.QUO:
		return c.F(OFDiv, w, a, b)
	case token.LSS:
		return c.F(OFLt, 0, a, b)
	case token.LEQ:
		return c.F(OFLe, 0, a, b)
	case token.GTR:
		return c.F(OFLt, 0, b, a)
	case token.GEQ:
		return c.F(OFLe, 0, b, a)
	}
	panic("float op")
}

func (p *Path) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return p.lift(p.c.And(a.(*Term), b.(*Term)))
}

func (p *Path) not(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return p.lift(p.c.Not(a.(*Term)))
}

// equal is Go's == for static type t; the result is bool or *Term.
func (p *Path) equal(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return p.lift(p.c.Eq(p.c.Bool(a), y.(*Term)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		yt := y.(*Term)
		return p.lift(p.c.Eq(p.c.Const(yt.W, a), yt))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		return p.lift(p.c.F(OFEq, 0, p.term(x, 64), y.(*Term)))
	case float32:
		if b, ok := y.(float32); ok {
			return a == b
		}
		return p.lift(p.c.F(OFEq, 0, p.term(x, 32), y.(*Term)))
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return p.lift(p.c.F(OFEq, 0, a, p.term(y, a.W)))
		}
		return p.lift(p.c.Eq(a, p.term(y, a.W)))
	case string, *SymStr, *LazyStr:
		return p.strEq(x, y)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			if y == nil {
				return a == nil
			}
			return false
		}
		return a == b
	case *nativeBox:
		b, _ := y.(*nativeBox)
		return a == b
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(fmt.Sprintf("comparing iface with %T", y))
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !sameType(a.t, b.t) {
			return false
		}
		return p.equal(a.t, a.v, b.v)
	case structure:
		b := y.(structure)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = p.and(r, p.equal(st.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		b := y.(array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range a {
			r = p.and(r, p.equal(et, a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case rtypeV:
		b, ok := y.(rtypeV)
		return ok && sameType(a.t, b.t)
	case []Value:
		// comparison with nil only
		if b, ok := y.([]Value); ok {
			if a == nil || b == nil {
				return a == nil && b == nil
			}
		}
		p.uncomparable(t)
	case *Map:
		b, _ := y.(*Map)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		p.uncomparable(t)
	case *ssa.Function, *closure, *ssa.Builtin, *hostFunc:
		xn, yn := isNilFunc(x), isNilFunc(y)
		if xn || yn {
			return xn && yn
		}
		p.uncomparable(t)
	case nil:
		if y == nil {
			return true
		}
		return p.equal(t, y, x)
	}
	panic(fmt.Sprintf("equal: %T and %T (%s)", x, y, t))
}

func (p *Path) uncomparable(t types.Type) {
	msg := "comparing uncomparable type " + t.String()
	panic(&targetPanic{v: iface{p.x.P.runtimeErrorType, msg}, runtime: true, msg: "runtime error: " + msg, site: p.curFrame.site(), stack: p.curFrame.stackNames()})
}

func (p *Path) strEq(x, y Value) Value {
	if x, ok := x.(*LazyStr); ok {
		if y, ok := y.(*LazyStr); ok && x == y {
			return true
		}
	}
	x, y = p.force(x), p.force(y)
	xs, xok := x.(string)
	ys, yok := y.(string)
	if xok && yok {
		return xs == ys
	}
	a, b := p.strBytes(x), p.strBytes(y)
	if len(a) != len(b) {
		return false
	}
	t := p.c.True
	for i := range a {
		t = p.c.And(t, p.c.Eq(p.term(a[i], 8), p.term(b[i], 8)))
		if t == p.c.False {
			return false
		}
	}
	return p.lift(t)
}

func basicKind(t types.Type) (types.BasicKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	return b.Kind(), true
}

func floatWidth(t types.Type) uint16 {
	if k, ok := basicKind(t); ok {
		switch k {
		case types.Float32:
			return 32
		case types.Float64, types.UntypedFloat:
			return 64
		}
	}
	return 0
}

func (fr *frame) conv(dst, src types.Type, x Value) Value {
	p := fr.p
	c := p.c
	ud, us := dst.Underlying(), src.Underlying()
	if dw, _, ok := intInfo(ud); ok {
		if sw, ss, ok := intInfo(us); ok {
			switch v := x.(type) {
			case uint64:
				if ss {
					return mask(dw, uint64(sext(sw, v)))
				}
				return mask(dw, v)
			case *Term:
				if ss {
					return p.lift(c.SExt(v, dw))
				}
				return p.lift(c.ZExt(v, dw))
			}
			unsupported("integer conversion of %T", x)
		}
		if fw := floatWidth(us); fw != 0 {
			return p.floatToInt(x, fw, dw, ud)
		}
		if _, ok := us.(*types.Basic); ok { // unsafe.Pointer -> uintptr
			unsupported("pointer to integer conversion")
		}
	}
	if fw := floatWidth(ud); fw != 0 {
		if sw, ss, ok := intInfo(us); ok {
			switch v := x.(type) {
			case uint64:
				if ss {
					if fw == 32 {
						return float32(sext(sw, v))
					}
					return float64(sext(sw, v))
				}
				if fw == 32 {
					return float32(v)
				}
				return float64(v)
			case *Term:
				if ss {
					return c.F(OStoF, fw, v, nil)
				}
				return c.F(OUtoF, fw, v, nil)
			}
		}
		if sf := floatWidth(us); sf != 0 {
			switch v := x.(type) {
			case float32:
				if fw == 64 {
					return float64(v)
				}
				return v
			case float64:
				if fw == 32 {
					return float32(v)
				}
				return v
			case *Term:
				if sf == fw {
					return v
				}
				if fw == 32 {
					return c.F(OF64to32, 32, v, nil)
				}
				return c.F(OF32to64, 64, v, nil)
			}
		}
	}
	if b, ok := ud.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch s := us.(type) {
		case *types.Basic:
			if s.Info()&types.IsString != 0 {
				return x
			}
			if _, _, ok := intInfo(s); ok {
				v, ok := x.(uint64)
				if !ok {
					t := x.(*Term)
					if p.branch(c.Cmp(OULT, t, c.Const(t.W, 0x80))) {
						return normStr([]Value{p.lift(c.Extract(t, 7, 0))})
					}
					unsupported("string(symbolic rune)")
				}
				w, sg, _ := intInfo(s)
				r := int64(v)
				if sg {
					r = sext(w, v)
				}
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return string(rune(r))
			}
		case *types.Slice:
			ek, _ := basicKind(s.Elem())
			sl := x.([]Value)
			if ek == types.Uint8 {
				return normStr(append([]Value(nil), sl...))
			}
			// []rune
			var out []Value
			for _, e := range sl {
				switch e := e.(type) {
				case uint64:
					for _, b := range []byte(string(rune(int32(e)))) {
						out = append(out, uint64(b))
					}
				case *Term:
					if !p.branch(c.Cmp(OULT, e, c.Const(e.W, 0x80))) {
						unsupported("symbolic non-ASCII rune")
					}
					out = append(out, p.lift(c.Extract(e, 7, 0)))
				}
			}
			return normStr(out)
		}
	}
	if sl, ok := ud.(*types.Slice); ok {
		if b, ok := us.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			bs := p.strBytes(x)
			ek, _ := basicKind(sl.Elem())
			if ek == types.Uint8 {
				return append([]Value{}, bs...)
			}
			if s, ok := p.force(x).(string); ok {
				r := []Value{}
				for _, ch := range s {
					r = append(r, mask(32, uint64(ch)))
				}
				return r
			}
			r := []Value{}
			for _, e := range bs {
				t := p.term(e, 8)
				if t.Op == OConst {
					if t.V >= 0x80 {
						unsupported("non-ASCII in symbolic string")
					}
				} else if !p.branch(c.Cmp(OULT, t, c.Const(8, 0x80))) {
					unsupported("symbolic non-ASCII rune")
				}
				r = append(r, p.lift(c.ZExt(t, 32)))
			}
			return r
		}
	}
	switch ud.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Struct, *types.Interface, *types.Chan, *types.Array:
		return x
	}
	if b, ok := ud.(*types.Basic); ok {
		if b.Kind() == types.UnsafePointer {
			return x
		}
		if sb, ok := us.(*types.Basic); ok && (sb.Kind() == b.Kind() || b.Info()&types.IsBoolean != 0) {
			return x
		}
	}
	unsupported("conversion %s -> %s", src, dst)
	return nil
}

func (p *Path) floatToInt(x Value, fw, dw uint16, ud types.Type) Value {
	_, signed, _ := intInfo(ud)
	switch v := x.(type) {
	case float32:
		return p.floatToInt(float64(v), 64, dw, ud)
	case float64:
		if signed {
			return mask(dw, uint64(int64(v)))
		}
		return mask(dw, uint64(v))
	case *Term:
		if !signed {
			unsupported("symbolic float to unsigned")
		}
		// amd64 semantics: convert to int64 (out of range -> MinInt64) then truncate.
		lo := p.term(-9223372036854775808.0, 64)
		hi := p.term(9223372036854775808.0, 64)
		if fw == 32 {
			v = p.c.F(OF32to64, 64, v, nil)
		}
		in := p.c.And(p.c.F(OFLe, 0, lo, v), p.c.F(OFLt, 0, v, hi))
		if !p.branch(in) {
			return mask(dw, 1<<63)
		}
		t := p.c.F(OFtoS, 64, v, nil)
		return p.lift(p.c.Extract(t, dw-1, 0))
	}
	panic("floatToInt")
}

var _ = math.Pi

func sizeofElem(t types.Type) int64 {
	s := types.SizesFor("gc", "amd64")
	return s.Sizeof(t)
}

func growCap(oldLen, oldCap, add int, size int64) int {
	switch size {
	case 1:
		return cap(append(make([]byte, oldLen, oldCap), make([]byte, add)...))
	case 4:
		return cap(append(make([]uint32, oldLen, oldCap), make([]uint32, add)...))
	case 8:
		return cap(append(make([]uint64, oldLen, oldCap), make([]uint64, add)...))
	case 24:
		return cap(append(make([][3]uint64, oldLen, oldCap), make([][3]uint64, add)...))
	case 32:
		return cap(append(make([][4]uint64, oldLen, oldCap), make([][4]uint64, add)...))
	case 40:
		return cap(append(make([][5]uint64, oldLen, oldCap), make([][5]uint64, add)...))
	}
	return cap(append(make([][2]uint64, oldLen, oldCap), make([][2]uint64, add)...))
}

func appendV(a, b []Value, size int64) []Value {
	if len(b) == 0 {
		return a
	}
	n := len(a) + len(b)
	if n > cap(a) {
		na := make([]Value, len(a), growCap(len(a), cap(a), len(b), size))
		copy(na, a)
		a = na
	}
	k := len(a)
	a = a[:n]
	for i, v := range b {
		a[k+i] = copyVal(v)
	}
	return a
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value) Value {
	c := p.c
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		st := b.Type().(*types.Signature).Params().At(0).Type().Underlying()
		size := int64(16)
		if sl, ok := st.(*types.Slice); ok {
			size = sizeofElem(sl.Elem())
		}
		var add []Value
		switch y := p.force(args[1]).(type) {
		case string, *SymStr:
			add = p.strBytes(y)
		case []Value:
			add = y
		}
		a, _ := args[0].([]Value)
		return appendV(a, add, size)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := p.force(args[1]).(type) {
		case string, *SymStr:
			src = p.strBytes(y)
		case []Value:
			src = y
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeV(&dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := p.force(args[0]).(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case []Value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*fr.ptr(x)).(array)))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *nativeBox:
			return uint64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		}
	case "delete":
		m := args[0].(*Map)
		m.del(p, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.entries {
					e.deleted = true
				}
				x.entries, x.n, x.symKeys = nil, 0, 0
				x.idx = map[any]*mapEntry{}
			}
		case []Value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeV(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], site: fr.site(), stack: fr.stackNames()})
	case "recover":
		return doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, y := range args[1:] {
			r = p.minmax(b.Name() == "min", t, r, y)
		}
		return r
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*Value); ok && v == nil {
			p.raise(fr, "invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return &fr.defers
	case "String": // unsafe.String
		n, ok := args[1].(uint64)
		if ok && n == 0 {
			return ""
		}
		unsupported("unsafe.String")
	}
	_ = c
	unsupported("builtin %s on %v", b.Name(), fmt.Sprintf("%T", args[0]))
	return nil
}

func (p *Path) minmax(isMin bool, t types.Type, x, y Value) Value {
	if w, s, ok := intInfo(t); ok {
		o := OULT
		if s {
			o = OSLT
		}
		xt, yt := p.term(x, w), p.term(y, w)
		lt := p.c.Cmp(o, yt, xt)
		if !isMin {
			lt = p.c.Cmp(o, xt, yt)
		}
		return p.lift(p.c.Ite(lt, yt, xt))
	}
	if xs, ok := p.force(x).(string); ok {
		if ys, ok := p.force(y).(string); ok {
			if isMin {
				return min(xs, ys)
			}
			return max(xs, ys)
		}
	}
	switch a := x.(type) {
	case float64:
		if b, ok := y.(float64); ok {
			if isMin {
				return min(a, b)
			}
			return max(a, b)
		}
	}
	unsupported("min/max")
	return nil
}

func doRecover(caller *frame) Value {
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		f := caller.caller
		f.panicking = false
		tp := f.panic
		f.panic = nil
		return tp.v
	}
	return iface{}
}
