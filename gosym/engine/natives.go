package engine

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// fallThrough is returned by a partial native to interpret the Go body instead.
type fallThrough struct{}

const symPkg = "verif/gosym/sym"

func argStr(p *Path, v Value) string {
	s, ok := p.force(v).(string)
	if !ok {
		unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

func (p *Path) newInput(kind, name string, w uint16) *Term {
	t := p.c.Var(fmt.Sprintf("%s#%d", name, len(p.inputs)), w, false)
	p.inputs = append(p.inputs, inputRec{kind: kind, name: name, t: t})
	return t
}

func (p *Path) choiceInput(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := p.choose(name, n)
	p.inputs = append(p.inputs, inputRec{kind: "choice", name: name, conc: uint64(v), isConc: true})
	return v
}

func mkPtr(v Value) *Value { return &v }

func ifaceErr(p *Path, msg Value) Value {
	return iface{p.x.P.errorStringType, mkPtr(structure{msg})}
}

// hostWrap exposes a native Go function for fully concrete arguments; other
// calls fall through to the interpreted body.
func hostWrap(f any) nativeFn {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(p *Path, fr *frame, args []Value) Value {
		in := make([]reflect.Value, len(args))
		sig := fr.fc.fn.Signature
		for i := range args {
			var pt types.Type
			if sig.Recv() != nil {
				if i == 0 {
					pt = sig.Recv().Type()
				} else {
					pt = sig.Params().At(i - 1).Type()
				}
			} else {
				pt = sig.Params().At(i).Type()
			}
			v, ok := p.toHost(args[i], pt, ft.In(i))
			if !ok {
				return fallThrough{}
			}
			in[i] = v
		}
		var out []reflect.Value
		if ft.IsVariadic() {
			out = fv.CallSlice(in)
		} else {
			out = fv.Call(in)
		}
		res := make(tuple, len(out))
		for i := range out {
			res[i] = p.fromHost(out[i])
		}
		switch len(res) {
		case 0:
			return nil
		case 1:
			return res[0]
		}
		return res
	}
}

// toHost converts a concrete scalar/string/slice to a reflect.Value.
func (p *Path) toHost(v Value, st types.Type, t reflect.Type) (reflect.Value, bool) {
	v = p.force(v)
	r := reflect.New(t).Elem()
	switch x := v.(type) {
	case bool:
		if t.Kind() != reflect.Bool {
			return r, false
		}
		r.SetBool(x)
		return r, true
	case uint64:
		switch t.Kind() {
		case reflect.Int, reflect.Int64:
			r.SetInt(int64(x))
		case reflect.Int32:
			r.SetInt(int64(int32(x)))
		case reflect.Int16:
			r.SetInt(int64(int16(x)))
		case reflect.Int8:
			r.SetInt(int64(int8(x)))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			r.SetUint(x)
		default:
			return r, false
		}
		return r, true
	case float64, float32, string:
		rv := reflect.ValueOf(x)
		if !rv.Type().ConvertibleTo(t) || rv.Kind() != t.Kind() {
			return r, false
		}
		return rv.Convert(t), true
	case []Value:
		if t.Kind() != reflect.Slice {
			return r, false
		}
		sl, ok := st.Underlying().(*types.Slice)
		if !ok {
			return r, false
		}
		if x == nil {
			return r, true
		}
		out := reflect.MakeSlice(t, len(x), len(x))
		for i := range x {
			e, ok := p.toHost(x[i], sl.Elem(), t.Elem())
			if !ok {
				return r, false
			}
			out.Index(i).Set(e)
		}
		return out, true
	}
	return r, false
}

// fromHost converts host results of basic kinds (and errors) to values.
func (p *Path) fromHost(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64:
		return uint64(v.Int())
	case reflect.Int32:
		return mask(32, uint64(v.Int()))
	case reflect.Int16:
		return mask(16, uint64(v.Int()))
	case reflect.Int8:
		return mask(8, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	case reflect.Float32:
		return float32(v.Float())
	case reflect.Float64:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Slice:
		if v.IsNil() {
			return []Value(nil)
		}
		r := make([]Value, v.Len())
		for i := range r {
			r[i] = p.fromHost(v.Index(i))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return iface{}
		}
		return p.importValue(v, nil)
	}
	panic("fromHost " + v.Type().String())
}

func (p *Path) calleeSig(fr *frame) *types.Signature { return fr.fc.fn.Signature }

func registerNatives(P *Program) {
	N := P.Natives
	// ---- harness intrinsics
	scalar := func(name, kind string, w uint16) {
		N[symPkg+"."+name] = func(p *Path, fr *frame, a []Value) Value {
			n := argStr(p, a[0])
			if strings.Contains(n, "=") { // a fixed part, see sym.Plain
				switch name {
				case "Bool":
					return true
				case "Float64":
					return float64(1)
				case "Float32":
					return float32(1)
				}
				return uint64(1)
			}
			return p.newInput(kind, n, w)
		}
	}
	scalar("Int", "i64", 64)
	scalar("Int64", "i64", 64)
	scalar("Uint64", "i64", 64)
	scalar("Int32", "i32", 32)
	scalar("Uint32", "i32", 32)
	scalar("Int16", "i16", 16)
	scalar("Int8", "i8", 8)
	scalar("Uint8", "i8", 8)
	scalar("Float64", "i64", 64)
	scalar("Float32", "i32", 32)
	scalar("Bool", "bool", 0)
	N[symPkg+".Choice"] = func(p *Path, fr *frame, a []Value) Value {
		return uint64(p.choiceInput(argStr(p, a[0]), int(a[1].(uint64))))
	}
	symBytes := func(ascii bool) nativeFn {
		return func(p *Path, fr *frame, a []Value) Value {
			name := argStr(p, a[0])
			lo, hi := int(a[1].(uint64)), int(a[2].(uint64))
			if strings.Contains(name, "=") {
				b := make([]Value, hi)
				for i := range b {
					b[i] = uint64('a')
				}
				if ascii {
					return normStr(b)
				}
				return b
			}
			n := lo + p.choiceInput(name+".len", hi-lo+1)
			b := make([]Value, n)
			for i := range b {
				if ascii {
					b[i] = p.c.ZExt(p.newInput("ascii", name, 7), 8)
				} else {
					b[i] = p.newInput("i8", name, 8)
				}
			}
			if ascii {
				return normStr(b)
			}
			return b
		}
	}
	N[symPkg+".String"] = symBytes(true)
	N[symPkg+".Bytes"] = symBytes(false)
	N[symPkg+".Assume"] = func(p *Path, fr *frame, a []Value) Value { p.assume(a[0]); return nil }
	N[symPkg+".Assert"] = func(p *Path, fr *frame, a []Value) Value {
		p.assertV(a[0], argStr(p, a[1]))
		return nil
	}
	N[symPkg+".Reach"] = func(p *Path, fr *frame, a []Value) Value {
		p.reached = append(p.reached, argStr(p, a[0]))
		return nil
	}
	N[symPkg+".Observe"] = func(p *Path, fr *frame, a []Value) Value {
		v := a[1].(iface)
		p.observed = append(p.observed, obsRec{argStr(p, a[0]), v.v, v.t})
		if v.t == nil {
			p.observed[len(p.observed)-1].v = iface{}
		}
		return nil
	}
	N[symPkg+".Catch"] = func(p *Path, fr *frame, a []Value) (res Value) {
		depth := p.depth
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*targetPanic); ok {
					p.depth = depth
					res = true
					return
				}
				panic(r)
			}
		}()
		p.call(fr, a[0], nil)
		return false
	}
	N[symPkg+".And"] = func(p *Path, fr *frame, a []Value) Value { return p.and(a[0], a[1]) }
	N[symPkg+".Or"] = func(p *Path, fr *frame, a []Value) Value { return p.not(p.and(p.not(a[0]), p.not(a[1]))) }
	N[symPkg+".Implies"] = func(p *Path, fr *frame, a []Value) Value { return p.not(p.and(a[0], p.not(a[1]))) }
	N[symPkg+".Iff"] = func(p *Path, fr *frame, a []Value) Value {
		return p.lift(p.c.Eq(p.term(a[0], 0), p.term(a[1], 0)))
	}
	N[symPkg+".IteInt"] = func(p *Path, fr *frame, a []Value) Value {
		return p.lift(p.c.Ite(p.term(a[0], 0), p.term(a[1], 64), p.term(a[2], 64)))
	}
	N[symPkg+".Case"] = func(p *Path, fr *frame, a []Value) Value { p.where = argStr(p, a[0]); return nil }
	N[symPkg+".Where"] = func(p *Path, fr *frame, a []Value) Value { return p.where }
	N[symPkg+".Deep"] = func(p *Path, fr *frame, a []Value) Value { return p.x.Opt.Deep }
	N[symPkg+".MapOrder"] = func(p *Path, fr *frame, a []Value) Value { p.mapOrder = a[0].(bool); return nil }
	N[symPkg+".Symbolic"] = func(p *Path, fr *frame, a []Value) Value { return true }
	N[symPkg+".DeepEqual"] = func(p *Path, fr *frame, a []Value) Value { return p.deepEqual(nil, a[0], a[1], 0) }

	N["time.runtimeNano"] = func(p *Path, fr *frame, a []Value) Value { return uint64(1) }
	N["runtime/debug.modinfo"] = func(p *Path, fr *frame, a []Value) Value { return "" }
	N["time.now"] = func(p *Path, fr *frame, a []Value) Value { unsupported("wall clock"); return nil }
	// ---- errors
	N["errors.Is"] = func(p *Path, fr *frame, a []Value) Value { return p.errorsIs(fr, a[0].(iface), a[1].(iface)) }
	N["errors.As"] = nativeErrorsAs
	N["errors.AsType"] = nil
	delete(N, "errors.AsType")

	// ---- fmt
	N["fmt.Sprintf"] = func(p *Path, fr *frame, a []Value) Value {
		f := argStr(p, a[0])
		args := a[1].([]Value)
		if anySymbolic(args) {
			return p.sprintf(f, args)
		}
		return p.sprintf(f, args)
	}
	N["fmt.Errorf"] = func(p *Path, fr *frame, a []Value) Value {
		f, ok := p.force(a[0]).(string)
		if !ok {
			return ifaceErr(p, a[0])
		}
		args := append([]Value(nil), a[1].([]Value)...)
		msg := &LazyStr{f: func(p *Path) Value { return p.sprintf(strings.ReplaceAll(f, "%w", "%v"), args) }}
		var wrapped []Value
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && n < len(args) {
				wrapped = append(wrapped, args[n])
			}
			n++
		}
		switch len(wrapped) {
		case 0:
			return ifaceErr(p, msg)
		case 1:
			w := wrapped[0].(iface)
			if w.t == nil {
				w = iface{}
			}
			return iface{p.x.P.wrapErrorType, mkPtr(structure{msg, w})}
		}
		return iface{p.x.P.wrapErrorsType, mkPtr(structure{msg, wrapped})}
	}
	N["fmt.Sprint"] = func(p *Path, fr *frame, a []Value) Value {
		var parts []Value
		for _, x := range a[0].([]Value) {
			parts = append(parts, p.fmtArg('v', "", x))
		}
		return p.concat(parts)
	}
	N["fmt.Sprintln"] = func(p *Path, fr *frame, a []Value) Value {
		var parts []Value
		for i, x := range a[0].([]Value) {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, p.fmtArg('v', "", x))
		}
		return p.concat(append(parts, "\n"))
	}
	fpr := func(p *Path, fr *frame, w iface, s Value) Value {
		bs := append([]Value(nil), p.strBytes(s)...)
		m := p.findMethod(w.t, "Write")
		if m == nil {
			unsupported("Fprintf to %s", w.t)
		}
		return p.call(fr, m, []Value{w.v, bs})
	}
	N["fmt.Fprintf"] = func(p *Path, fr *frame, a []Value) Value {
		return fpr(p, fr, a[0].(iface), p.sprintf(argStr(p, a[1]), a[2].([]Value)))
	}
	N["fmt.Fprint"] = func(p *Path, fr *frame, a []Value) Value {
		var parts []Value
		for _, x := range a[1].([]Value) {
			parts = append(parts, p.fmtArg('v', "", x))
		}
		return fpr(p, fr, a[0].(iface), p.concat(parts))
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		N["fmt."+n] = func(p *Path, fr *frame, a []Value) Value { return tuple{uint64(0), iface{}} }
	}

	// ---- strings (native when concrete)
	N["strings.Index"] = hostWrap(strings.Index)
	N["strings.Contains"] = hostWrap(strings.Contains)
	N["strings.HasPrefix"] = hostWrap(strings.HasPrefix)
	N["strings.HasSuffix"] = hostWrap(strings.HasSuffix)
	N["strings.TrimSpace"] = hostWrap(strings.TrimSpace)
	N["strings.Split"] = hostWrap(strings.Split)
	N["strings.SplitN"] = hostWrap(strings.SplitN)
	N["strings.Join"] = hostWrap(strings.Join)
	N["strings.Repeat"] = hostWrap(strings.Repeat)
	N["strings.Replace"] = hostWrap(strings.Replace)
	N["strings.ReplaceAll"] = hostWrap(strings.ReplaceAll)
	N["strings.Fields"] = hostWrap(strings.Fields)
	N["strings.Count"] = hostWrap(strings.Count)
	N["strings.LastIndex"] = hostWrap(strings.LastIndex)
	N["strings.EqualFold"] = hostWrap(strings.EqualFold)
	N["strings.ToUpper"] = caseConv(strings.ToUpper, 'a', 'z', -32)
	N["strings.ToLower"] = caseConv(strings.ToLower, 'A', 'Z', 32)
	N["strings.Clone"] = func(p *Path, fr *frame, a []Value) Value { return a[0] }
	N["unicode.ToLower"] = hostWrap(unicode.ToLower)
	N["unicode.ToUpper"] = hostWrap(unicode.ToUpper)
	N["unicode.IsSpace"] = hostWrap(unicode.IsSpace)
	N["unicode.IsLetter"] = hostWrap(unicode.IsLetter)
	N["unicode.IsUpper"] = hostWrap(unicode.IsUpper)
	N["unicode.IsLower"] = hostWrap(unicode.IsLower)
	N["unicode.IsDigit"] = hostWrap(unicode.IsDigit)
	N["unicode/utf8.RuneCountInString"] = hostWrap(utf8.RuneCountInString)
	N["unicode/utf8.ValidString"] = hostWrap(utf8.ValidString)
	N["internal/bytealg.IndexByteString"] = func(p *Path, fr *frame, a []Value) Value {
		return p.indexByte(p.strBytes(a[0]), a[1])
	}
	N["internal/bytealg.IndexByte"] = func(p *Path, fr *frame, a []Value) Value {
		return p.indexByte(a[0].([]Value), a[1])
	}
	N["internal/stringslite.Clone"] = N["strings.Clone"]
	N["internal/stringslite.IndexByte"] = N["internal/bytealg.IndexByteString"]
	N["strings.IndexByte"] = N["internal/bytealg.IndexByteString"]
	N["bytes.IndexByte"] = N["internal/bytealg.IndexByte"]
	N["internal/bytealg.CountString"] = func(p *Path, fr *frame, a []Value) Value {
		n := uint64(0)
		for _, b := range p.strBytes(a[0]) {
			if p.branchV(p.equal(types.Typ[types.Uint8], b, a[1])) {
				n++
			}
		}
		return n
	}
	bytesEq := func(p *Path, fr *frame, a []Value) Value {
		return p.strEq(normStr(a[0].([]Value)), normStr(a[1].([]Value)))
	}
	N["bytes.Equal"] = bytesEq
	N["internal/bytealg.Equal"] = bytesEq
	N["internal/bytealg.MakeNoZero"] = func(p *Path, fr *frame, a []Value) Value {
		n := int(a[0].(uint64))
		r := make([]Value, n)
		for i := range r {
			r[i] = uint64(0)
		}
		return r
	}
	// strings.Builder: fields addr, buf
	bld := func(a Value) structure { return (*a.(*Value)).(structure) }
	N["(*strings.Builder).WriteString"] = func(p *Path, fr *frame, a []Value) Value {
		b := bld(a[0])
		bs := p.strBytes(a[1])
		b[1] = append(b[1].([]Value), bs...)
		return tuple{uint64(len(bs)), iface{}}
	}
	N["(*strings.Builder).Write"] = func(p *Path, fr *frame, a []Value) Value {
		b := bld(a[0])
		bs := a[1].([]Value)
		b[1] = append(b[1].([]Value), bs...)
		return tuple{uint64(len(bs)), iface{}}
	}
	N["(*strings.Builder).WriteByte"] = func(p *Path, fr *frame, a []Value) Value {
		b := bld(a[0])
		b[1] = append(b[1].([]Value), a[1])
		return iface{}
	}
	N["(*strings.Builder).WriteRune"] = func(p *Path, fr *frame, a []Value) Value {
		b := bld(a[0])
		switch r := a[1].(type) {
		case uint64:
			s := string(rune(int32(r)))
			for i := 0; i < len(s); i++ {
				b[1] = append(b[1].([]Value), uint64(s[i]))
			}
			return tuple{uint64(len(s)), iface{}}
		case *Term:
			if !p.branch(p.c.Cmp(OULT, r, p.c.Const(32, 0x80))) {
				unsupported("symbolic non-ASCII rune")
			}
			b[1] = append(b[1].([]Value), p.lift(p.c.Extract(r, 7, 0)))
		}
		return tuple{uint64(1), iface{}}
	}
	N["(*strings.Builder).String"] = func(p *Path, fr *frame, a []Value) Value {
		fr.ptr(a[0])
		return normStr(append([]Value(nil), bld(a[0])[1].([]Value)...))
	}
	N["(*strings.Builder).Grow"] = func(p *Path, fr *frame, a []Value) Value { return nil }
	N["(*strings.Builder).Reset"] = func(p *Path, fr *frame, a []Value) Value {
		bld(a[0])[1] = []Value(nil)
		return nil
	}
	N["(*strings.Builder).Len"] = func(p *Path, fr *frame, a []Value) Value {
		return uint64(len(bld(a[0])[1].([]Value)))
	}

	// ---- strconv
	N["strconv.Itoa"] = func(p *Path, fr *frame, a []Value) Value { return p.fmtInt(a[0], 64, true) }
	N["strconv.FormatInt"] = func(p *Path, fr *frame, a []Value) Value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return p.fmtInt(a[0], 64, true)
		}
		return hostWrap(strconv.FormatInt)(p, fr, a)
	}
	N["strconv.FormatUint"] = func(p *Path, fr *frame, a []Value) Value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return p.fmtInt(a[0], 64, false)
		}
		return hostWrap(strconv.FormatUint)(p, fr, a)
	}
	N["strconv.AppendInt"] = func(p *Path, fr *frame, a []Value) Value {
		if b, ok := a[2].(uint64); !ok || b != 10 {
			unsupported("digits of another base")
		}
		buf := a[0].([]Value)
		return append(buf[:len(buf):len(buf)], p.strBytes(p.force(p.fmtInt(a[1], 64, true)))...)
	}
	N["strconv.Quote"] = hostWrap(strconv.Quote)
	N["strconv.FormatFloat"] = hostWrap(strconv.FormatFloat)
	N["strconv.ParseFloat"] = func(p *Path, fr *frame, a []Value) Value {
		t, ok := p.force(a[0]).(string)
		bits, ok2 := a[1].(uint64)
		if !ok || !ok2 {
			return fallThrough{}
		}
		f, err := strconv.ParseFloat(t, int(bits))
		if err != nil {
			return fallThrough{} // to make the error
		}
		return tuple{f, iface{}}
	}

	// ---- sort
	N["sort.Slice"] = func(p *Path, fr *frame, a []Value) Value { p.sortSlice(fr, a); return nil }
	N["sort.SliceStable"] = N["sort.Slice"]
	N["sort.Strings"] = func(p *Path, fr *frame, a []Value) Value {
		s := a[0].([]Value)
		for _, v := range s {
			if _, ok := v.(string); !ok {
				return fallThrough{}
			}
		}
		sort.SliceStable(s, func(i, j int) bool { return s[i].(string) < s[j].(string) })
		return nil
	}

	// ---- sync
	N["(*sync.Once).Do"] = func(p *Path, fr *frame, a []Value) Value {
		k := fr.ptr(a[0])
		if p.natMemo == nil {
			p.natMemo = map[any]Value{}
		}
		if p.natMemo[k] != nil {
			return nil
		}
		p.natMemo[k] = true
		p.call(fr, a[1], nil)
		return nil
	}
	nop := func(p *Path, fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive"} {
		N[n] = nop
	}

	// ---- math
	N["math.Float64bits"] = func(p *Path, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Float64bits(f)
		}
		return a[0]
	}
	N["math.Float64frombits"] = func(p *Path, fr *frame, a []Value) Value {
		if f, ok := a[0].(uint64); ok {
			return math.Float64frombits(f)
		}
		return a[0]
	}
	N["math.Float32bits"] = func(p *Path, fr *frame, a []Value) Value {
		if f, ok := a[0].(float32); ok {
			return uint64(math.Float32bits(f))
		}
		return a[0]
	}
	N["math.Float32frombits"] = func(p *Path, fr *frame, a []Value) Value {
		if f, ok := a[0].(uint64); ok {
			return math.Float32frombits(uint32(f))
		}
		return a[0]
	}
	N["math.Pow10"] = hostWrap(math.Pow10)
	N["math.Abs"] = func(p *Path, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Abs(f)
		}
		return p.lift(p.c.Bin(OBAnd, a[0].(*Term), p.c.Const(64, 1<<63-1)))
	}
	N["math.Pow"] = hostWrap(math.Pow)
	N["math.Floor"] = hostWrap(math.Floor)
	N["math.Log10"] = hostWrap(math.Log10)

	// ---- time zone database is not consulted: Local is UTC
	N["(*time.Location).get"] = func(p *Path, fr *frame, a []Value) Value {
		g := p.global(P.pkgGlobal("time", "utcLoc"))
		return g
	}

	registerReflect(P)
	registerProto(P)
	registerHost(P)
}

func (P *Program) pkgGlobal(pkg, name string) *ssa.Global {
	for _, sp := range P.Prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			return sp.Members[name].(*ssa.Global)
		}
	}
	panic("no global " + pkg + "." + name)
}

func (P *Program) patternNative(fn *ssa.Function) nativeFn {
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	}
	if strings.HasPrefix(path, "github.com/substrait-io/substrait-protobuf") || strings.HasPrefix(path, "google.golang.org/protobuf/types/known") {
		if fn.Name() == "String" && fn.Signature.Recv() != nil {
			rt := fn.Signature.Recv().Type()
			if nt, ok := rt.(*types.Named); ok {
				gname := nt.Obj().Name() + "_name"
				return func(p *Path, fr *frame, a []Value) Value {
					v, ok := a[0].(uint64)
					if !ok {
						t := a[0]
						return &LazyStr{f: func(p *Path) Value { return p.concat([]Value{"ENUM", p.fmtInt(t, 32, true)}) }}
					}
					m := (*p.global(fn.Pkg.Members[gname].(*ssa.Global))).(*Map)
					if e := m.find(p, v); e != nil {
						return e.v
					}
					return fmt.Sprint(int32(v))
				}
			}
			return func(p *Path, fr *frame, a []Value) Value { return "<proto message>" }
		}
	}
	return nil
}

func caseConv(f func(string) string, lo, hi byte, d int) nativeFn {
	return func(p *Path, fr *frame, a []Value) Value {
		s := p.force(a[0])
		if c, ok := s.(string); ok {
			return f(c)
		}
		bs := p.strBytes(s)
		r := make([]Value, len(bs))
		for i, b := range bs {
			t := p.term(b, 8)
			lt := p.c.Cmp(OULT, t, p.c.Const(8, 0x80))
			if !p.branchV(p.lift(lt)) {
				unsupported("case conversion of symbolic non-ASCII")
			}
			in := p.c.And(p.c.Cmp(OULE, p.c.Const(8, uint64(lo)), t), p.c.Cmp(OULE, t, p.c.Const(8, uint64(hi))))
			r[i] = p.lift(p.c.Ite(in, p.c.Bin(OAdd, t, p.c.Const(8, uint64(d))), t))
		}
		return normStr(r)
	}
}

func (p *Path) indexByte(bs []Value, b Value) Value {
	for i, x := range bs {
		if p.branchV(p.equal(types.Typ[types.Uint8], x, b)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (p *Path) sortSlice(fr *frame, a []Value) {
	s, ok := a[0].(iface).v.([]Value)
	if !ok {
		unsupported("sort.Slice of %T", a[0].(iface).v)
	}
	if len(s) > 12 {
		unsupported("sort.Slice of more than 12 elements")
	}
	less := func(i, j int) bool {
		return p.branchV(p.call(fr, a[1], []Value{uint64(i), uint64(j)}))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeV(&s[j], y)
			storeV(&s[j-1], x)
		}
	}
}

func (p *Path) errorsIs(fr *frame, err, target iface) Value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) {
			if p.branchV(p.equal(types.Universe.Lookup("error").Type(), err, target)) {
				return true
			}
		}
		if m := p.findMethod(err.t, "Is"); m != nil {
			if p.branchV(p.call(fr, m, []Value{err.v, target})) {
				return true
			}
		}
		m := p.findMethod(err.t, "Unwrap")
		if m == nil {
			return false
		}
		r := p.call(fr, m, []Value{err.v})
		switch r := r.(type) {
		case iface:
			if r.t == nil {
				return false
			}
			err = r
		case []Value:
			for _, e := range r {
				if p.branchV(p.errorsIs(fr, e.(iface), target)) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func nativeErrorsAs(p *Path, fr *frame, a []Value) Value {
	err := a[0].(iface)
	tgt := a[1].(iface)
	if tgt.t == nil {
		p.raise(fr, "errors: target cannot be nil")
	}
	et := deref(tgt.t)
	cell := tgt.v.(*Value)
	for err.t != nil {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if p.implements(err.t, it) {
				storeV(cell, err)
				return true
			}
		} else if sameType(err.t, et) {
			storeV(cell, err.v)
			return true
		}
		m := p.findMethod(err.t, "Unwrap")
		if m == nil {
			return false
		}
		r := p.call(fr, m, []Value{err.v})
		switch r := r.(type) {
		case iface:
			err = r
		case []Value:
			for _, e := range r {
				if p.branchV(nativeErrorsAs(p, fr, []Value{e, a[1]})) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// deepEqual follows reflect.DeepEqual (pointer cycles bounded by depth).
func (p *Path) deepEqual(t types.Type, x, y Value, depth int) Value {
	if depth > 60 {
		unsupported("deep equality depth")
	}
	switch a := x.(type) {
	case iface:
		b, ok := y.(iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !sameType(a.t, b.t) {
			return false
		}
		return p.deepEqual(a.t, a.v, b.v, depth+1)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return p.deepEqual(deref(t), *a, *b, depth+1)
	case structure:
		b := y.(structure)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range a {
			r = p.and(r, p.deepEqual(st.Field(i).Type(), a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case array:
		b := y.(array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range a {
			r = p.and(r, p.deepEqual(et, a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case []Value:
		b := y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		et := t.Underlying().(*types.Slice).Elem()
		var r Value = true
		for i := range a {
			r = p.and(r, p.deepEqual(et, a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *Map:
		b, _ := y.(*Map)
		if a == b {
			return true
		}
		if a == nil || b == nil || a.n != b.n {
			return false
		}
		var r Value = true
		for _, e := range a.entries {
			f := b.find(p, e.k)
			if f == nil {
				return false
			}
			r = p.and(r, p.deepEqual(a.vt, e.v, f.v, depth+1))
		}
		return r
	case *ssa.Function, *closure, *hostFunc:
		return isNilFunc(x) && isNilFunc(y)
	}
	return p.equal(t, x, y)
}

var _ = big.NewInt
