package engine

import (
	"bytes"
	"errors"
	"fmt"
	"go/types"
	"io"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"unsafe"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	ext "github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
)

// importer converts host (natively computed) object graphs to interpreter values.
type importer struct {
	p    *Path
	memo map[unsafe.Pointer]map[reflect.Type]*Value
	// subst replaces the strings "@0", "@1", ... (template readers)
	subst []Value
}

func (P *Program) typeOf(rt reflect.Type) types.Type {
	if rt == nil {
		return nil
	}
	if c, ok := hostTypes.Load(rt); ok {
		return c.(types.Type)
	}
	t := P.typeOf1(rt)
	hostTypes.Store(rt, t)
	return t
}

func (P *Program) typeOf1(rt reflect.Type) types.Type {
	if rt.Name() != "" {
		if rt.PkgPath() == "" {
			if rt.Name() == "error" {
				return types.Universe.Lookup("error").Type()
			}
			if rt.Name() == "any" {
				return types.Universe.Lookup("any").Type()
			}
			o := types.Universe.Lookup(rt.Name())
			if o == nil {
				unsupported("host type %s", rt)
			}
			return o.Type()
		}
		name := rt.Name()
		base, rest, generic := strings.Cut(name, "[")
		pkg := P.typesByName[rt.PkgPath()]
		if pkg == nil {
			unsupported("host type %s from package %s", rt, rt.PkgPath())
		}
		o := pkg.Scope().Lookup(base)
		if o == nil {
			unsupported("host type %s", rt)
		}
		if !generic {
			return o.Type()
		}
		var targs []types.Type
		for _, s := range splitTypeArgs(strings.TrimSuffix(rest, "]")) {
			targs = append(targs, P.parseTypeName(s))
		}
		t, err := types.Instantiate(nil, o.Type(), targs, false)
		if err != nil {
			unsupported("instantiate %s: %v", rt, err)
		}
		return t
	}
	switch rt.Kind() {
	case reflect.Pointer:
		return types.NewPointer(P.typeOf(rt.Elem()))
	case reflect.Slice:
		return types.NewSlice(P.typeOf(rt.Elem()))
	case reflect.Array:
		return types.NewArray(P.typeOf(rt.Elem()), int64(rt.Len()))
	case reflect.Map:
		return types.NewMap(P.typeOf(rt.Key()), P.typeOf(rt.Elem()))
	case reflect.Interface:
		if rt.NumMethod() == 0 {
			return types.Universe.Lookup("any").Type()
		}
	}
	unsupported("host type %s", rt)
	return nil
}

func splitTypeArgs(s string) []string {
	var r []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[':
			d++
		case ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, s[st:i])
				st = i + 1
			}
		}
	}
	return append(r, s[st:])
}

func (P *Program) parseTypeName(s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(P.parseTypeName(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(P.parseTypeName(s[2:]))
	}
	if i := strings.LastIndex(s, "."); i >= 0 && !strings.Contains(s, "[") {
		pkg := P.typesByName[s[:i]]
		if pkg != nil {
			if o := pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	} else if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	unsupported("type name %s", s)
	return nil
}

func (p *Path) importer() *importer {
	if v, ok := p.natMemo["importer"]; ok {
		return v.(*nativeBox).v.(*importer)
	}
	im := &importer{p: p, memo: map[unsafe.Pointer]map[reflect.Type]*Value{}}
	if p.natMemo == nil {
		p.natMemo = map[any]Value{}
	}
	p.natMemo["importer"] = &nativeBox{im}
	return im
}

// importValue converts rv; the memo keeps aliasing within one path.
func (p *Path) importValue(rv reflect.Value, memo any) Value {
	im := &importer{p: p, memo: map[unsafe.Pointer]map[reflect.Type]*Value{}}
	return im.val(rv)
}

func readable(rv reflect.Value) reflect.Value {
	if rv.CanInterface() || !rv.CanAddr() {
		return rv
	}
	return reflect.NewAt(rv.Type(), unsafe.Pointer(rv.UnsafeAddr())).Elem()
}

func (im *importer) val(rv reflect.Value) Value {
	p := im.p
	if rv.Kind() == reflect.String && im.subst != nil {
		if s := rv.String(); len(s) == 2 && s[0] == '@' && int(s[1]-'0') < len(im.subst) {
			return im.subst[s[1]-'0']
		}
	}
	switch rv.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.String:
		return p.fromHost(rv)
	case reflect.Pointer:
		if rv.IsNil() {
			return (*Value)(nil)
		}
		if rx, ok := readable(rv).Interface().(*regexp.Regexp); ok && rv.CanInterface() {
			var v Value = &nativeBox{rx}
			return &v
		}
		ptr := rv.UnsafePointer()
		if m := im.memo[ptr]; m != nil {
			if c := m[rv.Type()]; c != nil {
				return c
			}
		}
		cell := new(Value)
		if im.memo[ptr] == nil {
			im.memo[ptr] = map[reflect.Type]*Value{}
		}
		im.memo[ptr][rv.Type()] = cell
		*cell = im.val(rv.Elem())
		return cell
	case reflect.Struct:
		s := make(structure, rv.NumField())
		if !rv.CanAddr() {
			c := reflect.New(rv.Type()).Elem()
			c.Set(rv)
			rv = c
		}
		for i := range s {
			s[i] = im.val(readable(rv.Field(i)))
		}
		return s
	case reflect.Array:
		a := make(array, rv.Len())
		for i := range a {
			a[i] = im.val(rv.Index(i))
		}
		return a
	case reflect.Slice:
		if rv.IsNil() {
			return []Value(nil)
		}
		a := make([]Value, rv.Len(), rv.Cap())
		for i := range a {
			a[i] = im.val(readable(rv.Index(i)))
		}
		if rv.Cap() > rv.Len() {
			et := p.x.P.typeOf(rv.Type().Elem())
			full := a[:cap(a)]
			for i := len(a); i < cap(a); i++ {
				full[i] = zero(et)
			}
		}
		return a
	case reflect.Map:
		t := p.x.P.typeOf(rv.Type())
		if rv.IsNil() {
			return (*Map)(nil)
		}
		m := newMap(t)
		type kv struct {
			s    string
			k, v reflect.Value
		}
		var kvs []kv
		it := rv.MapRange()
		for it.Next() {
			kvs = append(kvs, kv{fmt.Sprint(it.Key()), it.Key(), it.Value()})
		}
		sortKV(len(kvs), func(i, j int) bool { return kvs[i].s < kvs[j].s }, func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
		for _, e := range kvs {
			m.set(p, im.val(e.k), im.val(e.v))
		}
		return m
	case reflect.Interface:
		if rv.IsNil() {
			return iface{}
		}
		e := rv.Elem()
		return iface{p.x.P.typeOf(e.Type()), im.val(e)}
	case reflect.Func:
		if rv.IsNil() {
			return zero(types.NewSignatureType(nil, nil, nil, nil, nil, false))
		}
		name := runtime.FuncForPC(rv.Pointer()).Name()
		if i := strings.LastIndex(name, "."); i > 0 {
			if f := p.x.P.Func(name[:i], name[i+1:]); f != nil {
				return f
			}
		}
		return &hostFunc{f: func(p *Path, fr *frame, args []Value) Value {
			unsupported("host closure %s", name)
			return nil
		}}
	case reflect.Chan, reflect.UnsafePointer:
		return (*nativeBox)(nil)
	}
	unsupported("import of %s", rv.Type())
	return nil
}

func sortKV(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

func (p *Path) importErr(err error) Value {
	if err == nil {
		return iface{}
	}
	return ifaceErr(p, err.Error())
}

// hostTypeByName finds a host type among those reachable from the roots.
var hostByName = sync.OnceValue(func() map[string]reflect.Type {
	m := map[string]reflect.Type{}
	var walk func(t reflect.Type)
	seen := map[reflect.Type]bool{}
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Name() != "" && t.PkgPath() != "" {
			m[t.PkgPath()+"."+t.Name()] = t
		}
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array:
			walk(t.Elem())
		case reflect.Map:
			walk(t.Key())
			walk(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		}
	}
	walk(reflect.TypeOf(extensions.SimpleExtensionFile{}))
	if d, err := functions.LoadDialect("x", strings.NewReader("name: x\ntype: sql\ndependencies: {a: b}\nsupported_types:\n  i32: {sql_type_name: I}\nscalar_functions:\n- {name: a.f, supported_kernels: [i32]}\n")); err == nil {
		walk(reflect.TypeOf(d))
	} else if d, err := functions.LoadDialect("x", strings.NewReader("name: x\ntype: sql\ndependencies: {}\nsupported_types: {}\n")); err == nil {
		walk(reflect.TypeOf(d))
	}
	return m
})

func hostTypeByName(n string) reflect.Type { return hostByName()[n] }

var hostTypes sync.Map

const repo = "github.com/substrait-io/substrait-go/v8"

func registerHost(P *Program) {
	N := P.Natives
	// The published extension collection and dialect YAML are parsed natively from the
	// current source tree; the resulting object graph is imported.
	N[repo+"/extensions.GetDefaultCollection"] = func(p *Path, fr *frame, a []Value) Value {
		c, err := extensions.GetDefaultCollection()
		return tuple{p.importValue(reflect.ValueOf(c), nil), p.importErr(err)}
	}
	N[repo+"/extensions.GetDefaultCollectionWithNoError"] = func(p *Path, fr *frame, a []Value) Value {
		c := extensions.GetDefaultCollectionWithNoError()
		return p.importValue(reflect.ValueOf(c), nil)
	}
	N["github.com/goccy/go-yaml.NewDecoder"] = func(p *Path, fr *frame, a []Value) Value {
		var v Value = structure{a[0]}
		return &v
	}
	N["(*github.com/goccy/go-yaml.Decoder).Decode"] = func(p *Path, fr *frame, a []Value) Value {
		rd := (*a[0].(*Value)).(structure)[0].(iface)
		var text string
		var subst []Value
		if m := p.findMethod(rd.t, "Template"); m != nil {
			// harness readers give the text with placeholders and the (symbolic)
			// strings that stand for them
			t := p.call(fr, m, []Value{rd.v}).(tuple)
			text, subst = argStr(p, t[0]), t[1].([]Value)
		} else {
			text = p.readAll(fr, rd)
		}
		dst := a[1].(iface)
		cell := dst.v.(*Value)
		rt := hostTypeByName(types.TypeString(deref(dst.t), nil))
		if rt == nil {
			unsupported("yaml decode into %s", dst.t)
		}
		target := reflect.New(rt).Interface()
		err := yaml.NewDecoder(bytes.NewReader([]byte(text))).Decode(target)
		if err != nil {
			if errors.Is(err, io.EOF) {
				return *p.global(P.pkgGlobal("io", "EOF"))
			}
			return p.importErr(err)
		}
		im := &importer{p: p, memo: map[unsafe.Pointer]map[reflect.Type]*Value{}, subst: subst}
		storeV(cell, im.val(reflect.ValueOf(target).Elem()))
		return iface{}
	}
	N["github.com/creasty/defaults.Set"] = func(p *Path, fr *frame, a []Value) Value {
		dst := a[0].(iface)
		p.setDefaults(deref(dst.t), dst.v.(*Value), "")
		return iface{}
	}
	parse := func(p *Path, fr *frame, a []Value) Value {
		s, ok := p.force(a[len(a)-1]).(string)
		if !ok || p.parsing {
			return fallThrough{}
		}
		t, err := parseType(s)
		if err != nil {
			return tuple{iface{}, p.importErr(err)}
		}
		return tuple{p.importValue(reflect.ValueOf(&t).Elem(), nil), iface{}}
	}
	N[repo+"/types/parser.ParseType"] = parse
	// regexp
	N["regexp.MustCompile"] = func(p *Path, fr *frame, a []Value) Value {
		var v Value = &nativeBox{regexp.MustCompile(argStr(p, a[0]))}
		return &v
	}
	registerRegexp(P)
	registerBig(P)
	registerTrees(P)
}

func (p *Path) readAll(fr *frame, rd iface) string {
	m := p.findMethod(rd.t, "Read")
	if m == nil {
		unsupported("reader %s", rd.t)
	}
	var out []byte
	for {
		buf := make([]Value, 4096)
		for i := range buf {
			buf[i] = uint64(0)
		}
		r := p.call(fr, m, []Value{rd.v, buf}).(tuple)
		n := int(r[0].(uint64))
		for _, b := range buf[:n] {
			c, ok := b.(uint64)
			if !ok {
				unsupported("reading symbolic text")
			}
			out = append(out, byte(c))
		}
		if r[1].(iface).t != nil || n == 0 {
			return string(out)
		}
	}
}

// setDefaults models github.com/creasty/defaults.Set for the string, bool and
// integer defaults of exported fields.
func (p *Path) setDefaults(t types.Type, cell *Value, tag string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := (*cell).(structure)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			d := reflect.StructTag(u.Tag(i)).Get("default")
			if f.Exported() && d != "-" {
				p.setDefaults(f.Type(), &s[i], d)
			}
		}
	case *types.Pointer:
		ptr, ok := (*cell).(*Value)
		if !ok || ptr == nil {
			if tag != "" {
				unsupported("default for a nil pointer")
			}
			return
		}
		p.setDefaults(u.Elem(), ptr, tag)
	case *types.Slice:
		l, _ := (*cell).([]Value)
		for i := range l {
			p.setDefaults(u.Elem(), &l[i], "")
		}
		if len(l) == 0 && tag != "" {
			unsupported("default for a slice")
		}
	case *types.Map:
		// map values of this code base carry no defaults
		if tag != "" {
			unsupported("default for a map")
		}
	case *types.Basic:
		if tag == "" {
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			*cell = p.force(*cell)
			if s, ok := (*cell).(string); ok && s == "" {
				*cell = tag
			}
		default:
			unsupported("default of %s", t)
		}
	}
}

var parsed struct {
	sync.Mutex
	m map[string]parseResult
}

type parseResult struct {
	t   ext.FuncDefArgType
	err error
}

// parseType runs the real parser, once for each string, without what it prints.
func parseType(s string) (ext.FuncDefArgType, error) {
	parsed.Lock()
	defer parsed.Unlock()
	r, ok := parsed.m[s]
	if !ok {
		if parsed.m == nil {
			parsed.m = map[string]parseResult{}
		}
		out, err := os.Stdout, os.Stderr
		// the lexer prints what it fails on
		if null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil {
			os.Stdout, os.Stderr = null, null
			defer null.Close()
		}
		defer func() { os.Stdout, os.Stderr = out, err }()
		r.t, r.err = parser.ParseType(s)
		parsed.m[s] = r
	}
	return r.t, r.err
}
