package engine

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of
//
//	bool | *Term(W==0)            booleans
//	uint64 | *Term(W==width)      integers (masked to their width)
//	float32 | float64 | *Term     floats (terms are IEEE bit patterns)
//	string | *SymStr | *LazyStr   strings
//	*Value                        pointers (nil *Value is the nil pointer)
//	[]Value                       slices
//	structure, array, tuple
//	iface
//	*Map
//	*ssa.Function, *ssa.Builtin, *closure, *hostFunc    functions
//	rtypeV                        *reflect.rtype
//	*nativeBox                    an opaque host object
type Value interface{}

type structure []Value
type array []Value
type tuple []Value

type iface struct {
	t types.Type
	v Value
}

type closure struct {
	fn  *ssa.Function
	env []Value
}

// hostFunc is a function value implemented by the engine.
type hostFunc struct {
	f func(p *Path, fr *frame, args []Value) Value
}

type rtypeV struct{ t types.Type }

// rvalueV models reflect.Value.
type rvalueV struct {
	t    types.Type
	v    Value
	addr *Value
}

type nativeBox struct{ v any }

// SymStr is a string with at least one symbolic byte. Elements are uint64 or *Term of width 8.
type SymStr struct{ b []Value }

// LazyStr is a formatted string computed on demand.
type LazyStr struct {
	f    func(p *Path) Value
	done Value
}

type bad struct{}

// Map is a Go map with insertion order.
type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	kt, vt  types.Type
	entries []*mapEntry
	idx     map[any]*mapEntry // entries with concrete keys
	symKeys int               // live entries with symbolic keys
	n       int
	repo    bool
}

var hasher = typeutil.MakeHasher()

type engineError string

// abort ends the current path.
type abort struct {
	kind string // "assume", "unsupported", "steps", "depth", "done", "infeasible"
	msg  string
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v       Value
	runtime bool
	msg     string
	site    string
	stack   []string
}

func unsupported(format string, a ...any) {
	panic(abort{"unsupported", fmt.Sprintf(format, a...)})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func intInfo(t types.Type) (w uint16, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return false
		case types.String, types.UntypedString:
			return ""
		case types.Float32:
			return float32(0)
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return nil
		}
		return uint64(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*nativeBox)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic("zero of type parameter " + t.String())
	}
	panic(fmt.Sprintf("zero: %T", t))
}

// loadV copies the value at addr.
func loadV(addr *Value) Value { return copyVal(*addr) }

func copyVal(v Value) Value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i := range v {
			switch x := v[i].(type) {
			case structure, array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			switch x := v[i].(type) {
			case structure, array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

// storeV assigns v to *addr, keeping the identity of nested cells.
func storeV(addr *Value, v Value) {
	switch v := v.(type) {
	case structure:
		lhs, ok := (*addr).(structure)
		if !ok || len(lhs) != len(v) {
			*addr = copyVal(v)
			return
		}
		for i := range v {
			storeV(&lhs[i], v[i])
		}
	case array:
		lhs, ok := (*addr).(array)
		if !ok || len(lhs) != len(v) {
			*addr = copyVal(v)
			return
		}
		for i := range v {
			storeV(&lhs[i], v[i])
		}
	default:
		*addr = v
	}
}

func isNilFunc(v Value) bool {
	f, ok := v.(*ssa.Function)
	return v == nil || ok && f == nil
}

// canonKey returns a Go-comparable key for a fully concrete map key.
func canonKey(t types.Type, v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, float32, float64, string, *Value, *nativeBox:
		return v, true
	case rtypeV:
		return "rtype:" + types.TypeString(v.t, nil), true
	case iface:
		if v.t == nil {
			return iface{}, true
		}
		k, ok := canonKey(v.t, v.v)
		if !ok {
			return nil, false
		}
		return [2]any{types.TypeString(v.t, nil), k}, true
	case structure:
		st := t.Underlying().(*types.Struct)
		return compositeKey(len(v), func(i int) (types.Type, Value) { return st.Field(i).Type(), v[i] })
	case array:
		at := t.Underlying().(*types.Array)
		return compositeKey(len(v), func(i int) (types.Type, Value) { return at.Elem(), v[i] })
	}
	return nil, false
}

func compositeKey(n int, f func(int) (types.Type, Value)) (any, bool) {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		t, v := f(i)
		k, ok := canonKey(t, v)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, quoteKey(k))
	}
	return "composite:" + sb.String(), true
}

func quoteKey(k any) any {
	switch x := k.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case *Value:
		return fmt.Sprintf("%p", x)
	case *nativeBox:
		return fmt.Sprintf("%p", x)
	}
	return k
}

func newMap(t types.Type) *Map {
	m := t.Underlying().(*types.Map)
	return &Map{kt: m.Key(), vt: m.Elem(), idx: map[any]*mapEntry{}}
}

func (m *Map) find(p *Path, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	k = p.forceDeep(k)
	ck, ok := canonKey(m.kt, k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if ok {
			if _, ek := canonKey(m.kt, e.k); ek {
				continue
			}
		}
		if p.branchV(p.equal(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Map) set(p *Path, k, v Value) {
	k = p.forceDeep(k)
	if e := m.find(p, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.n++
	if ck, ok := canonKey(m.kt, k); ok {
		m.idx[ck] = e
	} else {
		m.symKeys++
	}
}

func (m *Map) del(p *Path, k Value) {
	if m == nil {
		return
	}
	e := m.find(p, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if ck, ok := canonKey(m.kt, e.k); ok {
		delete(m.idx, ck)
	} else {
		m.symKeys--
	}
	for i, x := range m.entries {
		if x == e {
			m.entries = append(append([]*mapEntry(nil), m.entries[:i]...), m.entries[i+1:]...)
			break
		}
	}
}

// mapIter iterates over a snapshot of a map's entries.
type mapIter struct {
	m     *Map
	left  []*mapEntry
	perms bool
}

func (it *mapIter) next(p *Path) tuple {
	for len(it.left) > 0 {
		i := 0
		if it.perms && len(it.left) > 1 {
			n := len(it.left)
			if n <= 3 {
				i = p.choose("maporder", n)
			} else if n > 3 {
				// first or last remaining entry
				i = p.choose("maporder", 2) * (n - 1)
			}
		}
		e := it.left[i]
		it.left = append(append([]*mapEntry(nil), it.left[:i]...), it.left[i+1:]...)
		if e.deleted {
			continue
		}
		return tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	return tuple{false, nil, nil}
}

type strIter struct {
	s   Value
	pos int
}
