package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
	tail *deferred
}

type frame struct {
	p         *Path
	caller    *frame
	fc        *fnc
	regs      []Value
	locals    []Value
	block     *cblk
	prev      *cblk
	prevB     *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panic     *targetPanic
	curIn     ssa.Instruction
	done      bool
}

func (fr *frame) site() string {
	if fr == nil {
		return ""
	}
	for f := fr; f != nil; f = f.caller {
		if f.curIn != nil && f.curIn.Pos() != token.NoPos {
			pos := f.p.x.P.Fset.Position(f.curIn.Pos())
			return fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
		}
	}
	return fr.fc.name
}

func (fr *frame) stackNames() []string {
	var r []string
	for f := fr; f != nil && len(r) < 40; f = f.caller {
		n := f.fc.name
		if f.curIn != nil && f.curIn.Pos() != token.NoPos {
			pos := f.p.x.P.Fset.Position(f.curIn.Pos())
			fn := pos.Filename
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			n += fmt.Sprintf(" (%s:%d)", fn, pos.Line)
		}
		r = append(r, n)
	}
	return r
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case kReg:
		return fr.regs[o.reg]
	case kConst:
		return o.val
	case kGlobal:
		return fr.p.global(o.g)
	case kZero:
		return zero(o.t)
	}
	return nil
}

func (p *Path) global(g *ssa.Global) *Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	pkg := g.Pkg
	// storage for the whole package
	for _, m := range pkg.Members {
		if gv, ok := m.(*ssa.Global); ok {
			cell := zero(deref(gv.Type()))
			p.globals[gv] = &cell
		}
	}
	p.initPackage(pkg)
	return p.globals[g]
}

// initPackage runs the variable initialisers of pkg once per path.
func (p *Path) initPackage(pkg *ssa.Package) {
	if p.initDone[pkg] {
		return
	}
	p.initDone[pkg] = true
	path := pkg.Pkg.Path()
	if skipInit[path] {
		return
	}
	if path == "unsafe" || path == "runtime" || strings.HasPrefix(path, "internal/") || path == "reflect" || path == "sync" || path == "os" || path == "syscall" {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	p.initing++
	p.call(nil, init, nil)
	p.initing--
}

var skipInit = map[string]bool{}

func (p *Path) call(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			p.raise(fr, "invalid memory address or nil pointer dereference")
		}
		return p.callSSA(fr, f, args, nil)
	case *closure:
		return p.callSSA(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(fr, f, args)
	case *hostFunc:
		return f.f(p, fr, args)
	case nil:
		p.raise(fr, "invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("cannot call %T", fn))
}

func (p *Path) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	// package initialisers: dependencies are initialised lazily
	if fn.Synthetic == "package initializer" || (fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil) {
		if caller != nil && fn.Pkg != nil && caller.fc.fn.Pkg != fn.Pkg {
			return nil
		}
	}
	if caller != nil && p.initing > 0 && strings.HasPrefix(fn.Name(), "init#") && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/substrait-io/substrait-protobuf") {
		return nil
	}
	fc := p.x.P.code(fn)
	if !p.w.funcs[fc] {
		p.w.funcs[fc] = true
	}
	if fc.tree {
		if n := nodeOf(args[0]); n != nil {
			return n.invoke(p, fn.Name(), args[1:])
		}
	}
	if fc.native != nil {
		fr := &frame{p: p, caller: caller, fc: fc}
		r := fc.native(p, fr, args)
		if _, ok := r.(fallThrough); !ok {
			return r
		}
	}
	if fc.noBody {
		unsupported("no body: %s", fc.name)
	}
	p.depth++
	if p.depth > p.x.Opt.MaxDepth {
		p.depth = 0
		panic(abort{"depth", "call depth exceeded in " + fc.name})
	}
	fr := &frame{p: p, caller: caller, fc: fc}
	fr.regs = make([]Value, fc.nregs)
	if len(fc.locals) > 0 {
		fr.locals = make([]Value, len(fc.locals))
		for i, r := range fc.locals {
			fr.locals[i] = zero(fc.localT[i])
			fr.regs[r] = &fr.locals[i]
		}
	}
	for i, r := range fc.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fc.free {
		fr.regs[r] = env[i]
	}
	fr.block = fc.blocks[0]
	if !fc.hasDefer {
		fr.run()
	} else {
		for !fr.done {
			fr.runGuarded()
		}
	}
	p.depth--
	p.curFrame = caller
	return fr.result
}

func (fr *frame) runGuarded() {
	depth := fr.p.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r) // engine control flow is never recovered by the program
		}
		fr.p.depth = depth
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		// recovered
		if rb := fr.fc.fn.Recover; rb != nil {
			fr.block = fr.fc.blocks[rb.Index]
			fr.prevB = nil
		} else {
			fr.result = zero(fr.fc.fn.Signature.Results())
			fr.done = true
		}
	}()
	fr.run()
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.p.depth
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			fr.p.depth = depth
			fr.panicking = true
			fr.panic = tp
		}
	}()
	fr.p.call(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) run() {
	p := fr.p
	for {
		b := fr.block
		if len(b.phis) > 0 {
			pi := -1
			for i, pb := range b.preds {
				if pb == fr.prevB {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].edges[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		p.steps += len(b.ins)
		if p.steps > p.x.Opt.MaxSteps {
			panic(abort{"steps", "step limit exceeded in " + fr.fc.name})
		}
		p.curFrame = fr
		var next *cblk
		for i := range b.ins {
			c := &b.ins[i]
			fr.curIn = c.in
			switch in := c.in.(type) {
			case *ssa.If:
				k := 1
				cv := fr.get(&c.o[0])
				if bv, ok := cv.(bool); ok {
					if bv {
						k = 0
					}
				} else if p.branch(cv.(*Term)) {
					k = 0
				}
				next = fr.fc.blocks[b.succs[k]]
			case *ssa.Jump:
				next = fr.fc.blocks[b.succs[0]]
			case *ssa.Return:
				switch len(c.o) {
				case 0:
				case 1:
					fr.result = fr.get(&c.o[0])
				default:
					t := make(tuple, len(c.o))
					for j := range c.o {
						t[j] = fr.get(&c.o[j])
					}
					fr.result = t
				}
				fr.done = true
				return
			case *ssa.Panic:
				v := fr.get(&c.o[0])
				tp := &targetPanic{v: v, site: fr.site(), stack: fr.stackNames()}
				panic(tp)
			default:
				fr.exec(c, in)
			}
		}
		fr.prev = b
		fr.prevB = fr.fc.fn.Blocks[b.idx]
		fr.block = next
	}
}

func (fr *frame) ptr(v Value) *Value {
	a, ok := v.(*Value)
	if !ok {
		if v == nil {
			fr.p.raise(fr, "invalid memory address or nil pointer dereference")
		}
		unsupported("pointer operation on %T", v)
	}
	if a == nil {
		fr.p.raise(fr, "invalid memory address or nil pointer dereference")
	}
	return a
}

// index resolves an index value against length n, forking over feasible values.
func (fr *frame) index(v Value, t types.Type, n int) int {
	p := fr.p
	w, signed, _ := intInfo(t)
	switch v := v.(type) {
	case uint64:
		var i int64
		if signed {
			i = sext(w, v)
		} else {
			i = int64(v)
			if i < 0 {
				i = int64(^uint64(0) >> 1)
			}
		}
		if i < 0 || i >= int64(n) {
			p.raise(fr, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		for i := 0; i < n; i++ {
			if w < 64 && uint64(i) > mask(w, ^uint64(0)) {
				break
			}
			if p.branch(p.c.Eq(v, p.c.Const(w, uint64(i)))) {
				return i
			}
		}
		p.raise(fr, fmt.Sprintf("index out of range with length %d", n))
	}
	panic(fmt.Sprintf("index %T", v))
}

// concInt turns an int-typed value into a concrete number, forking over feasible values in [lo,hi].
func (p *Path) concInt(v Value, w uint16, signed bool, lo, hi int64, what string) (int64, bool) {
	switch v := v.(type) {
	case uint64:
		if signed {
			return sext(w, v), true
		}
		return int64(v), true
	case *Term:
		for i := lo; i <= hi; i++ {
			if p.branch(p.c.Eq(v, p.c.Const(w, uint64(i)))) {
				return i, true
			}
		}
		return 0, false
	}
	panic("concInt")
}

func (fr *frame) exec(c *cins, in ssa.Instruction) {
	p := fr.p
	switch in := in.(type) {
	case *ssa.UnOp:
		fr.regs[c.dst] = fr.unop(in, fr.get(&c.o[0]))
	case *ssa.BinOp:
		fr.regs[c.dst] = fr.binop(in.Op, c.aux.(*binAux), fr.get(&c.o[0]), fr.get(&c.o[1]))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call, c.o)
		fr.regs[c.dst] = p.call(fr, fn, args)
		p.curFrame = fr
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[c.dst] = fr.get(&c.o[0])
	case *ssa.Convert:
		fr.regs[c.dst] = fr.conv(in.Type(), in.X.Type(), fr.get(&c.o[0]))
	case *ssa.MultiConvert:
		fr.regs[c.dst] = fr.conv(in.Type(), in.X.Type(), fr.get(&c.o[0]))
	case *ssa.SliceToArrayPointer:
		x := fr.get(&c.o[0]).([]Value)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(x) < n {
			p.raise(fr, "cannot convert slice to array pointer: length mismatch")
		}
		if x == nil {
			fr.regs[c.dst] = (*Value)(nil)
			break
		}
		v := Value(array(x[:n:n]))
		fr.regs[c.dst] = &v
	case *ssa.MakeInterface:
		fr.regs[c.dst] = iface{in.X.Type(), fr.get(&c.o[0])}
	case *ssa.Extract:
		fr.regs[c.dst] = fr.get(&c.o[0]).(tuple)[in.Index]
	case *ssa.Slice:
		fr.regs[c.dst] = fr.slice(in, fr.get(&c.o[0]), fr.get(&c.o[1]), fr.get(&c.o[2]), fr.get(&c.o[3]))
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Store:
		storeV(fr.ptr(fr.get(&c.o[0])), fr.get(&c.o[1]))
	case *ssa.Defer:
		n := len(c.o) - 1
		fn, args := fr.prepareCall(&in.Call, c.o[:n])
		defers := &fr.defers
		if into := fr.get(&c.o[n]); into != nil {
			defers = into.(**deferred)
		}
		*defers = &deferred{fn: fn, args: args, in: in, tail: *defers}
	case *ssa.Go:
		unsupported("go statement")
	case *ssa.MakeChan:
		unsupported("make chan")
	case *ssa.Send, *ssa.Select:
		unsupported("channel operation")
	case *ssa.Alloc:
		if in.Heap {
			cell := zero(deref(in.Type()))
			fr.regs[c.dst] = &cell
		} else {
			addr := fr.regs[c.dst].(*Value)
			*addr = zero(deref(in.Type()))
		}
	case *ssa.MakeSlice:
		w, sg, _ := intInfo(in.Len.Type())
		n, ok := p.concInt(fr.get(&c.o[0]), w, sg, 0, 64, "len")
		w2, sg2, _ := intInfo(in.Cap.Type())
		cp, ok2 := p.concInt(fr.get(&c.o[1]), w2, sg2, 0, 64, "cap")
		if !ok || !ok2 {
			unsupported("make with large symbolic size")
		}
		if n < 0 || n > 1<<40 {
			p.raise(fr, "makeslice: len out of range")
		}
		if cp < n {
			p.raise(fr, "makeslice: cap out of range")
		}
		if cp > 1<<22 {
			unsupported("make of %d elements", cp)
		}
		s := make([]Value, cp)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = zero(et)
		}
		fr.regs[c.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[c.dst] = newMap(in.Type())
	case *ssa.Range:
		x := fr.get(&c.o[0])
		switch x := x.(type) {
		case *Map:
			it := &mapIter{m: x}
			if x != nil {
				it.left = append([]*mapEntry(nil), x.entries...)
				if p.mapOrder && len(it.left) > 1 && fr.fc.fn.Pkg != nil && strings.HasPrefix(fr.fc.fn.Pkg.Pkg.Path(), p.x.P.RepoPrefix) {
					it.perms = true
				}
			}
			fr.regs[c.dst] = it
		default:
			fr.regs[c.dst] = &strIter{s: p.force(x)}
		}
	case *ssa.Next:
		switch it := fr.get(&c.o[0]).(type) {
		case *mapIter:
			fr.regs[c.dst] = it.next(p)
		case *strIter:
			fr.regs[c.dst] = fr.strNext(it)
		}
	case *ssa.FieldAddr:
		a := fr.ptr(fr.get(&c.o[0]))
		st, ok := (*a).(structure)
		if !ok {
			if parserOf(a) != nil || nodeOf(a) != nil {
				fr.regs[c.dst] = parserField(a, deref(in.Type()))
				return
			}
			unsupported("field of %T", *a)
		}
		fr.regs[c.dst] = &st[in.Field]
	case *ssa.Field:
		x := fr.get(&c.o[0])
		st, ok := x.(structure)
		if !ok {
			unsupported("field of %T", x)
		}
		fr.regs[c.dst] = st[in.Field]
	case *ssa.IndexAddr:
		x := fr.get(&c.o[0])
		switch x := x.(type) {
		case []Value:
			fr.regs[c.dst] = &x[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(x))]
		case *Value:
			a, ok := (*fr.ptr(x)).(array)
			if !ok {
				unsupported("index of %T", *x)
			}
			fr.regs[c.dst] = &a[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(a))]
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Index:
		switch x := p.force(fr.get(&c.o[0])).(type) {
		case array:
			fr.regs[c.dst] = x[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(x))]
		case string:
			fr.regs[c.dst] = uint64(x[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(x))])
		case *SymStr:
			fr.regs[c.dst] = x.b[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(x.b))]
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		x := p.force(fr.get(&c.o[0]))
		switch x := x.(type) {
		case string:
			fr.regs[c.dst] = uint64(x[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(x))])
		case *SymStr:
			fr.regs[c.dst] = x.b[fr.index(fr.get(&c.o[1]), in.Index.Type(), len(x.b))]
		case *Map:
			e := x.find(p, fr.get(&c.o[1]))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[c.dst] = tuple{v, e != nil}
			} else {
				fr.regs[c.dst] = v
			}
		}
	case *ssa.MapUpdate:
		m := fr.get(&c.o[0]).(*Map)
		if m == nil {
			panic(&targetPanic{v: p.plainError("assignment to entry in nil map"), runtime: true, msg: "assignment to entry in nil map", site: fr.site(), stack: fr.stackNames()})
		}
		m.set(p, fr.get(&c.o[1]), fr.get(&c.o[2]))
	case *ssa.TypeAssert:
		fr.regs[c.dst] = fr.typeAssert(in, fr.get(&c.o[0]).(iface))
	case *ssa.MakeClosure:
		b := make([]Value, len(in.Bindings))
		for i := range in.Bindings {
			b[i] = fr.get(&c.o[i+1])
		}
		fr.regs[c.dst] = &closure{in.Fn.(*ssa.Function), b}
	default:
		unsupported("instruction %T", in)
	}
}

func (p *Path) plainError(msg string) Value { return iface{p.x.P.runtimeErrorType, msg} }

func (fr *frame) prepareCall(call *ssa.CallCommon, o []opnd) (Value, []Value) {
	v := fr.get(&o[0])
	if call.Method == nil {
		args := make([]Value, len(o)-1)
		for i := range args {
			args[i] = fr.get(&o[i+1])
		}
		return v, args
	}
	recv, ok := v.(iface)
	if !ok {
		unsupported("invoke on %T", v)
	}
	if recv.t == nil {
		fr.p.raise(fr, "invalid memory address or nil pointer dereference")
	}
	f := fr.p.lookupMethod(recv.t, call.Method)
	args := make([]Value, len(o))
	args[0] = recv.v
	for i := 1; i < len(o); i++ {
		args[i] = fr.get(&o[i])
	}
	return f, args
}

func (p *Path) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f, ok := p.w.methods[k]; ok {
		return f
	}
	f := p.x.P.Prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(fmt.Sprintf("no method %s in %s", m, t))
	}
	p.w.methods[k] = f
	return f
}

// findMethod finds a method by name on a dynamic type (nil when absent).
func (p *Path) findMethod(t types.Type, name string) *ssa.Function {
	ms := p.x.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name && s.Obj().Exported() {
			return p.x.P.Prog.MethodValue(s)
		}
	}
	return nil
}

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := p.w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	p.w.impl[k] = r
	return r
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return types.Identical(a, b)
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x iface) Value {
	p := fr.p
	var v Value
	ok := false
	if it, is := in.AssertedType.Underlying().(*types.Interface); is {
		if x.t != nil && p.implements(x.t, it) {
			v, ok = x, true
		} else {
			v = iface{}
		}
	} else {
		if x.t != nil && sameType(x.t, in.AssertedType) {
			v, ok = copyVal(x.v), true
		} else if !in.CommaOk {
			v = nil
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return tuple{v, ok}
	}
	if !ok {
		xt := "nil"
		if x.t != nil {
			xt = x.t.String()
		}
		msg := fmt.Sprintf("interface conversion: interface is %s, not %s", xt, in.AssertedType)
		panic(&targetPanic{v: iface{p.x.P.runtimeErrorType, msg}, runtime: true, msg: "interface conversion", site: fr.site(), stack: fr.stackNames()})
	}
	return v
}

func (fr *frame) slice(in *ssa.Slice, x, lo, hi, max Value) Value {
	p := fr.p
	x = p.force(x)
	var length, capacity int
	switch x := x.(type) {
	case string:
		length, capacity = len(x), len(x)
	case *SymStr:
		length, capacity = len(x.b), len(x.b)
	case []Value:
		length, capacity = len(x), cap(x)
	case *Value:
		a := (*fr.ptr(x)).(array)
		length, capacity = len(a), len(a)
	default:
		unsupported("slice of %T", x)
	}
	isStr := false
	switch x.(type) {
	case string, *SymStr:
		isStr = true
	}
	res := func(v Value, op ssa.Value, def int, upper int) int {
		if v == nil {
			return def
		}
		w, sg, _ := intInfo(op.Type())
		n, ok := p.concInt(v, w, sg, 0, int64(upper), "slice bound")
		if !ok || n < 0 || n > int64(upper) {
			p.raise(fr, "slice bounds out of range")
		}
		return int(n)
	}
	m := res(max, in.Max, capacity, capacity)
	up := m
	if isStr {
		up = length
	}
	h := res(hi, in.High, length, up)
	l := res(lo, in.Low, 0, h)
	switch x := x.(type) {
	case string:
		return x[l:h]
	case *SymStr:
		return normStr(x.b[l:h])
	case []Value:
		if x == nil {
			return []Value(nil)
		}
		return x[l:h:m]
	case *Value:
		a := []Value((*x).(array))
		return a[l:h:m]
	}
	return nil
}

func (fr *frame) strNext(it *strIter) Value {
	p := fr.p
	switch s := it.s.(type) {
	case string:
		if it.pos >= len(s) {
			return tuple{false, uint64(0), uint64(0)}
		}
		for i, r := range s[it.pos:] {
			_ = i
			start := it.pos
			n := len(string(r))
			if r == 0xFFFD && !strings.HasPrefix(s[it.pos:], "\uFFFD") {
				n = 1
			}
			it.pos += n
			return tuple{true, uint64(start), mask(32, uint64(r))}
		}
	case *SymStr:
		if it.pos >= len(s.b) {
			return tuple{false, uint64(0), uint64(0)}
		}
		b := s.b[it.pos]
		var ascii bool
		switch b := b.(type) {
		case uint64:
			ascii = b < 0x80
		case *Term:
			ascii = p.branch(p.c.Cmp(OULT, b, p.c.Const(8, 0x80)))
		}
		if !ascii {
			unsupported("symbolic non-ASCII rune")
		}
		start := it.pos
		it.pos++
		return tuple{true, uint64(start), p.lift(p.c.ZExt(p.term(b, 8), 32))}
	}
	panic("strNext")
}

// term converts an integer value to a term of width w.
func (p *Path) term(v Value, w uint16) *Term {
	switch v := v.(type) {
	case uint64:
		return p.c.Const(w, v)
	case *Term:
		return v
	case bool:
		return p.c.Bool(v)
	case float64:
		return p.c.Const(64, ff(64, v))
	case float32:
		return p.c.Const(32, ff(32, float64(v)))
	}
	panic(fmt.Sprintf("term of %T", v))
}

// lift turns constant terms back into concrete values.
func (p *Path) lift(t *Term) Value {
	if t.Op == OConst {
		if t.W == 0 {
			return t.V != 0
		}
		if t.W <= 64 {
			return t.V
		}
	}
	return t
}

func normStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

// force evaluates lazy strings.
func (p *Path) force(v Value) Value {
	if l, ok := v.(*LazyStr); ok {
		if l.done == nil {
			l.done = p.force(l.f(p))
		}
		return l.done
	}
	return v
}

func (p *Path) forceDeep(v Value) Value {
	switch x := v.(type) {
	case *LazyStr:
		return p.force(x)
	case iface:
		if _, ok := x.v.(*LazyStr); ok {
			return iface{x.t, p.force(x.v)}
		}
		switch x.v.(type) {
		case structure, array:
			return iface{x.t, p.forceDeep(x.v)}
		}
	case structure:
		r := make(structure, len(x))
		for i := range x {
			r[i] = p.forceDeep(x[i])
		}
		return r
	case array:
		r := make(array, len(x))
		for i := range x {
			r[i] = p.forceDeep(x[i])
		}
		return r
	}
	return v
}

// strBytes returns the bytes of a string value.
func (p *Path) strBytes(v Value) []Value {
	switch s := p.force(v).(type) {
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i] = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func (p *Path) strLen(v Value) int {
	switch s := p.force(v).(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}
