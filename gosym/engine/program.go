package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program shared by all workers.
type Program struct {
	Prog             *ssa.Program
	Fset             *token.FileSet
	runtimeErrorType types.Type
	rtypeType        types.Type
	errorStringType  types.Type // *errors.errorString
	wrapErrorType    types.Type // *fmt.wrapError
	wrapErrorsType   types.Type
	codes            sync.Map // *ssa.Function -> *fnc
	typesByName      map[string]*types.Package
	RepoPrefix       string
	Natives          map[string]nativeFn
	imp              *importer
}

type nativeFn func(p *Path, fr *frame, args []Value) Value

// LoadProgram loads patterns (relative to dir) from source and builds SSA.
func LoadProgram(dir string, patterns []string, repoPrefix string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Prog: prog, Fset: prog.Fset, RepoPrefix: repoPrefix, typesByName: map[string]*types.Package{}}
	for _, p := range prog.AllPackages() {
		P.typesByName[p.Pkg.Path()] = p.Pkg
	}
	P.runtimeErrorType = P.namedType("runtime", "errorString")
	P.rtypeType = types.NewPointer(P.namedType("reflect", "rtype"))
	P.errorStringType = types.NewPointer(P.namedType("errors", "errorString"))
	P.wrapErrorType = types.NewPointer(P.namedType("fmt", "wrapError"))
	P.wrapErrorsType = types.NewPointer(P.namedType("fmt", "wrapErrors"))
	P.Natives = map[string]nativeFn{}
	registerNatives(P)
	return P, nil
}

func (P *Program) namedType(pkg, name string) types.Type {
	tp := P.typesByName[pkg]
	if tp == nil {
		panic("package not loaded: " + pkg)
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		panic("no type " + pkg + "." + name)
	}
	return o.Type()
}

// Func finds a package-level function.
func (P *Program) Func(pkg, name string) *ssa.Function {
	for _, p := range P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Func(name)
		}
	}
	return nil
}

// method finds a method of a named type (by pointer).
func (P *Program) method(pkg, typ, name string) *ssa.Function {
	t := types.NewPointer(P.namedType(pkg, typ))
	return P.Prog.LookupMethod(t, P.typesByName[pkg], name)
}

type opKind uint8

const (
	kReg opKind = iota
	kConst
	kGlobal
	kNil
	kZero // composite zero constant, made afresh
)

type opnd struct {
	kind opKind
	reg  int32
	val  Value
	g    *ssa.Global
	t    types.Type
}

type cins struct {
	in  ssa.Instruction
	dst int32
	o   []opnd
	aux any
}

type cphi struct {
	dst   int32
	edges []opnd
}

type cblk struct {
	idx   int
	phis  []cphi
	ins   []cins
	preds []*ssa.BasicBlock
	succs []int
}

type fnc struct {
	fn       *ssa.Function
	name     string
	nregs    int
	params   []int32
	free     []int32
	locals   []int32
	localT   []types.Type
	blocks   []*cblk
	hasDefer bool
	native   nativeFn
	noBody   bool
	tree     bool // a method of parse trees
}

// binAux is precomputed type information for a binary operation.
type binAux struct {
	t       types.Type
	w       uint16
	signed  bool
	isInt   bool
	isFloat uint16
	isStr   bool
	isBool  bool
	yw      uint16
	ysigned bool
}

func (P *Program) code(fn *ssa.Function) *fnc {
	if c, ok := P.codes.Load(fn); ok {
		return c.(*fnc)
	}
	c := P.compile(fn)
	a, _ := P.codes.LoadOrStore(fn, c)
	return a.(*fnc)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (P *Program) compile(fn *ssa.Function) *fnc {
	c := &fnc{fn: fn, name: fnName(fn), tree: treePackage(fn)}
	if n, ok := P.Natives[c.name]; ok {
		c.native = n
	} else if n := P.patternNative(fn); n != nil {
		c.native = n
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		c.noBody = true
		return c
	}
	regs := map[ssa.Value]int32{}
	reg := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		r := int32(len(regs))
		regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, reg(p))
	}
	for _, f := range fn.FreeVars {
		c.free = append(c.free, reg(f))
	}
	for _, l := range fn.Locals {
		c.locals = append(c.locals, reg(l))
		c.localT = append(c.localT, deref(l.Type()))
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{kind: kNil}
		case *ssa.Const:
			val := constValue(v)
			switch val.(type) {
			case structure, array:
				return opnd{kind: kZero, t: v.Type()}
			}
			return opnd{kind: kConst, val: val}
		case *ssa.Global:
			return opnd{kind: kGlobal, g: v}
		case *ssa.Function:
			return opnd{kind: kConst, val: v}
		case *ssa.Builtin:
			return opnd{kind: kConst, val: v}
		}
		return opnd{kind: kReg, reg: reg(v)}
	}
	for i, b := range fn.Blocks {
		cb := &cblk{idx: i, preds: b.Preds}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: reg(ph)}
				for _, e := range ph.Edges {
					cp.edges = append(cp.edges, mkop(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg(v)
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				ci.o = []opnd{mkop(in.X), mkop(in.Y)}
				ci.aux = mkBinAux(in)
			case *ssa.UnOp:
				ci.o = []opnd{mkop(in.X)}
			case *ssa.Call:
				ci.o = callOps(&in.Call, mkop)
			case *ssa.Defer:
				c.hasDefer = true
				ci.o = append(callOps(&in.Call, mkop), mkop(in.DeferStack))
			case *ssa.Go:
				ci.o = callOps(&in.Call, mkop)
			case *ssa.RunDefers:
				c.hasDefer = true
			case *ssa.Slice:
				ci.o = []opnd{mkop(in.X), opOrNil(in.Low, mkop), opOrNil(in.High, mkop), opOrNil(in.Max, mkop)}
			case *ssa.MakeMap:
				ci.o = nil
			default:
				for _, op := range in.Operands(nil) {
					ci.o = append(ci.o, opOrNil(*op, mkop))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	if fn.Recover != nil {
		c.hasDefer = true
	}
	c.nregs = len(regs)
	return c
}

func opOrNil(v ssa.Value, mk func(ssa.Value) opnd) opnd {
	if v == nil {
		return opnd{kind: kNil}
	}
	return mk(v)
}

func callOps(c *ssa.CallCommon, mk func(ssa.Value) opnd) []opnd {
	o := []opnd{mk(c.Value)}
	for _, a := range c.Args {
		o = append(o, mk(a))
	}
	return o
}

func mkBinAux(in *ssa.BinOp) *binAux {
	a := &binAux{t: in.X.Type()}
	if in.Op == token.EQL || in.Op == token.NEQ {
		if c, ok := in.X.(*ssa.Const); ok && c.Value == nil {
			a.t = in.Y.Type()
			if types.IsInterface(in.X.Type()) && !types.IsInterface(in.Y.Type()) {
				a.t = in.X.Type()
			}
		}
	}
	if b, ok := a.t.Underlying().(*types.Basic); ok {
		if w, s, ok := intInfo(a.t); ok {
			a.w, a.signed, a.isInt = w, s, true
		} else {
			switch {
			case b.Info()&types.IsString != 0:
				a.isStr = true
			case b.Info()&types.IsBoolean != 0:
				a.isBool = true
			case b.Kind() == types.Float32:
				a.isFloat = 32
			case b.Info()&types.IsFloat != 0:
				a.isFloat = 64
			}
		}
	}
	if w, s, ok := intInfo(in.Y.Type()); ok {
		a.yw, a.ysigned = w, s
	}
	return a
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// constant of type-parameter type should not occur with instantiation
		panic("constValue " + c.String())
	}
	if w, _, ok := intInfo(t); ok {
		if v, exact := constant.Int64Val(constant.ToInt(c.Value)); exact {
			return mask(w, uint64(v))
		}
		v, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return mask(w, v)
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Kind() == types.Float32:
		return float32(c.Float64())
	case t.Info()&types.IsFloat != 0:
		return c.Float64()
	case t.Info()&types.IsComplex != 0:
		return c.Complex128()
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	panic("constValue: " + c.String())
}
