package engine

import (
	"go/types"
	"reflect"
	"sync"

	"github.com/antlr4-go/antlr/v4"
	casebase "github.com/substrait-io/substrait-go/v8/testcases/parser/baseparser"
	typebase "github.com/substrait-io/substrait-go/v8/types/parser/baseparser"
	"golang.org/x/tools/go/ssa"
)

// The generated parsers run natively, on a representative of the text: each symbolic byte
// is first decided to be 0, another digit or a letter, which the lexers treat alike, as
// they do digits after the first of a number and in names, and
// then stands for all bytes of its kind. The parse tree's methods run natively too, except
// that text is taken from the symbolic input; the visitors are executed symbolically.

const (
	antlrPath    = "github.com/antlr4-go/antlr/v4"
	typeBasePath = repo + "/types/parser/baseparser"
	caseBasePath = repo + "/testcases/parser/baseparser"
)

// parserV is a generated parser over a text.
type parserV struct {
	text      Value
	lexer     *parserV // for a parser, what its text is read with
	listeners []Value
}

// treeSrc is the text a tree was parsed from.
type treeSrc struct {
	bytes []Value
	cells map[any]*Value
}

// treeNode is a node, token or other object of a parse tree.
type treeNode struct {
	obj any
	src *treeSrc
}

type syntaxError struct {
	lexer     bool
	line, col int
	msg       string
}

type parsedTree struct {
	root antlr.ParseTree
	errs []syntaxError
}

type collector struct {
	*antlr.DefaultErrorListener
	errs  *[]syntaxError
	lexer bool
}

func (c *collector) SyntaxError(_ antlr.Recognizer, _ interface{}, line, column int, msg string, _ antlr.RecognitionException) {
	*c.errs = append(*c.errs, syntaxError{c.lexer, line, column, msg})
}

var trees struct {
	sync.Mutex
	m map[string]*parsedTree
}

func parseTree(rule, text string) *parsedTree {
	trees.Lock()
	defer trees.Unlock()
	if t := trees.m[rule+text]; t != nil {
		return t
	}
	t := &parsedTree{}
	c := &collector{antlr.NewDefaultErrorListener(), &t.errs, false}
	lc := &collector{antlr.NewDefaultErrorListener(), &t.errs, true}
	is := antlr.NewInputStream(text)
	if rule == "StartRule" {
		lx := typebase.NewSubstraitTypeLexer(is)
		lx.RemoveErrorListeners()
		lx.AddErrorListener(lc)
		p := typebase.NewSubstraitTypeParser(antlr.NewCommonTokenStream(lx, 0))
		p.RemoveErrorListeners()
		p.AddErrorListener(c)
		p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
		t.root = p.StartRule()
	} else {
		lx := casebase.NewFuncTestCaseLexer(is)
		lx.RemoveErrorListeners()
		lx.AddErrorListener(lc)
		p := casebase.NewFuncTestCaseParser(antlr.NewCommonTokenStream(lx, 0))
		p.RemoveErrorListeners()
		p.AddErrorListener(c)
		p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
		t.root = p.Doc()
	}
	if trees.m == nil {
		trees.m = map[string]*parsedTree{}
	}
	trees.m[rule+text] = t
	return t
}

// representative decides the kinds of the symbolic bytes of the text.
func (p *Path) representative(bs []Value) string {
	within := func(t *Term, lo, hi byte) *Term {
		return p.c.And(p.c.Cmp(OULE, p.c.Const(8, uint64(lo)), t), p.c.Cmp(OULE, t, p.c.Const(8, uint64(hi))))
	}
	in := func(t *Term, lo, hi byte) bool { return p.branchV(p.lift(within(t, lo, hi))) }
	var out []byte
	run := false // within a number that does not start with 0, or a name: all digits are alike
	for i, b := range bs {
		if i > 0 {
			switch c := out[i-1]; {
			case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_', c == '$', c >= '1' && c <= '9':
				run = true
			case c != '0':
				run = false
			}
		}
		if c, ok := b.(uint64); ok {
			if c >= 0x80 {
				unsupported("parsing text beyond ASCII")
			}
			out = append(out, byte(c))
			continue
		}
		t := b.(*Term)
		switch {
		case run && in(t, '0', '9'):
			out = append(out, '1')
		case in(t, '1', '9'):
			out = append(out, '1')
		case in(t, '0', '0'):
			out = append(out, '0')
		case p.branchV(p.lift(p.c.Or(within(t, 'a', 'z'), within(t, 'A', 'Z')))):
			out = append(out, 'z')
		default:
			unsupported("parsing symbolic text that is neither digits nor letters")
		}
	}
	return string(out)
}

func (s *treeSrc) cell(obj any) *Value {
	if c := s.cells[obj]; c != nil {
		return c
	}
	c := new(Value)
	*c = &nativeBox{&treeNode{obj, s}}
	s.cells[obj] = c
	return c
}

func nodeOf(v Value) *treeNode {
	if c, ok := v.(*Value); ok && c != nil {
		if b, ok := (*c).(*nativeBox); ok && b != nil {
			n, _ := b.v.(*treeNode)
			return n
		}
	}
	return nil
}

// textOf gives the bytes of the input that a node or token covers.
func (n *treeNode) textOf(p *Path, obj any) []Value {
	switch x := obj.(type) {
	case antlr.TerminalNode:
		return n.textOf(p, x.GetSymbol())
	case antlr.Token:
		if x.GetTokenType() == antlr.TokenEOF || x.GetStart() < 0 || x.GetStop() >= len(n.src.bytes) {
			return p.strBytes(x.GetText())
		}
		if x.GetTokenIndex() < 0 { // made up by the parser
			return p.strBytes(x.GetText())
		}
		return n.src.bytes[x.GetStart() : x.GetStop()+1]
	case antlr.Tree:
		var out []Value
		for _, c := range x.GetChildren() {
			out = append(out, n.textOf(p, c)...)
		}
		return out
	}
	unsupported("text of %T", obj)
	return nil
}

// give converts what a native method returns.
func (n *treeNode) give(p *Path, rv reflect.Value) Value {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			return iface{}
		}
		e := rv.Elem()
		return iface{p.x.P.typeOf(e.Type()), n.give(p, e)}
	case reflect.Pointer:
		if rv.IsNil() {
			return (*Value)(nil)
		}
		return n.src.cell(rv.Interface())
	case reflect.Slice:
		if rv.IsNil() {
			return []Value(nil)
		}
		out := make([]Value, rv.Len())
		for i := range out {
			out[i] = n.give(p, rv.Index(i))
		}
		return out
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.String:
		return p.fromHost(rv)
	}
	unsupported("%s in a parse tree", rv.Type())
	return nil
}

// treePackage reports whether the function is a method of the parse trees.
func treePackage(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	t := r.Type()
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	nt, ok := t.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	switch nt.Obj().Pkg().Path() {
	case antlrPath, typeBasePath, caseBasePath:
		return fn.Name() != "Accept" && fn.Name() != "VisitChildren"
	}
	return false
}

func (n *treeNode) invoke(p *Path, name string, args []Value) Value {
	if name == "GetText" {
		return normStr(n.textOf(p, n.obj))
	}
	m := reflect.ValueOf(n.obj).MethodByName(name)
	if !m.IsValid() {
		unsupported("method %s of %T", name, n.obj)
	}
	var in []reflect.Value
	for i, a := range args {
		t := m.Type().In(i)
		x, ok := a.(uint64)
		if !ok || t.Kind() != reflect.Int {
			unsupported("argument of %s of %T", name, n.obj)
		}
		in = append(in, reflect.ValueOf(int(x)))
	}
	out := m.Call(in)
	switch len(out) {
	case 0:
		return nil
	case 1:
		return n.give(p, out[0])
	}
	unsupported("method %s of %T", name, n.obj)
	return nil
}

// parserField is a field of a parser, all of which stand for the parser itself.
func parserField(cell *Value, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		var v Value = cell
		return &v
	}
	return cell
}

func parserOf(v Value) *parserV {
	if i, ok := v.(iface); ok {
		v = i.v
	}
	if c, ok := v.(*Value); ok && c != nil {
		if b, ok := (*c).(*nativeBox); ok && b != nil {
			q, _ := b.v.(*parserV)
			return q
		}
	}
	return nil
}

func registerTrees(P *Program) {
	N := P.Natives
	box := func(q *parserV) Value {
		var v Value = &nativeBox{q}
		return &v
	}
	same := func(p *Path, fr *frame, a []Value) Value {
		q := parserOf(a[0])
		if q == nil {
			unsupported("parsing from %T", a[0])
		}
		return box(q)
	}
	N[antlrPath+".NewInputStream"] = func(p *Path, fr *frame, a []Value) Value { return box(&parserV{text: a[0]}) }
	N[antlrPath+".NewCommonTokenStream"] = same
	N[antlrPath+".TreesStringTree"] = func(p *Path, fr *frame, a []Value) Value { return "(tree)" }
	for _, n := range []string{typeBasePath + ".NewSubstraitTypeLexer", caseBasePath + ".NewFuncTestCaseLexer"} {
		N[n] = same
	}
	for _, n := range []string{typeBasePath + ".NewSubstraitTypeParser", caseBasePath + ".NewFuncTestCaseParser"} {
		N[n] = func(p *Path, fr *frame, a []Value) Value {
			q := parserOf(a[0])
			if q == nil {
				unsupported("parsing from %T", a[0])
			}
			return box(&parserV{text: q.text, lexer: q})
		}
	}
	listen := func(p *Path, fr *frame, a []Value) Value {
		q := parserOf(a[0])
		if q == nil {
			return fallThrough{}
		}
		q.listeners = append(q.listeners, a[1])
		return nil
	}
	none := func(p *Path, fr *frame, a []Value) Value {
		if parserOf(a[0]) == nil {
			return fallThrough{}
		}
		return nil
	}
	N["(*"+antlrPath+".BaseRecognizer).AddErrorListener"] = listen
	N["(*"+antlrPath+".BaseRecognizer).RemoveErrorListeners"] = none
	N["(*"+antlrPath+".BaseParser).GetInterpreter"] = func(p *Path, fr *frame, a []Value) Value {
		if parserOf(a[0]) == nil {
			return fallThrough{}
		}
		return a[0]
	}
	N["(*"+antlrPath+".ParserATNSimulator).SetPredictionMode"] = none
	rule := func(name string) nativeFn {
		return func(p *Path, fr *frame, a []Value) Value {
			q := parserOf(a[0])
			if q == nil {
				unsupported("a parser made elsewhere")
			}
			src := &treeSrc{bytes: p.strBytes(p.force(q.text)), cells: map[any]*Value{}}
			t := parseTree(name, p.representative(src.bytes))
			for _, e := range t.errs {
				to := q
				if e.lexer {
					to = q.lexer
				}
				for _, l := range to.listeners {
					li := l.(iface)
					m := p.findMethod(li.t, "SyntaxError")
					p.call(fr, m, []Value{li.v, iface{}, iface{}, uint64(e.line), uint64(e.col), e.msg, iface{}})
				}
			}
			n := &treeNode{src: src}
			return n.give(p, reflect.ValueOf(&t.root).Elem())
		}
	}
	N["(*"+typeBasePath+".SubstraitTypeParser).StartRule"] = rule("StartRule")
	N["(*"+caseBasePath+".FuncTestCaseParser).Doc"] = rule("Doc")
	N[symPkg+".Parse"] = func(p *Path, fr *frame, a []Value) Value {
		p.parsing = true
		return nil
	}
}
