package harness

import (
	"slices"
	"strconv"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/gosym/sym"
)

// rp is a relation together with the message that stands for it and the columns
// that its operator produces.
type rp struct {
	R    plan.Rel
	P    *pb.Rel
	Out  []types.Type // after the emit mapping
	All  []types.Type // before the emit mapping
	Map  []int32
	Kind string
}

// rctx is what relations are made from.
type rctx struct {
	*ectx
	b        plan.Builder
	focus    []string                            // the parts that vary, all of them if nil
	decoders map[string]expr.ExtensionRelDecoder // of the extension relations made
	anyIndex bool                                // emit mappings may have indices outside the columns
	direct   bool                                // plain relations emit all columns
	plain    string                              // relations whose name has this are plain: they have literals for expressions and emit their two first columns in reverse
}

// Parts of relations that vary together.
var (
	commonParts = []string{"hint", "cext", "ext", "text", "emit"}
	shapeParts  = []string{"cols", "rows", "proj", "names", "snap", "files", "n", "groups", "measures", "keys", "type", "op", "output", "decoder"}
	detailParts = []string{"filter", "best", "post", "pathtype", "format", "cmp", "filtered", "sorts", "output"}
)

func (c *rctx) pick(name string, n, fixed int) int {
	if c.focus != nil && !slices.Contains(c.focus, name[strings.LastIndex(name, ".")+1:]) {
		return fixed
	}
	return c.ectx.pick(name, n, fixed)
}

func (c *rctx) isPlain(name string) bool { return c.plain != "" && strings.Contains(name, c.plain) }

func (c *rctx) exprKind(name string, k int) int {
	if c.isPlain(name) {
		return 0
	}
	return k
}

// relKinds are all relations; the first relLeaves of them have no input.
var relKinds = []string{"named", "virtual", "exttable", "iceberg", "files", "extleaf",
	"project", "filter", "fetch", "sort", "aggregate", "extsingle", "write",
	"join", "cross", "set", "hash", "merge", "extmulti"}

const relLeaves = 6

func newRctx() *rctx {
	b := plan.NewBuilder(dialectCollection())
	return &rctx{ectx: &ectx{reg: b.GetExprBuilder().Reg, vary: true}, b: b, decoders: map[string]expr.ExtensionRelDecoder{}}
}

// col is a column of a symbolic type.
func col(kind, name string) tp { return leafType(kind, name) }

var colKinds = []string{"i32", "decimal", "string", "precision_timestamp"}

// columns are n columns of different kinds with symbolic parameters.
func columns(name string, n int) []tp {
	var r []tp
	for i := range n {
		r = append(r, col(colKinds[i%len(colKinds)], name+".c"+strconv.Itoa(i)))
	}
	return r
}

func typesOf(c []tp) []types.Type {
	r := make([]types.Type, 0, len(c))
	for _, x := range c {
		r = append(r, x.T)
	}
	return r
}

func (c *rctx) namedStruct(name string, cols []tp) (types.NamedStruct, *pb.NamedStruct) {
	s := types.NamedStruct{Struct: types.StructType{Nullability: nul(name + ".nul"), TypeVariationRef: sym.Uint32(name + ".var")}}
	p := &pb.NamedStruct{Struct: &pb.Type_Struct{Nullability: pb.Type_Nullability(s.Struct.Nullability), TypeVariationReference: s.Struct.TypeVariationRef}}
	for i, x := range cols {
		n := sym.String(name+".n"+strconv.Itoa(i), 1, 1)
		s.Names, p.Names = append(s.Names, n), append(p.Names, n)
		s.Struct.Types, p.Struct.Types = append(s.Struct.Types, x.T), append(p.Struct.Types, x.P)
	}
	return s, p
}

func anyP(name string) *anypb.Any {
	return &anypb.Any{TypeUrl: sym.String(name+".url", 1, 1), Value: sym.Bytes(name+".val", 1, 1)}
}

func extP(name string) *extensions.AdvancedExtension {
	return &extensions.AdvancedExtension{Enhancement: anyP(name), Optimization: []*anypb.Any{anyP(name + ".opt")}}
}

func (c *rctx) maybeExt(name string) *extensions.AdvancedExtension {
	if c.pick(name, 2, 0) == 1 {
		return extP(name)
	}
	return nil
}

// mapping is an emit mapping into n columns: none, an empty one or one of 1..2
// symbolic indices.
func (c *rctx) mapping(name string, n int) []int32 {
	if c.isPlain(name) {
		if n < 2 || c.direct {
			return nil
		}
		return []int32{1, 0}
	}
	k := c.pick(name, 4, 0)
	if k == 0 || n == 0 && k > 1 {
		return nil
	}
	m := []int32{}
	for i := range k - 1 {
		x := sym.Int32(name + strconv.Itoa(i))
		if !c.anyIndex {
			sym.Assume(sym.And(x >= 0, x < int32(n)))
		}
		m = append(m, x)
	}
	return m
}

func applied(m []int32, out []types.Type) []types.Type {
	if m == nil {
		return out
	}
	r := make([]types.Type, 0, len(m))
	for _, x := range m {
		for i, t := range out {
			if x == int32(i) {
				r = append(r, t)
			}
		}
	}
	return r
}

// common is the common part of a relation.
func common(m []int32, hint *pb.RelCommon_Hint, ext *extensions.AdvancedExtension) *pb.RelCommon {
	r := &pb.RelCommon{Hint: hint, AdvancedExtension: ext}
	if m == nil {
		r.EmitKind = &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}
	} else if len(m) == 0 {
		r.EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{}}
	} else {
		r.EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: m}}
	}
	return r
}

func (c *rctx) hint(name string) *pb.RelCommon_Hint {
	if c.pick(name, 2, 0) == 0 {
		return nil
	}
	return &pb.RelCommon_Hint{Alias: sym.String(name+".alias", 1, 1), OutputNames: []string{sym.String(name+".out", 1, 1)},
		Stats:             &pb.RelCommon_Hint_Stats{RowCount: sym.Float64(name + ".rows")},
		AdvancedExtension: extP(name)}
}

// fieldRef is a reference to any of the columns.
func (c *rctx) fieldRef(name string, cols []types.Type) ep {
	x := sym.Int32(name)
	sym.Assume(sym.And(x >= 0, x < int32(len(cols))))
	s, p := segs([]seg{fld(x)})
	f, err := expr.NewRootFieldRef(s, types.NewRecordTypeFromTypes(cols))
	if err != nil {
		panic(err)
	}
	return ep{E: f, P: selP(nil, p), Kind: "field"}
}

// refTo is a reference to the i-th of the columns.
func (c *rctx) refTo(i int, cols []types.Type) ep {
	s, p := segs([]seg{fld(int32(i))})
	f, err := expr.NewRootFieldRef(s, types.NewRecordTypeFromTypes(cols))
	if err != nil {
		panic(err)
	}
	return ep{E: f, P: selP(nil, p), Kind: "field"}
}

// value is an expression over columns: a literal, a field or a function of both.
func (c *rctx) value(name string, cols []types.Type) ep {
	k := 0
	if len(cols) > 0 {
		k = c.pick(name+".expr", 3, c.exprKind(name, 2))
	}
	switch k {
	case 0:
		return i32Lit(name + ".lit")
	case 1:
		return c.fieldRef(name+".field", cols)
	}
	return c.call(name, leafType("date", name+".out"), c.fieldRef(name+".field", cols), i32Lit(name+".lit"))
}

// call is a call of an undeclared scalar function.
func (c *rctx) call(name string, out tp, args ...ep) ep {
	v := c.scalarVariant(1)
	var a []types.FuncArg
	var p []*pb.FunctionArgument
	for _, x := range args {
		a, p = append(a, x.E), append(p, argP(x.P))
	}
	e, err := expr.NewCustomScalarFunc(c.reg, v, out.T, nil, a...)
	if err != nil {
		panic(err)
	}
	return ep{E: e, P: &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{
		FunctionReference: c.reg.GetFuncAnchor(v.ID()), Arguments: p, OutputType: out.P}}}, Kind: "scalar"}
}

// cond is a boolean expression over columns.
func (c *rctx) cond(name string, cols []types.Type) ep {
	k := 0
	if len(cols) > 0 {
		k = c.pick(name+".cond", 2, c.exprKind(name, 1))
	}
	if k == 0 {
		b := sym.Bool(name + ".lit")
		return ep{E: &expr.PrimitiveLiteral[bool]{Value: b, Type: &types.BooleanType{Nullability: types.NullabilityRequired}},
			P: litP(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Boolean{Boolean: b}}), Kind: "literal"}
	}
	return c.call(name, leafTypeWith("bool", "", nul(name+".nul"), 0), c.fieldRef(name+".field", cols))
}

// measure is an aggregate function over columns with a sort.
func (c *rctx) measure(name string, cols []types.Type) (*expr.AggregateFunction, *pb.AggregateFunction) {
	out := leafType("varchar", name+".out")
	v := aggVariant(1)
	x := c.value(name+".arg", cols)
	inv, ph := sym.Int32(name+".inv"), sym.Int32(name+".phase")
	var sorts []expr.SortField
	var sp []*pb.SortField
	if c.pick(name+".sorts", 2, 1) == 1 {
		s, p := c.sortField(name+".sort", cols, 0)
		sorts, sp = []expr.SortField{s}, []*pb.SortField{p}
	}
	e, err := expr.NewCustomAggregateFunc(c.reg, v, out.T, nil, types.AggregationInvocation(inv), types.AggregationPhase(ph), sorts, x.E)
	if err != nil {
		panic(err)
	}
	return e, &pb.AggregateFunction{FunctionReference: c.reg.GetFuncAnchor(v.ID()), Arguments: []*pb.FunctionArgument{argP(x.P)}, OutputType: out.P,
		Phase: pb.AggregationPhase(ph), Invocation: pb.AggregateFunction_AggregationInvocation(inv), Sorts: sp}
}

func (c *rctx) sortField(name string, cols []types.Type, i int) (expr.SortField, *pb.SortField) {
	x := c.value(name, cols)
	k, set := sortKind(name, i == 1)
	p := &pb.SortField{Expr: x.P}
	set(p)
	return expr.SortField{Expr: x.E, Kind: k}, p
}

// joined are the columns that a join of a kind produces.
func joined(kind string, left, right []types.Type) []types.Type {
	side := func(cols []types.Type, null bool) []types.Type {
		r := make([]types.Type, 0, len(cols))
		for _, t := range cols {
			if null {
				t = t.WithNullability(types.NullabilityNullable)
			}
			r = append(r, t)
		}
		return r
	}
	switch kind {
	case "inner":
		return append(side(left, false), side(right, false)...)
	case "outer":
		return append(side(left, true), side(right, true)...)
	case "left":
		return append(side(left, false), side(right, true)...)
	case "right":
		return append(side(left, true), side(right, false)...)
	case "leftonly":
		return left
	}
	return right
}

// joinTypes are the kinds of a join with the columns that each produces.
var joinTypes = []struct {
	t    plan.JoinType
	cols string
}{{plan.JoinTypeInner, "inner"}, {plan.JoinTypeOuter, "outer"}, {plan.JoinTypeLeft, "left"}, {plan.JoinTypeRight, "right"},
	{plan.JoinTypeLeftSingle, "left"}, {plan.JoinTypeRightSingle, "right"},
	{plan.JoinTypeLeftSemi, "leftonly"}, {plan.JoinTypeLeftAnti, "leftonly"}, {plan.JoinTypeRightSemi, "rightonly"}, {plan.JoinTypeRightAnti, "rightonly"}}

var hashTypes = []struct {
	t    plan.HashMergeJoinType
	cols string
}{{plan.HashMergeInner, "inner"}, {plan.HashMergeOuter, "outer"}, {plan.HashMergeLeft, "left"}, {plan.HashMergeRight, "right"},
	{plan.HashMergeLeftSemi, "leftonly"}, {plan.HashMergeLeftAnti, "leftonly"}, {plan.HashMergeRightSemi, "rightonly"}, {plan.HashMergeRightAnti, "rightonly"}}

// decoded is the relation that a message stands for.
func (c *rctx) decoded(p *pb.Rel) plan.Rel {
	r, err := plan.RelFromProto(p, c.reg)
	if err != nil {
		panic(err)
	}
	return r
}

// extDef defines an extension relation with known columns.
type extDef struct {
	cols   []types.Type
	detail *anypb.Any
}

func (d *extDef) Schema([]plan.Rel) types.RecordType       { return *types.NewRecordTypeFromTypes(d.cols) }
func (d *extDef) Build([]plan.Rel) *anypb.Any              { return d.detail }
func (d *extDef) Expressions([]plan.Rel) []expr.Expression { return nil }

type extDecoder struct{ cols []types.Type }

func (d *extDecoder) DecodeExtensionRel(detail *anypb.Any) (any, error) {
	return &extDef{d.cols, detail}, nil
}

// scan is a scan of a named table with the columns.
func (c *rctx) scan(name string, cols []tp) rp {
	s, p := c.namedStruct(name, cols)
	return rp{R: c.b.NamedScan([]string{"t"}, s), Out: typesOf(cols), Kind: "named",
		P: &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{Common: common(nil, nil, nil), BaseSchema: p,
			ReadType: &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"t"}}}}}}}
}

// mapped is a scan that emits its columns, of which there are at least two, in
// another order.
func (c *rctx) mapped(name string, cols []tp) rp {
	x := c.scan(name, append([]tp{col("date", name+".hidden")}, cols...))
	var m []int32
	for i := range cols {
		m = append(m, int32(len(cols)-i))
	}
	r, err := x.R.Remap(m...)
	if err != nil {
		panic(err)
	}
	x.P.GetRead().Common = common(m, nil, nil)
	x.R, x.Out = r, nil
	for i := range cols {
		x.Out = append(x.Out, cols[len(cols)-1-i].T)
	}
	return x
}

// builder makes a relation through the plan builder.
type builder func() (plan.Rel, error)

// made is the relation that the plan builder makes.
func (b builder) made() plan.Rel {
	r, err := b()
	sym.Assert(err == nil, "built")
	return r
}

func res[T plan.Rel](r T, err error) (plan.Rel, error) {
	if err != nil {
		return nil, err
	}
	return r, nil
}

// inputs is the number of inputs of a relation of the kind.
func inputs(kind string) int {
	for i, k := range relKinds {
		if k == kind && i < relLeaves {
			return 0
		}
	}
	switch kind {
	case "join", "cross", "hash", "merge", "set", "extmulti":
		return 2
	}
	return 1
}

// relOf is a relation of the kind over inputs. The relation itself is left to
// the caller: the message is to be decoded, and build, unless it is nil, makes
// the same relation with the builder.
func (c *rctx) relOf(kind, name string, in ...rp) (x rp, build builder) {
	x.Kind = kind
	hint, cext := c.hint(name+".hint"), c.maybeExt(name+".cext")
	var ext *extensions.AdvancedExtension
	if kind != "extleaf" && kind != "extsingle" && kind != "extmulti" {
		ext = c.maybeExt(name + ".ext")
	}
	var m []int32
	emit := func(out []types.Type) *pb.RelCommon {
		m = c.mapping(name+".emit", len(out))
		x.Out, x.All, x.Map = applied(m, out), out, m
		return common(m, hint, cext)
	}
	finish := func(b builder) builder {
		if hint != nil || cext != nil || b == nil {
			return nil
		}
		return func() (plan.Rel, error) {
			r, err := b()
			if err == nil && ext != nil {
				sym.Assert(r.SetAdvancedExtension(ext) == nil, "no extension before")
			}
			return r, err
		}
	}
	var ins []plan.Rel
	var inP []*pb.Rel
	for _, i := range in {
		ins, inP = append(ins, i.R), append(inP, i.P)
	}
	var cols []types.Type
	if len(in) > 0 {
		cols = in[0].Out
	}
	var both []types.Type
	if len(in) > 1 {
		both = joined("inner", in[0].Out, in[1].Out)
	}

	switch kind {
	case "named", "virtual", "exttable", "iceberg", "files":
		tab := columns(name, c.pick(name+".cols", 3, 2))
		rows := 0
		if kind == "virtual" {
			rows = c.pick(name+".rows", 3, 2)
		}
		if kind == "virtual" && rows > 0 && len(tab) > 0 {
			tab[0] = leafTypeWith("i32", "", types.NullabilityRequired, 0)
		}
		s, sp := c.namedStruct(name, tab)
		p := &pb.ReadRel{BaseSchema: sp, AdvancedExtension: ext}
		x.P = &pb.Rel{RelType: &pb.Rel_Read{Read: p}}
		p.Common = emit(typesOf(tab))
		filtered := false
		if c.pick(name+".filter", 2, 0) == 1 {
			p.Filter, filtered = c.cond(name+".filter", s.Struct.Types).P, true
		}
		if c.pick(name+".best", 2, 0) == 1 {
			p.BestEffortFilter, filtered = c.cond(name+".best", s.Struct.Types).P, true
		}
		if c.pick(name+".proj", 2, 0) == 1 {
			old := c.vary
			c.vary = false
			p.Projection, filtered = c.maskP(name+".proj"), true
			c.vary = old
		}
		var b builder
		switch kind {
		case "named":
			n := []string{sym.String(name+".t0", 0, 1), sym.String(name+".t1", 1, 1)}[:c.pick(name+".names", 3, 2)]
			t := &pb.ReadRel_NamedTable{Names: n, AdvancedExtension: c.maybeExt(name + ".text")}
			p.ReadType = &pb.ReadRel_NamedTable_{NamedTable: t}
			if t.AdvancedExtension == nil {
				b = func() (plan.Rel, error) { return res(c.b.NamedScanRemap(n, s, m)) }
			}
		case "virtual":
			vt := &pb.ReadRel_VirtualTable{}
			p.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: vt}
			var vals []expr.VirtualTableExpressionValue
			for i := range rows {
				st := &pb.Expression_Nested_Struct{}
				var v expr.VirtualTableExpressionValue
				for j := range tab {
					l := i32Lit(name + ".v" + strconv.Itoa(i) + strconv.Itoa(j))
					if j == 1 {
						l = c.call(name+".v"+strconv.Itoa(i), tab[j], l)
					}
					v, st.Fields = append(v, l.E), append(st.Fields, l.P)
				}
				vals, vt.Expressions = append(vals, v), append(vt.Expressions, st)
			}
			if !filtered {
				sp.Struct.Nullability, sp.Struct.TypeVariationReference = pb.Type_NULLABILITY_REQUIRED, 0
			}
			if rows > 0 {
				b = func() (plan.Rel, error) { return res(c.b.VirtualTableFromExprRemap(s.Names, m, vals...)) }
			} else if m == nil {
				b = func() (plan.Rel, error) { return res(c.b.EmptyVirtualTable(s.Names, s.Struct.Types)) }
			}
		case "exttable":
			d := anyP(name + ".detail")
			p.ReadType = &pb.ReadRel_ExtensionTable_{ExtensionTable: &pb.ReadRel_ExtensionTable{Detail: d}}
			if m == nil {
				b = func() (plan.Rel, error) { return c.b.ExtensionTable(d, s), nil }
			}
		case "iceberg":
			d := &pb.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: sym.String(name+".uri", 0, 1)}
			var snap plan.IcebergSnapshot
			switch c.pick(name+".snap", 3, 1) {
			case 1:
				id := sym.String(name+".id", 1, 2)
				snap, d.Snapshot = plan.SnapshotId(id), &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: id}
			case 2:
				ts := sym.Int64(name + ".ts")
				sym.Assume(ts != 0)
				snap, d.Snapshot = plan.SnapshotTimestamp(ts), &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: ts}
			}
			p.ReadType = &pb.ReadRel_IcebergTable_{IcebergTable: &pb.ReadRel_IcebergTable{TableType: &pb.ReadRel_IcebergTable_Direct{Direct: d}}}
			if m == nil {
				b = func() (plan.Rel, error) { return res(c.b.IcebergTableFromMetadataFile(d.MetadataUri, snap, s)) }
			}
		case "files":
			f := &pb.ReadRel_LocalFiles{AdvancedExtension: c.maybeExt(name + ".text")}
			for i := range c.pick(name+".files", 3, 1) {
				f.Items = append(f.Items, c.file(name+".file"+strconv.Itoa(i)))
			}
			p.ReadType = &pb.ReadRel_LocalFiles_{LocalFiles: f}
		}
		if !filtered {
			build = finish(b)
		}
	case "project":
		n := 1 + c.pick(name+".n", 2, 1)
		p := &pb.ProjectRel{Input: inP[0], AdvancedExtension: ext}
		out := append([]types.Type{}, cols...)
		var es []expr.Expression
		for i := range n {
			e := c.value(name+".e"+strconv.Itoa(i), cols)
			es, p.Expressions, out = append(es, e.E), append(p.Expressions, e.P), append(out, e.E.GetType())
		}
		p.Common = emit(out)
		x.P = &pb.Rel{RelType: &pb.Rel_Project{Project: p}}
		build = finish(func() (plan.Rel, error) { return res(c.b.ProjectRemap(ins[0], m, es...)) })
	case "filter":
		e := c.cond(name, cols)
		x.P = &pb.Rel{RelType: &pb.Rel_Filter{Filter: &pb.FilterRel{Common: emit(cols), Input: inP[0], Condition: e.P, AdvancedExtension: ext}}}
		build = finish(func() (plan.Rel, error) { return res(c.b.FilterRemap(ins[0], e.E, m)) })
	case "fetch":
		off, n := sym.Int64(name+".off"), sym.Int64(name+".count")
		x.P = &pb.Rel{RelType: &pb.Rel_Fetch{Fetch: &pb.FetchRel{Common: emit(cols), Input: inP[0], OffsetMode: &pb.FetchRel_Offset{Offset: off}, CountMode: &pb.FetchRel_Count{Count: n}, AdvancedExtension: ext}}}
		build = finish(func() (plan.Rel, error) { return res(c.b.FetchRemap(ins[0], off, n, m)) })
	case "sort":
		p := &pb.SortRel{Common: emit(cols), Input: inP[0], AdvancedExtension: ext}
		var ss []expr.SortField
		for i := range 1 + c.pick(name+".n", 2, 1) {
			s, sp := c.sortField(name+".s"+strconv.Itoa(i), cols, i)
			ss, p.Sorts = append(ss, s), append(p.Sorts, sp)
		}
		x.P = &pb.Rel{RelType: &pb.Rel_Sort{Sort: p}}
		build = finish(func() (plan.Rel, error) { return res(c.b.SortRemap(ins[0], m, ss...)) })
	case "aggregate":
		x.P, build = c.aggregateOf(name, in[0], ext, emit)
		if build = finish(build); m != nil {
			build = nil
		}
	case "extsingle", "extleaf", "extmulti":
		d := anyP(name + ".detail")
		d.TypeUrl = name
		def := &extDef{typesOf(columns(name, 2)), d}
		switch len(in) {
		case 0:
			x.P = &pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{Detail: d}}}
		case 1:
			x.P = &pb.Rel{RelType: &pb.Rel_ExtensionSingle{ExtensionSingle: &pb.ExtensionSingleRel{Input: inP[0], Detail: d}}}
		default:
			x.P = &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Inputs: inP, Detail: d}}}
		}
		out := def.cols
		if c.pick(name+".decoder", 2, 1) == 1 {
			c.decoders[d.TypeUrl] = &extDecoder{def.cols}
			if err := c.reg.SetExtensionRelDecoder(d.TypeUrl, &extDecoder{def.cols}); err != nil {
				panic(err)
			}
		} else if len(in) == 1 {
			out = cols
		} else {
			out = nil
		}
		cm := emit(out)
		switch len(in) {
		case 0:
			x.P.GetExtensionLeaf().Common = cm
		case 1:
			x.P.GetExtensionSingle().Common = cm
		default:
			x.P.GetExtensionMulti().Common = cm
		}
		if m == nil && len(out) == len(def.cols) && len(in) != 1 {
			build = finish(func() (plan.Rel, error) {
				if len(in) == 0 {
					return res(c.b.ExtensionLeaf(def))
				}
				return res(c.b.ExtensionMulti(ins, def))
			})
		}
	case "write":
		tab := columns(name, 2)
		s, sp := c.namedStruct(name, tab)
		n := []string{sym.String(name+".t0", 0, 1)}
		p := &pb.WriteRel{Input: inP[0], TableSchema: sp, AdvancedExtension: nil,
			WriteType: &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: n, AdvancedExtension: c.maybeExt(name + ".text")}}}
		x.P = &pb.Rel{RelType: &pb.Rel_Write{Write: p}}
		var out []types.Type
		op := []plan.WriteOp{plan.WriteOpCTAS, plan.WriteOpInsert, plan.WriteOpDelete}[c.pick(name+".op", 3, 0)]
		p.Op = op
		// an unspecified output mode is the usual one of the operation
		usual := c.pick(name+".output", 2, 0) == 0
		if !usual {
			p.Output = plan.OutputModeModifiedRecords
			if op == plan.WriteOpCTAS {
				p.Output = plan.OutputModeNoOutput
			}
		}
		if usual == (op == plan.WriteOpCTAS) {
			out = typesOf(tab)
		}
		p.Common = emit(out)
		if ext != nil {
			// the library keeps the extension in the common part
			p.Common.AdvancedExtension = ext
			cext = nil
		}
		if p.GetNamedTable().AdvancedExtension == nil && usual {
			build = finish(func() (plan.Rel, error) {
				if op == plan.WriteOpCTAS {
					return res(c.b.CreateTableAsSelectRemap(ins[0], m, n, s))
				}
				return res(c.b.NamedWriteRemap(ins[0], op, n, s, m))
			})
		}
	case "join":
		t := joinTypes[c.pick(name+".type", len(joinTypes), 2)]
		e := c.cond(name, both)
		p := &pb.JoinRel{Common: emit(joined(t.cols, in[0].Out, in[1].Out)), Left: inP[0], Right: inP[1], Type: t.t, Expression: e.P, AdvancedExtension: ext}
		var post expr.Expression
		if c.pick(name+".post", 2, 1) == 1 {
			f := c.cond(name+".post", both)
			post, p.PostJoinFilter = f.E, f.P
		}
		x.P = &pb.Rel{RelType: &pb.Rel_Join{Join: p}}
		build = finish(func() (plan.Rel, error) { return res(c.b.JoinAndFilterRemap(ins[0], ins[1], e.E, post, t.t, m)) })
	case "cross":
		x.P = &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Common: emit(both), Left: inP[0], Right: inP[1], AdvancedExtension: ext}}}
		build = finish(func() (plan.Rel, error) { return res(c.b.CrossRemap(ins[0], ins[1], m)) })
	case "set":
		op := sym.Int32(name + ".op")
		sym.Assume(op != 0)
		x.P = &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{Common: emit(cols), Inputs: inP, Op: pb.SetRel_SetOp(op), AdvancedExtension: ext}}}
		build = finish(func() (plan.Rel, error) { return res(c.b.SetRemap(plan.SetOp(op), m, ins...)) })
	case "hash", "merge":
		t := hashTypes[c.pick(name+".type", len(hashTypes), 2)]
		cm := emit(joined(t.cols, in[0].Out, in[1].Out))
		keys, legacy := c.joinKeys(name, in[0].Out, in[1].Out)
		var left, right []*pb.Expression_FieldReference
		if legacy {
			for _, k := range keys {
				left, right = append(left, k.Left), append(right, k.Right)
			}
		}
		var post *pb.Expression
		if c.pick(name+".post", 2, 1) == 1 {
			post = c.cond(name+".post", both).P
		}
		if kind == "hash" {
			x.P = &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: &pb.HashJoinRel{Common: cm, Left: inP[0], Right: inP[1], Keys: keys, LeftKeys: left, RightKeys: right,
				PostJoinFilter: post, Type: pb.HashJoinRel_JoinType(t.t), AdvancedExtension: ext}}}
		} else {
			x.P = &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: &pb.MergeJoinRel{Common: cm, Left: inP[0], Right: inP[1], Keys: keys, LeftKeys: left, RightKeys: right,
				PostJoinFilter: post, Type: pb.MergeJoinRel_JoinType(t.t), AdvancedExtension: ext}}}
		}
	}
	return x, build
}

// joinKeys are 0..2 keys of a hash or merge join. They are written in the old
// form too if all of them compare for equality.
func (c *rctx) joinKeys(name string, left, right []types.Type) (r []*pb.ComparisonJoinKey, legacy bool) {
	n := c.pick(name+".keys", 3, 1)
	if len(left) == 0 || len(right) == 0 {
		n = 0
	}
	legacy = true
	for i := range n {
		k := name + ".k" + strconv.Itoa(i)
		l, rr := c.fieldRef(k+".l", left), c.fieldRef(k+".r", right)
		x := &pb.ComparisonJoinKey{Left: l.P.GetSelection(), Right: rr.P.GetSelection()}
		switch c.pick(k+".cmp", 3, 0) {
		case 0:
			x.Comparison = simpleCmp(plan.SimpleComparisonTypeEq)
		case 1:
			s := sym.Int32(k + ".simple")
			sym.Assume(s != int32(plan.SimpleComparisonTypeEq))
			x.Comparison = simpleCmp(plan.SimpleComparisonType(s))
			legacy = false
		case 2:
			x.Comparison = &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference{CustomFunctionReference: sym.Uint32(k + ".custom")}}
			legacy = false
		}
		r = append(r, x)
	}
	return r, legacy
}

func simpleCmp(s plan.SimpleComparisonType) *pb.ComparisonJoinKey_ComparisonType {
	return &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: s}}
}

// file is an item of a local files read.
func (c *rctx) file(name string) *pb.ReadRel_LocalFiles_FileOrFiles {
	type F = pb.ReadRel_LocalFiles_FileOrFiles
	f := &F{PartitionIndex: sym.Uint64(name + ".part"), Start: sym.Uint64(name + ".start"), Length: sym.Uint64(name + ".len")}
	s := sym.String(name+".path", 0, 1)
	switch c.pick(name+".pathtype", 4, 1) {
	case 0:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPath{UriPath: s}
	case 1:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPathGlob{UriPathGlob: s}
	case 2:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: s}
	case 3:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFolder{UriFolder: s}
	}
	switch c.pick(name+".format", 6, 1) {
	case 1:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Parquet{Parquet: &pb.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions{}}
	case 2:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Arrow{Arrow: &pb.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions{}}
	case 3:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Orc{Orc: &pb.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions{}}
	case 4:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Dwrf{Dwrf: &pb.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions{}}
	case 5:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Extension{Extension: anyP(name + ".fmt")}
	}
	return f
}

// aggregateOf is an aggregate of 0..2 grouping expressions and 0..2 measures.
func (c *rctx) aggregateOf(name string, in rp, ext *extensions.AdvancedExtension, emit func([]types.Type) *pb.RelCommon) (*pb.Rel, builder) {
	p := &pb.AggregateRel{Input: in.P, AdvancedExtension: ext}
	var out []types.Type
	var group []expr.Expression
	ng := c.pick(name+".groups", 3, 1)
	nm := c.pick(name+".measures", 3, 1)
	if ng == 0 && nm == 0 {
		nm = 1
	}
	var refs []uint32
	for i := range ng {
		e := c.value(name+".g"+strconv.Itoa(i), in.Out)
		group, p.GroupingExpressions, out = append(group, e.E), append(p.GroupingExpressions, e.P), append(out, e.E.GetType())
		refs = append(refs, uint32(i))
	}
	if ng > 0 {
		p.Groupings = []*pb.AggregateRel_Grouping{{ExpressionReferences: refs}}
	}
	var ms []plan.AggRelMeasure
	for i := range nm {
		n := name + ".m" + strconv.Itoa(i)
		f, fp := c.measure(n, in.Out)
		m := &pb.AggregateRel_Measure{Measure: fp}
		var filter expr.Expression
		if c.pick(n+".filtered", 2, 1) == 1 {
			x := c.cond(n+".filter", in.Out)
			filter, m.Filter = x.E, x.P
		}
		ms, p.Measures, out = append(ms, c.b.Measure(f, filter)), append(p.Measures, m), append(out, f.GetType())
	}
	p.Common = emit(out)
	return &pb.Rel{RelType: &pb.Rel_Aggregate{Aggregate: p}}, func() (plan.Rel, error) {
		arb := c.b.GetRelBuilder().AggregateRel(in.R, ms)
		for _, g := range group {
			arb.AddExpression(g)
		}
		if ng > 0 {
			arb.AddGroupingSet(refs)
		}
		return res(arb.Build())
	}
}
