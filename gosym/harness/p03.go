package harness

import (
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"

	"verif/gosym/sym"
)

var _ = reg("P03",
	H{F: P03Remap, Bounds: "every relation over scans of two columns of symbolic types, without a mapping or with one of 0..2 columns, mapped by 0..3 arbitrary 32-bit indices", Reach: []string{"mapped", "rejected", "identity"}},
	H{F: P03Twice, Bounds: "every relation over scans of two columns of symbolic types, mapped by 2 and then by 0..2 arbitrary 32-bit indices", Reach: []string{"mapped", "rejected"}},
	H{F: P03Extensions, Bounds: "every relation with hint and extensions, mapped by one index", Reach: []string{"kept"}},
)

// anyMapping are n arbitrary indices, which are valid for the columns or not.
func anyMapping(name string, n int, out []types.Type) (m []int32, valid bool, cols []types.Type) {
	ok := true
	for i := range n {
		x := sym.Int32(name + string(rune('0'+i)))
		m = append(m, x)
		ok = sym.And(ok, sym.And(x >= 0, x < int32(len(out))))
	}
	if !ok {
		return m, false, nil
	}
	if n == 0 {
		return m, true, []types.Type{}
	}
	return m, true, applied(m, out)
}

func plainRel(p *pb.Rel) *pb.Rel {
	q := proto.Clone(p).(*pb.Rel)
	commonOf(q).EmitKind = nil
	return q
}

// commonOf is the common part of a relation.
func commonOf(p *pb.Rel) *pb.RelCommon {
	switch r := p.RelType.(type) {
	case *pb.Rel_Read:
		return r.Read.Common
	case *pb.Rel_Filter:
		return r.Filter.Common
	case *pb.Rel_Fetch:
		return r.Fetch.Common
	case *pb.Rel_Aggregate:
		return r.Aggregate.Common
	case *pb.Rel_Sort:
		return r.Sort.Common
	case *pb.Rel_Join:
		return r.Join.Common
	case *pb.Rel_Project:
		return r.Project.Common
	case *pb.Rel_Set:
		return r.Set.Common
	case *pb.Rel_Cross:
		return r.Cross.Common
	case *pb.Rel_HashJoin:
		return r.HashJoin.Common
	case *pb.Rel_MergeJoin:
		return r.MergeJoin.Common
	case *pb.Rel_Write:
		return r.Write.Common
	case *pb.Rel_ExtensionSingle:
		return r.ExtensionSingle.Common
	case *pb.Rel_ExtensionMulti:
		return r.ExtensionMulti.Common
	case *pb.Rel_ExtensionLeaf:
		return r.ExtensionLeaf.Common
	}
	return nil
}

// remap maps a relation and checks the result and that the relation is left as
// it was.
func remap(r plan.Rel, p *pb.Rel, out []types.Type, name string, n int) (plan.Rel, []types.Type) {
	m, valid, cols := anyMapping(name, n, out)
	x, err := r.Remap(m...)
	sym.Assert((err == nil) == valid, "an error exactly for an index outside the columns")
	sym.Assert(sym.ProtoEqual(r.ToProto(), p), "the relation itself is kept")
	sameTypes(r.RecordType(), out, "the relation itself")
	if err != nil {
		sym.Assert(x == nil, "no relation with an error")
		sym.Reach("rejected")
		return nil, nil
	}
	sym.Reach("mapped")
	sameTypes(x.RecordType(), cols, "the mapped relation")
	for i := range m {
		m[i] = 77
	}
	got := x.OutputMapping()
	for i := range got {
		got[i] = 77
	}
	if got == nil {
		sym.Reach("identity")
	}
	sameTypes(x.RecordType(), cols, "the mapped relation after changes to slices")
	sym.Assert(sym.ProtoEqual(plainRel(x.ToProto()), plainRel(p)), "nothing else changes")
	d := x.ToProto()
	sym.Assert(len(commonOf(d).GetEmit().GetOutputMapping()) == len(cols) || commonOf(d).GetDirect() != nil, "the mapping is encoded")
	return x, cols
}

func P03Remap() {
	c := newRctx()
	c.focus, c.plain, c.direct = []string{}, "r", true
	kind := c.relKind("kind")
	x, _ := c.overScans(kind, "r")
	out, p := x.Out, x.P
	if k := sym.Choice("before", 4); k > 0 {
		// a mapping before
		if k > 1 && len(out) == 0 {
			return
		}
		m := []int32{}
		for i := range k - 1 {
			m = append(m, int32((len(out)-1+i)%len(out)))
		}
		out = applied(m, out)
		commonOf(p).EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: m}}
	}
	remap(c.decoded(p), p, out, "m", sym.Choice("n", 4))
}

func P03Twice() {
	c := newRctx()
	c.focus, c.plain, c.direct = []string{}, "r", true
	x, _ := c.overScans(c.relKind("kind"), "r")
	r := c.decoded(x.P)
	m, valid, cols := anyMapping("m", 2, x.Out)
	if !valid {
		return
	}
	y, err := r.Remap(m...)
	sym.Assert(err == nil, "valid indices are accepted")
	remap(y, y.ToProto(), cols, "n", sym.Choice("n", 3))
	sym.Assert(sym.ProtoEqual(r.ToProto(), x.P), "the first relation is kept")
}

func P03Extensions() {
	c := newRctx()
	c.focus, c.plain, c.direct = []string{"hint", "cext", "ext", "text"}, "r", true
	x, _ := c.overScans(c.relKind("kind"), "r")
	if len(x.Out) == 0 {
		return
	}
	remap(c.decoded(x.P), x.P, x.Out, "m", 1)
	sym.Reach("kept")
}
