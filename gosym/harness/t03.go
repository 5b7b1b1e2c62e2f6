package harness

import (
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("T03",
	H{F: T03WithNullability, Bounds: "every type kind (nested to depth 1), every source and target nullability, variation and parameter", Reach: []string{"done"}},
	H{F: T03WithLength, Bounds: "every fixed-length and precision kind, every 32-bit length", Reach: []string{"done"}},
	H{F: T03SharedTables, Bounds: "every name in the published type-name tables, every nullability and length", Reach: []string{"simple", "fixed", "map"}},
)

// T03WithNullability: the copy has the new nullability and nothing else changed; the
// original is as before.
func T03WithNullability() {
	x := anyType("t", 1)
	sym.Case(x.Name)
	n0 := x.T.GetNullability()
	n := nul("new")
	c := x.T.WithNullability(n)
	sym.Assert(c.GetNullability() == n, "copy has the requested nullability")
	sym.Assert(x.T.GetNullability() == n0, "original keeps its nullability")
	sym.Assert(sym.ProtoEqual(types.TypeToProto(x.T), x.P), "original unchanged")
	back := c.WithNullability(n0)
	sym.Assert(c.GetNullability() == n, "copy keeps its nullability when copied")
	sym.Assert(back.Equals(x.T), "copy is otherwise equal")
	sym.Assert(sym.ProtoEqual(types.TypeToProto(back), x.P), "copy encodes the same otherwise")
	// reading a type does not change it
	_ = x.T.ShortString()
	_ = x.T.GetParameters()
	sym.Assert(sym.ProtoEqual(types.TypeToProto(x.T), x.P), "reading leaves the type unchanged")
	sym.Reach("done")
}

func T03WithLength() {
	kinds := []string{"fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day"}
	k := kinds[sym.Choice("kind", len(kinds))]
	sym.Case(k)
	x := leafType(k, "t")
	f, ok := x.T.(types.FixedType)
	if !ok {
		sym.Reach("done")
		return
	}
	l := sym.Int32("l")
	if k != "fixedchar" && k != "varchar" && k != "fixedbinary" {
		sym.Assume(sym.And(l >= 0, l <= 9))
	}
	l0 := f.GetLength()
	g := f.WithLength(l)
	sym.Assert(g.GetLength() == l, "copy has the requested length")
	sym.Assert(f.GetLength() == l0, "original keeps its length")
	sym.Assert(sym.ProtoEqual(types.TypeToProto(x.T), x.P), "original unchanged")
	h := g.WithLength(l0)
	sym.Assert(g.GetLength() == l, "copy keeps its length when copied")
	sym.Assert(h.GetNullability() == f.GetNullability(), "copy keeps nullability")
	sym.Assert(h.Equals(x.T), "copy is otherwise equal")
	sym.Reach("done")
}

// T03SharedTables: types handed out by the published tables stay what they are,
// whatever is derived from them.
func T03SharedTables() {
	n := nul2("n")
	names := []types.TypeName{types.TypeNameI8, types.TypeNameI16, types.TypeNameI32, types.TypeNameI64, types.TypeNameFp32, types.TypeNameFp64,
		types.TypeNameString, types.TypeNameBinary, types.TypeNameBoolean, types.TypeNameDate, types.TypeNameTime, types.TypeNameTimestamp,
		types.TypeNameTimestampTz, types.TypeNameIntervalYear, types.TypeNameUUID, types.TypeNameUDT}
	fixed := []types.TypeName{types.TypeNameFixedBinary, types.TypeNameFixedChar, types.TypeNameVarChar}
	others := []types.TypeName{types.TypeNameDecimal, types.TypeNameIntervalDay, types.TypeNamePrecisionTime, types.TypeNamePrecisionTimestamp, types.TypeNamePrecisionTimestampTz}
	k := sym.Choice("name", len(names)+len(fixed)+len(others))
	switch {
	case k < len(names):
		name := names[k]
		sym.Case(string(name))
		t, err := types.SimpleTypeNameToType(name)
		sym.Assert(err == nil, "simple name known")
		before := types.TypeToProto(t)
		c := t.WithNullability(n)
		sym.Assert(c.GetNullability() == n, "copy has the requested nullability")
		t2, _ := types.SimpleTypeNameToType(name)
		sym.Assert(sym.ProtoEqual(types.TypeToProto(t2), before), "table entry unchanged")
		if name != types.TypeNameUDT {
			sym.Assert(t2.ShortString() == types.GetShortTypeName(name), "entry has the name's kind")
		}
		sym.Reach("simple")
	case k < len(names)+len(fixed):
		name := fixed[k-len(names)]
		sym.Case(string(name))
		l := sym.Int32("l")
		t, err := types.FixedTypeNameToType(name)
		sym.Assert(err == nil, "fixed name known")
		before := types.TypeToProto(t)
		c := t.WithLength(l).WithNullability(n)
		sym.Assert(c.GetNullability() == n, "copy has the requested nullability")
		t2, _ := types.FixedTypeNameToType(name)
		sym.Assert(sym.ProtoEqual(types.TypeToProto(t2), before), "table entry unchanged")
		sym.Assert(t2.ShortString() == types.GetShortTypeName(name), "entry has the name's kind")
		sym.Reach("fixed")
	default:
		name := others[k-len(names)-len(fixed)]
		sym.Case(string(name))
		t := types.GetTypeNameToTypeMap()[string(name)]
		before := types.TypeToProto(t)
		c := t.WithNullability(n)
		sym.Assert(c.GetNullability() == n, "copy has the requested nullability")
		sym.Assert(sym.ProtoEqual(types.TypeToProto(t), before), "entry unchanged")
		sym.Assert(sym.ProtoEqual(types.TypeToProto(types.GetTypeNameToTypeMap()[string(name)]), before), "table entry unchanged")
		sym.Reach("map")
	}
}
