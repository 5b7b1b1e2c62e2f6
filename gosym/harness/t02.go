package harness

import (
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/gosym/sym"
)

var _ = reg("T02",
	H{F: T02PairEquality, Bounds: "every pair of type kinds; pairs of one kind with independent nullability, variation and parameters and, for nested kinds, child lists of 0..2 whose members are pairs again (depth 1; 2 when deep)",
		Reach: []string{"equal", "different", "kinds"}},
	H{F: T02Params, Bounds: "every pair of user-defined-type parameters, strings up to 2 bytes", Reach: []string{"equal", "different"}},
)

// T02PairEquality: equality coincides with equality of the messages the types stand
// for (an equivalence), in both directions, and agrees with itself on copies.
func T02PairEquality() {
	d := 1
	if sym.Deep() {
		d = 2
	}
	a, b := pairType("t", d)
	sym.Case(a.Name + "/" + b.Name)
	want := sym.ProtoEqual(a.P, b.P)
	ab := a.T.Equals(b.T)
	sym.Assert(ab == want, "equal exactly when all parts are equal")
	sym.Assert(b.T.Equals(a.T) == ab, "symmetric")
	sym.Assert(a.T.Equals(a.T), "reflexive")
	sym.Assert(a.T.Equals(a.T.WithNullability(a.T.GetNullability())), "equal to a copy")
	if a.Name != b.Name {
		sym.Reach("kinds")
	} else if ab {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

func T02Params() {
	x, px := udtParam("a", 1)
	y, py := udtParam("b", 1)
	want := sym.ProtoEqual(px, py)
	sym.Assert(x.Equals(y) == want, "equal exactly when kind and value are equal")
	sym.Assert(y.Equals(x) == want, "symmetric")
	sym.Assert(x.Equals(x), "reflexive")
	sym.Assert(sym.ProtoEqual(x.ToProto(), px), "encoding is the parameter")
	sym.Assert(types.TypeParamFromProto(px).Equals(x), "decoding gives the parameter")
	if want {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}
