package harness

import (
	"strconv"

	"github.com/substrait-io/substrait-go/v8/extensions"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"

	"verif/gosym/sym"
)

var _ = reg("E01",
	H{F: E01Fresh, Bounds: "new sets; 3 (deep: 5) registrations of any kind mix, 2 URNs, every one-byte name", Reach: []string{"same", "different"}},
	H{F: E01Decoded, Bounds: "decoded plans with 1..2 URNs and 1..2 (deep: 3) declarations of any kind, every anchor value (zero included) and one-byte name, each anchor and item declared once; then 2 registrations", Reach: []string{"same", "different"}},
)

var _ = reg("E02",
	H{F: E02RoundTrip, Order: true, Bounds: "sets as in E01 (fresh with 2 (deep: 3) registrations, or decoded with 1..2 (deep: 3) declarations and one registration); every map iteration order", Reach: []string{"done"}},
	H{F: E02Reject, Bounds: "a declaration of any kind whose URN reference is any value, against 1..2 declared URNs of which one is loaded", Reach: []string{"accepted", "rejected"}},
	H{F: E02DoubleURN, Order: true, Bounds: "plans that declare one URN under two anchors of any value", Reach: []string{"done"}},
)

const urnA, urnB = "extension:o:a", "extension:o:b"

func anchorCollection() *extensions.Collection {
	c := &extensions.Collection{}
	for _, u := range []string{urnA, urnB} {
		if err := c.Load(&yamlFile{text: "urn: " + u + "\n"}); err != nil {
			panic(err)
		}
	}
	return c
}

// ent is one item of a set as the harness knows it.
type ent struct {
	kind      int // function, type, type variation
	urn, name string
	anchor    uint32
}

func (e ent) is(o ent) bool {
	return e.kind == o.kind && e.urn == o.urn && e.name == o.name
}

func anyEnt(name string) ent {
	return ent{kind: sym.Choice(name+".kind", 3), urn: []string{urnA, urnB}[sym.Choice(name+".urn", 2)], name: sym.String(name+".name", 1, 1)}
}

// register asks the set for the anchor of e.
func register(s extensions.Set, e *ent) {
	switch e.kind {
	case 0:
		e.anchor = s.GetFuncAnchor(extensions.FunctionID{URN: e.urn, Name: e.name})
	case 1:
		e.anchor = s.GetTypeAnchor(extensions.TypeID{URN: e.urn, Name: e.name})
	default:
		e.anchor = s.GetTypeVariationAnchor(extensions.TypeVariationID{URN: e.urn, Name: e.name})
	}
}

func decode(s extensions.Set, kind int, anchor uint32) (urn, name string, ok bool) {
	switch kind {
	case 0:
		id, ok := s.DecodeFunc(anchor)
		return id.URN, id.Name, ok
	case 1:
		id, ok := s.DecodeType(anchor)
		return id.URN, id.Name, ok
	}
	id, ok := s.DecodeTypeVariation(anchor)
	return id.URN, id.Name, ok
}

// checkOneToOne registers n items and checks all items known so far.
func checkOneToOne(s extensions.Set, known []ent, n int) []ent {
	for i := 0; i < n; i++ {
		e := anyEnt("op" + strconv.Itoa(i))
		register(s, &e)
		for _, k := range known {
			if k.kind != e.kind {
				continue
			}
			same := e.is(k)
			sym.Assert(same == (e.anchor == k.anchor), "one anchor per item and one item per anchor")
			if same {
				sym.Reach("same")
			} else {
				sym.Reach("different")
			}
		}
		known = append(known, e)
	}
	for _, k := range known {
		urn, name, ok := decode(s, k.kind, k.anchor)
		sym.Assert(ok, "a given anchor is found")
		sym.Assert(urn == k.urn, "an anchor decodes to its item's URN")
		sym.Assert(name == k.name, "an anchor decodes to its item's name")
		again := k
		register(s, &again)
		sym.Assert(again.anchor == k.anchor, "asking again gives the same anchor")
		_, ok = s.FindURN(k.urn)
		sym.Assert(ok, "the item's URN is registered")
	}
	return known
}

func E01Fresh() {
	n := 3
	if sym.Deep() {
		n = 5
	}
	s := extensions.NewSet()
	known := checkOneToOne(s, nil, n)
	// an anchor that was given to nothing decodes to nothing
	a := sym.Uint32("unknown")
	kind := sym.Choice("unknown.kind", 3)
	used := false
	for _, k := range known {
		used = sym.Or(used, sym.And(k.kind == kind, k.anchor == a))
	}
	_, _, ok := decode(s, kind, a)
	sym.Assert(ok == used, "exactly the given anchors are found")
}

func declare(e ent, urnRef uint32) *extpb.SimpleExtensionDeclaration {
	switch e.kind {
	case 0:
		return &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionFunction_{
			ExtensionFunction: &extpb.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: urnRef, FunctionAnchor: e.anchor, Name: e.name}}}
	case 1:
		return &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionType_{
			ExtensionType: &extpb.SimpleExtensionDeclaration_ExtensionType{ExtensionUrnReference: urnRef, TypeAnchor: e.anchor, Name: e.name}}}
	}
	return &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_{
		ExtensionTypeVariation: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation{ExtensionUrnReference: urnRef, TypeVariationAnchor: e.anchor, Name: e.name}}}
}

// declared makes a plan with declarations and the items it declares.
func declared() (*pb.Plan, []ent, map[string]uint32) {
	m := &pb.Plan{}
	urns := []string{urnA, urnB}[:1+sym.Choice("urns", 2)]
	refs := map[string]uint32{}
	var ra uint32
	for i, u := range urns {
		r := sym.Uint32("urn" + strconv.Itoa(i))
		if i == 1 {
			sym.Assume(r != ra)
		}
		ra = r
		refs[u] = r
		m.ExtensionUrns = append(m.ExtensionUrns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: r, Urn: u})
	}
	var known []ent
	most := 2
	if sym.Deep() {
		most = 3
	}
	n := 1 + sym.Choice("decls", most)
	for i := 0; i < n; i++ {
		name := "decl" + strconv.Itoa(i)
		e := ent{kind: sym.Choice(name+".kind", 3), urn: urns[sym.Choice(name+".urn", len(urns))], name: sym.String(name+".name", 1, 1), anchor: sym.Uint32(name + ".anchor")}
		for _, k := range known {
			if k.kind == e.kind {
				sym.Assume(k.anchor != e.anchor)
				if k.urn == e.urn {
					sym.Assume(k.name != e.name)
				}
			}
		}
		known = append(known, e)
		m.Extensions = append(m.Extensions, declare(e, refs[e.urn]))
	}
	return m, known, refs
}

func E01Decoded() {
	m, known, refs := declared()
	s, err := extensions.GetExtensionSet(m, anchorCollection())
	sym.Assert(err == nil, "a plan with resolvable declarations is accepted")
	n := 2
	for u, r := range refs {
		a, ok := s.FindURN(u)
		sym.Assert(ok && a == r, "a declared URN keeps its anchor")
	}
	checkOneToOne(s, known, n)
	for u, r := range refs {
		a, ok := s.FindURN(u)
		sym.Assert(ok && a == r, "a declared URN keeps its anchor after registrations")
	}
}

// checkDecls checks the encoded lists against the items of the set.
func checkDecls(s extensions.Set, c *extensions.Collection, known []ent) {
	urns, decls := s.ToProto(c)
	sym.MapOrder(true)
	urns2, decls2 := s.ToProto(c)
	sym.MapOrder(false)
	m := &pb.Plan{ExtensionUrns: urns, Extensions: decls}
	sym.Assert(sym.ProtoEqual(m, &pb.Plan{ExtensionUrns: urns2, Extensions: decls2}), "the same lists on every run")
	urnOf := map[uint32]string{}
	for i, u := range urns {
		if i > 0 {
			sym.Assert(urns[i-1].ExtensionUrnAnchor < u.ExtensionUrnAnchor, "URNs in anchor order")
		}
		urnOf[u.ExtensionUrnAnchor] = u.Urn
	}
	// the distinct items
	var items []ent
	for _, k := range known {
		dup := false
		for _, o := range items {
			if o.is(k) {
				dup = true
			}
		}
		if !dup {
			items = append(items, k)
		}
	}
	sym.Assert(len(decls) == len(items), "one declaration per item")
	last := ent{kind: -1}
	for _, d := range decls {
		var e ent
		var ref uint32
		switch x := d.MappingType.(type) {
		case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
			e, ref = ent{kind: 0, name: x.ExtensionFunction.Name, anchor: x.ExtensionFunction.FunctionAnchor}, x.ExtensionFunction.ExtensionUrnReference
		case *extpb.SimpleExtensionDeclaration_ExtensionType_:
			e, ref = ent{kind: 1, name: x.ExtensionType.Name, anchor: x.ExtensionType.TypeAnchor}, x.ExtensionType.ExtensionUrnReference
		case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
			e, ref = ent{kind: 2, name: x.ExtensionTypeVariation.Name, anchor: x.ExtensionTypeVariation.TypeVariationAnchor}, x.ExtensionTypeVariation.ExtensionUrnReference
		}
		urn, ok := urnOf[ref]
		sym.Assert(ok, "a declaration refers to a listed URN")
		e.urn = urn
		found := false
		for _, k := range items {
			if e.is(k) {
				found = true
				sym.Assert(e.anchor == k.anchor, "a declaration has its item's anchor")
			}
		}
		sym.Assert(found, "every declaration is of an item of the set")
		if last.kind == e.kind {
			sym.Assert(last.anchor < e.anchor, "declarations in anchor order")
		}
		last = e
	}
	s2, err := extensions.GetExtensionSet(m, c)
	sym.Assert(err == nil, "the encoded lists decode")
	for _, k := range items {
		urn, name, ok := decode(s2, k.kind, k.anchor)
		sym.Assert(ok && urn == k.urn && name == k.name, "decoding gives the same items")
		again := k
		register(s2, &again)
		sym.Assert(again.anchor == k.anchor, "decoding gives the same anchors")
	}
	urns3, decls3 := s2.ToProto(c)
	sym.Assert(sym.ProtoEqual(m, &pb.Plan{ExtensionUrns: urns3, Extensions: decls3}), "decoding and encoding gives the same lists")
	sym.Reach("done")
}

func E02RoundTrip() {
	c := anchorCollection()
	var s extensions.Set
	var known []ent
	n := 2
	if sym.Deep() {
		n = 3
	}
	if sym.Choice("from", 2) == 1 {
		var m *pb.Plan
		var err error
		m, known, _ = declared()
		s, err = extensions.GetExtensionSet(m, c)
		sym.Assert(err == nil, "a plan with resolvable declarations is accepted")
		n = 1
	} else {
		s = extensions.NewSet()
	}
	for i := 0; i < n; i++ {
		e := anyEnt("op" + strconv.Itoa(i))
		register(s, &e)
		known = append(known, e)
	}
	checkDecls(s, c, known)
}

func E02Reject() {
	c := anchorCollection()
	a, b := sym.Uint32("a"), sym.Uint32("b")
	sym.Assume(a != b)
	m := &pb.Plan{ExtensionUrns: []*extpb.SimpleExtensionURN{{ExtensionUrnAnchor: a, Urn: urnA}}}
	two := sym.Choice("two", 2) == 1
	if two {
		m.ExtensionUrns = append(m.ExtensionUrns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: b, Urn: "extension:o:unknown"})
	}
	ref := sym.Uint32("ref")
	e := ent{kind: sym.Choice("kind", 3), name: "n", anchor: sym.Uint32("anchor")}
	m.Extensions = append(m.Extensions, declare(e, ref))
	s, err := extensions.GetExtensionSet(m, c)
	sym.Assert((err == nil) == (ref == a), "accepted exactly when the URN is declared and loaded")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	urn, name, ok := decode(s, e.kind, e.anchor)
	sym.Assert(ok && urn == urnA && name == "n", "the declared item")
	for k := 0; k < 3; k++ {
		_, _, ok := decode(s, k, e.anchor)
		sym.Assert(ok == (k == e.kind), "in its own kind only")
	}
	sym.Reach("accepted")
}

func E02DoubleURN() {
	c := anchorCollection()
	a, b := sym.Uint32("a"), sym.Uint32("b")
	sym.Assume(a != b)
	m := &pb.Plan{ExtensionUrns: []*extpb.SimpleExtensionURN{{ExtensionUrnAnchor: a, Urn: urnA}, {ExtensionUrnAnchor: b, Urn: urnA}}}
	e := ent{kind: sym.Choice("kind", 3), urn: urnA, name: "n", anchor: sym.Uint32("anchor")}
	m.Extensions = append(m.Extensions, declare(e, []uint32{a, b}[sym.Choice("ref", 2)]))
	s, err := extensions.GetExtensionSet(m, c)
	sym.Assert(err == nil, "accepted")
	sym.MapOrder(true)
	x, ok := s.FindURN(urnA)
	y, ok2 := s.FindURN(urnA)
	sym.MapOrder(false)
	sym.Assert(ok && ok2 && x == y, "the URN is found at the same anchor on every run")
	checkDecls(s, c, []ent{e})
}
