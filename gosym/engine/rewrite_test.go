package engine

import (
	"math/big"
	"math/rand"
	"testing"
)

// Random terms under random ranges keep their value when they are simplified.
func TestRewrite(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	rewritten := 0
	for range 200000 {
		c, plain := NewCtx(), NewCtx()
		g := &ranges{}
		c.rng = g
		w := uint16([]int{8, 16, 32, 64}[r.Intn(4)])
		type pair struct{ a, b *Term }
		var vars, plainVars []*Term
		var ps []pair
		m := Model{}
		limits := []uint64{3, 9, 10, 11, 100, 1000, 86400, 1 << 20, 1 << 31, 1 << 62}
		for i := range 3 {
			v, p := c.Var(string(rune('a'+i)), w, false), plain.Var(string(rune('a'+i)), w, false)
			vars, plainVars = append(vars, v), append(plainVars, p)
			ps = append(ps, pair{v, p})
			val := mask(w, r.Uint64())
			if r.Intn(4) > 0 {
				hi := mask(w, limits[r.Intn(len(limits))])
				if hi == 0 {
					hi = 1
				}
				val %= hi
				g.bound(v, 0, hi-1)
			}
			m = append(m, new(big.Int).SetUint64(val))
		}
		consts := []uint64{0, 1, 2, 3, 7, 10, 100, 1000, 86400, 1000000000, 3600, 1<<30 - 1, 1 << 31, 1 << 63, ^uint64(0), ^uint64(9)}
		ops := []Op{OAdd, OSub, OMul, OSDiv, OSRem, OUDiv, OURem, OBAnd, OBOr}
		for range 6 {
			x := ps[r.Intn(len(ps))]
			y := ps[r.Intn(len(ps))]
			op := ops[r.Intn(len(ops))]
			if y.a.W != x.a.W || r.Intn(2) == 0 || op >= OUDiv && op <= OSRem {
				k := consts[r.Intn(len(consts))]
				y = pair{c.Const(x.a.W, k), plain.Const(x.a.W, k)}
			}
			if r.Intn(4) == 0 && x.a.W > 8 {
				n := x.a.W / 2
				ps = append(ps, pair{c.Extract(x.a, n-1, 0), plain.Extract(x.b, n-1, 0)})
				continue
			}
			if r.Intn(4) == 0 && x.a.W < 64 {
				ps = append(ps, pair{c.SExt(x.a, x.a.W*2), plain.SExt(x.b, x.a.W*2)})
				continue
			}
			// the plain side is built without any rewriting
			var pt *Term
			if x.b.IsConst() && y.b.IsConst() {
				pt = plain.Bin(op, x.b, y.b)
			} else {
				pt = plain.mk(op, x.b.W, 0, x.b, y.b, nil)
			}
			ps = append(ps, pair{c.Bin(op, x.a, y.a), pt})
		}
		for _, p := range ps[3:] {
			got, want := newEval(m).u(p.a), newEval(m).u(p.b)
			if got != want {
				t.Fatalf("w=%d got %d want %d", w, got, want)
			}
			if p.a.Op != p.b.Op {
				rewritten++
			}
		}
	}
	t.Log("rewritten", rewritten)
}
