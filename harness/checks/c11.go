package checks

import (
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// rawOf is the uncompressed encoding by definition (nil for infinity, whose
// encoding is the library's choice).
func rawOf(p pt) []byte {
	if p.inf() {
		return nil
	}
	var c []*big.Int
	if p.g == 1 {
		c = []*big.Int{p.p1.X, p.p1.Y}
	} else {
		c = []*big.Int{p.p2.X.A, p.p2.X.B, p.p2.Y.A, p.p2.Y.B}
	}
	b := make([]byte, 48*len(c))
	for i, v := range c {
		v.FillBytes(b[48*i : 48*i+48])
	}
	return b
}

// fresh makes an object with the zero value of its type.
func (g *grp) fresh() interface{} {
	if g.id == 1 {
		return &bls.G1Affine{}
	}
	return &bls.G2Affine{}
}

// sameAs checks that an object behaves as point p in every way a caller sees.
func (g *grp) sameAs(t *core.T, a interface{}, p pt, what func() string) {
	g.isA(t, a, p, what)
	o := g.a(p)
	if !g.eqA(a, o) || !g.eqA(o, a) {
		t.Failf("%s does not equal %v", what(), p)
	}
	if !g.onCurve(a) {
		t.Failf("%s is reported off the curve", what())
	}
	if g.strA(a) != g.strA(o) {
		t.Failf("%s prints as %s, not %s", what(), g.strA(a), g.strA(o))
	}
	if string(g.compress(a)) != p.enc() {
		t.Failf("%s compresses to %x, not %x", what(), g.compress(a), p.enc())
	}
	if r, w := g.raw(a), g.raw(o); string(r) != string(w) {
		t.Failf("%s encodes as %x, not %x", what(), r, w)
	}
	g.isJ(t, g.toJ(a), p, what)
	g.isJ(t, g.addA(g.j(g.gen, 3), a), p.add(g.gen), func() string { return what() + " plus the generator" })
}

// extremes are curve points with small, large and boundary coordinates.
func (g *grp) extremes(n int64) (out []pt) {
	c := nearList(n, bi(0), bq, pow2(64), pow2(128), pow2(192), pow2(256), pow2(320), pow2(380), fromMont(one))
	c = append(c, fromMont(pow2(64)), fromMont(sub(bq, one)), fromMont(pow2(380)))
	c = below(c, bq)
	for _, v := range c {
		if g.id == 1 {
			if lo, hi, ok := ref.FromX1(v); ok {
				out = append(out, pt{g: 1, p1: lo}, pt{g: 1, p1: hi})
			}
			continue
		}
		for _, x := range []ref.F2{{A: v, B: bi(0)}, {A: bi(0), B: v}, {A: v, B: sub(bq, one)}, {A: pow2(64), B: v}} {
			if lo, hi, ok := ref.FromX2(x); ok {
				out = append(out, pt{g: 2, p2: lo}, pt{g: 2, p2: hi})
			}
		}
	}
	return
}

func rawSpaces(g *grp, tier string) []core.Space {
	name := fmt.Sprintf("g%d-", g.id)
	l := int64(11)
	if g.id == 2 {
		l = 13
	}
	n, depth := int64(20), 4
	if tier == "thorough" {
		n, depth = 300, 5
	}
	pts := append(append(append([]pt{}, g.mixed(5)...), g.torsion(l)...), g.extremes(n)...)
	pool := []pt{g.inf, g.gen, g.gen.neg(), g.ofOrder(l, 1), g.anyPoint(7), g.gen.mul(bi(3))}
	if g.id == 1 {
		pool = append(pool, g.ofOrder(3, 1))
	} else {
		pool = append(pool, tiePoints()[0], tiePoints()[6])
	}
	// what the receiver may have held before
	prior := []func() interface{}{
		g.fresh,
		func() interface{} { return g.a(g.inf) },
		func() interface{} { return g.a(g.gen) },
		func() interface{} { return g.a(g.anyPoint(7)) },
		func() interface{} { a := g.a(g.gen); g.negA(a); return a },
		func() interface{} { a := g.a(g.inf); g.negA(a); return a },
		func() interface{} { return g.toA(g.j(g.inf, 2)) },
		func() interface{} { a, _ := g.decompress([]byte(g.gen.enc()), true); return a },
		func() interface{} { a, _ := g.decompress([]byte(g.inf.enc()), true); return a },
		func() interface{} { a := g.fresh(); g.setRaw(a, g.raw(g.a(g.inf))); return a },
	}
	np := int64(len(pool))
	return []core.Space{
		{Name: name + "round-trip", N: int64(len(pts)), Portable: 2, Run: func(t *core.T, i int64) {
			p := pts[i]
			a := g.a(p)
			b := g.raw(a)
			t.Eval(true)
			if w := rawOf(p); w != nil && string(w) != string(b) {
				t.Failf("%v encodes as %x, not %x", p, b, w)
			}
			for k, mk := range prior {
				r := mk()
				c := append([]byte{}, b...)
				g.setRaw(r, c)
				g.sameAs(t, r, p, func() string { return fmt.Sprintf("receiver %d set from the encoding of %v", k, p) })
				if string(c) != string(b) {
					t.Failf("encoding changed by reading it")
				}
				t.Trans(1)
			}
			for z := 0; z < 4; z++ {
				if c := g.raw(g.toA(g.j(p, z))); string(c) != string(b) {
					t.Failf("%v (representative %d) encodes as %x, not %x", p, z, c, b)
				}
			}
			g.isA(t, a, p, func() string { return "encoded point afterwards" })
			if t.WantSample() {
				t.Sample("%v written and read into %d receivers", p, len(prior))
			}
		}},
		// one object set again and again, negated and copied in between
		{Name: name + "sequences", N: np * int64(len(prior)), Portable: 4, Run: func(t *core.T, i int64) {
			start := prior[i/np]
			var rec func(r interface{}, m pt, d int, trail string)
			rec = func(r interface{}, m pt, d int, trail string) {
				if d == depth {
					t.Trace(1)
					return
				}
				for k, q := range pool {
					if d == 0 && int64(k) != i%np {
						continue
					}
					x := g.cpA(r)
					g.setRaw(x, g.raw(g.a(q)))
					w := func() string { return fmt.Sprintf("receiver %d%s set to %v", i/np, trail, q) }
					g.isA(t, x, q, w)
					if !g.eqA(x, g.a(q)) || !g.eqA(g.a(q), x) {
						t.Failf("%s differs from it", w())
					}
					if d > 0 && !g.eqA(r, g.a(m)) {
						t.Failf("%s: the copied object changed", w())
					}
					rec(x, q, d+1, trail+fmt.Sprintf(" set to %v", q))
					g.negA(x)
					g.isA(t, x, q.neg(), func() string { return w() + " and negated" })
					if d+1 < depth {
						y := g.cpA(x)
						g.setRaw(y, g.raw(x))
						g.isA(t, y, q.neg(), func() string { return w() + ", negated, set to itself" })
					}
					t.Trans(1)
					t.State(1)
				}
			}
			rec(start(), g.inf, 0, "")
		}},
		{Name: name + "injective", N: 1, Run: func(t *core.T, i int64) {
			seen := map[string]int{}
			for k, p := range pts {
				e := string(g.raw(g.a(p)))
				if j, ok := seen[e]; ok && !pts[j].eq(p) {
					t.Failf("%v and %v have the same encoding", pts[j], p)
				}
				seen[e] = k
				t.Eval(true)
			}
			t.State(int64(len(seen)))
		}},
	}
}

func init() {
	core.Register("C11", func(tier string) []core.Space {
		return append(rawSpaces(g1g, tier), rawSpaces(g2g, tier)...)
	})
}
