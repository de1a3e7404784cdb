package checks

import (
	"math/big"

	"verifharness/core"
	"verifharness/ref"
)

// coincident lists families of points whose coordinates agree in part: the same
// x, the same y, and on the twist also the same half of one of them.
func coincident(g *grp, n int64) (out [][]pt) {
	if g.id == 1 {
		for k := int64(1); k <= n; k++ {
			p := g.gen.mul(bi(k))
			if k%2 == 0 {
				p = p.add(g.torsion(11)[1])
			}
			x, y := p.p1.X, p.p1.Y
			var f []pt
			for i := 0; i < 3; i++ {
				for _, v := range []*big.Int{y, ref.Neg(y)} {
					f = append(f, pt{g: 1, p1: ref.P1{X: x, Y: v}})
				}
				x = ref.Mul(x, beta)
			}
			out = append(out, f)
		}
		return
	}
	mk := func(x, y ref.F2) pt { return pt{g: 2, p2: ref.P2{X: x, Y: y}} }
	both := func(f []pt, x, y ref.F2) []pt { return append(f, mk(x, y), mk(x, y.Neg())) }
	atX := func(f []pt, x ref.F2) []pt {
		if y, ok := ref.RHS2(x).Sqrt(); ok {
			f = both(f, x, y)
		}
		return f
	}
	atY := func(f []pt, y ref.F2) []pt {
		x, ok := cbrt2(y.Sqr().Sub(ref.B2))
		for i := 0; ok && i < 3; i++ {
			f = both(f, x, y)
			x = x.Scale(beta)
		}
		return f
	}
	var bases []pt
	for k := int64(1); int64(len(bases)) < n; k++ {
		bases = append(bases, g.gen.mul(bi(k)))
	}
	for _, p := range bases {
		x, y := p.p2.X, p.p2.Y
		f := both(nil, x, y)
		f = both(f, x.Scale(beta), y)
		f = both(f, x.Scale(beta).Scale(beta), y)
		for k := int64(1); k <= 6; k++ {
			f = atX(f, ref.MakeF2(x.A, ref.Add(x.B, bi(k))))
			f = atX(f, ref.MakeF2(ref.Add(x.A, bi(k)), x.B))
		}
		for k := int64(1); k <= 6; k++ {
			f = atY(f, ref.MakeF2(y.A, ref.Add(y.B, bi(k))))
			f = atY(f, ref.MakeF2(ref.Add(y.A, bi(k)), y.B))
		}
		f = atX(f, ref.MakeF2(x.A, ref.Neg(x.B)))
		f = atX(f, ref.MakeF2(ref.Neg(x.A), x.B))
		f = atX(f, ref.MakeF2(x.B, x.A))
		f = atX(f, ref.MakeF2(ref.Neg(x.B), ref.Neg(x.A)))
		f = atX(f, x.Neg())
		f = atY(f, y.Conj())
		f = atY(f, ref.MakeF2(y.B, y.A))
		out = append(out, f)
	}
	// x or y in the base field or purely imaginary: the same y and the same half of x, and the other way round
	for im := 0; im < 2; im++ {
		for k, found := int64(1), int64(0); found < n && k < 400; k++ {
			x := ref.Int2(k, 0)
			if im == 1 {
				x = ref.Int2(0, k)
			}
			f := atX(nil, x)
			if f == nil {
				continue
			}
			f = atX(atX(f, x.Scale(beta)), x.Scale(beta).Scale(beta))
			f = atX(f, x.Neg())
			for j := int64(1); j < 5; j++ {
				if im == 1 {
					f = atX(f, ref.Int2(0, k+j))
				} else {
					f = atX(f, ref.Int2(k+j, 0))
				}
			}
			out = append(out, f)
			found++
		}
		for k, found := int64(1), int64(0); found < n && k < 400; k++ {
			y := ref.Int2(k, 0)
			if im == 1 {
				y = ref.Int2(0, k)
			}
			f := atY(nil, y)
			if f == nil {
				continue
			}
			for j := int64(1); j < 8; j++ {
				if im == 1 {
					f = atY(f, ref.Int2(0, k+j))
				} else {
					f = atY(f, ref.Int2(k+j, 0))
				}
			}
			out = append(out, f)
			found++
		}
	}
	return
}

// coincidentSpace applies the group laws to every pair of points with partly
// equal coordinates.
func coincidentSpace(g *grp, tier string) core.Space {
	n := int64(4)
	if tier == "thorough" {
		n = 24
	}
	if g.id == 1 {
		n *= 10
	}
	fam := coincident(g, n)
	for _, f := range fam {
		for _, p := range f {
			if !p.onCurve() {
				panic("model: coincident point off the curve")
			}
		}
	}
	return core.Space{Name: "pairs with partly equal coordinates", N: int64(len(fam)), Portable: 3, Run: func(t *core.T, i int64) {
		f := fam[i]
		for _, p := range f {
			g.single(t, p)
			for _, q := range f {
				s := p.add(q)
				for _, z := range [][2]int{{0, 0}, {3, 0}, {0, 1}, {2, 3}} {
					g.pairLaw(t, p, q, s, z[0], z[1])
				}
			}
		}
		t.State(int64(len(f)))
		if t.WantSample() {
			t.Sample("all pairs of %d points that share coordinates or halves of them with %v", len(f), f[0])
		}
	}}
}
