package checks

import (
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// scalars for the multiplication checks.
func mulScalars(tier string) []*big.Int {
	v := nearList(3, bi(0), ref.R, mul(ref.R, bi(2)), pow2(255), pow2(256), pow2(384), ref.Q)
	v = append(v, nearList(1, ref.H1, mul(ref.R, bi(3)), pow2(64), pow2(128), pow2(192), pow2(320), new(big.Int).Rsh(ref.R, 1))...)
	for k := uint(3); k < 384; k += 13 {
		v = append(v, pow2(k), sub(pow2(k), one))
	}
	// alternating bits, a limb of zeros in the middle
	v = append(v, limbsBig([]uint64{0xaaaaaaaaaaaaaaaa, 0xaaaaaaaaaaaaaaaa, 0xaaaaaaaaaaaaaaaa, 0x2aaaaaaaaaaaaaaa}),
		limbsBig([]uint64{0x5555555555555555, 0, 0, 0x5555555555555555}),
		limbsBig([]uint64{1, 0, 0, 0, 0, 1 << 63}), limbsBig([]uint64{0, 0, 0, 1}), limbsBig([]uint64{m64, m64, 0, m64, 0, m64}))
	if tier == "thorough" {
		for k := uint(0); k < 384; k++ {
			v = append(v, pow2(k), sub(pow2(k), one), add(pow2(k), one))
		}
		v = append(v, limbGrid([]uint64{0, 1, m64}, []uint64{0, m64}, []uint64{0, 1}, []uint64{0, 1, 1 << 62}, []uint64{0}, []uint64{0, 1})...)
	}
	return dedup(below(v, pow2(384)))
}

// mulPoints: subgroup, small order, mixed order and infinite points.
func mulPoints(g *grp, tier string) []pt {
	l, l2 := int64(11), int64(3)
	if g.id == 2 {
		l, l2 = 13, 23
	}
	out := []pt{g.gen, g.inf, g.gen.neg().add(g.ofOrder(l, 1)), g.ofOrder(l, 1), g.ofOrder(l2, 1), g.anyPoint(100)}
	if tier == "thorough" {
		out = append(out, g.gen.mul(bi(77)), g.anyPoint(300), g.anyPoint(301).mul(g.h), g.anyPoint(17).mul(ref.R))
	}
	return out
}

// checkMul compares every entry point on one scalar with k*P.
func (g *grp) checkMul(t *core.T, p pt, k *big.Int) {
	want := p.mul(k)
	w := func(s string) func() string {
		return func() string { return fmt.Sprintf("%s: %s * %v", s, hexs(k), p) }
	}
	a := g.a(p)
	n := 3
	if p.inf() {
		n = g.infs
	}
	q := Q6(k)
	g.isJ(t, g.mulA(a, q), want, w("affine 384-bit"))
	for z := 0; z < n; z++ {
		x := g.j(p, z)
		g.isJ(t, g.mulJ(x, q), want, w("projective 384-bit"))
		if z > 0 {
			g.isJ(t, x, p, w("operand after"))
		}
	}
	if ofQ6(q).Cmp(k) != 0 {
		t.Failf("scalar %s changed", hexs(k))
	}
	if k.Cmp(w256) < 0 {
		r := R4(k)
		g.isJ(t, g.frA(a, r), want, w("affine 256-bit"))
		g.isJ(t, g.frJ(g.j(p, 3), r), want, w("projective 256-bit"))
		if ofR4(r).Cmp(k) != 0 {
			t.Failf("scalar %s changed", hexs(k))
		}
	}
	if g.id == 2 {
		g.checkBig(t, p, k, want)
	}
	g.isA(t, a, p, w("operand after"))
}

func (g *grp) checkBig(t *core.T, p pt, k *big.Int, want pt) {
	kk := new(big.Int).Set(k)
	a := A2(p.p2)
	g.isJ(t, a.MulBig(*kk), want, func() string { return fmt.Sprintf("arbitrary precision: %s * %v", hexs(k), p) })
	if kk.Cmp(k) != 0 {
		t.Failf("scalar %s changed to %s", hexs(k), hexs(kk))
	}
	g.isA(t, a, p, func() string { return "operand afterwards" })
}

// mulSpaces lists the spaces of one group.
func mulSpaces(g *grp, tier string) []core.Space {
	ks := mulScalars(tier)
	ps := mulPoints(g, tier)
	np := int64(len(ps))
	name := fmt.Sprintf("g%d-", g.id)
	l := int64(11)
	if g.id == 2 {
		l = 13
	}
	tor := g.torsion(l)
	limit := int64(300)
	if tier == "thorough" {
		limit = 5000
	}
	// points for the subgroup test: every component combination
	var subs []pt
	orders := []int64{3, 11, 10177}
	if g.id == 2 {
		orders = []int64{13, 23, 2713}
	}
	for _, m := range []int64{0, 1, 2, 12345} {
		base := g.gen.mul(bi(m))
		subs = append(subs, base)
		for _, o := range orders {
			s := g.ofOrder(o, 1)
			subs = append(subs, base.add(s), base.add(s.neg()))
		}
	}
	for k := int64(0); k < 12; k++ {
		subs = append(subs, g.anyPoint(1000*k), g.anyPoint(1000*k+500).mul(g.h))
	}
	subs = append(subs, tor...)
	if g.id == 2 {
		subs = append(subs, tiePoints()...)
	}
	var clear []pt
	clear = append(clear, subs[:40]...)
	clear = append(clear, g.inf, g.gen.neg())
	port := int64(6)
	if g.id == 2 {
		port = 12
	}
	out := []core.Space{
		{Name: name + "scalars", N: int64(len(ks)) * np, Portable: port, Run: func(t *core.T, i int64) {
			g.checkMul(t, ps[i%np], ks[i/np])
			if t.WantSample() {
				t.Sample("%s times %v by every entry point", hexs(ks[i/np]), ps[i%np])
			}
		}},
		// every scalar from 0 on, the oracle being repeated addition
		{Name: name + "coming-back", N: 6, Run: func(t *core.T, i int64) {
			g.remember9(t, int(i))
		}},
		{Name: name + "small-scalars", N: np, Portable: 1, Run: func(t *core.T, i int64) {
			p := ps[i]
			want := g.inf
			a := g.a(p)
			x := g.j(p, 3)
			for k := int64(0); k < limit; k++ {
				w := func() string { return fmt.Sprintf("%d * %v", k, p) }
				q := Q6(bi(k))
				g.isJ(t, g.mulA(a, q), want, w)
				g.isJ(t, g.mulJ(x, q), want, w)
				g.isJ(t, g.frA(a, R4(bi(k))), want, w)
				g.isJ(t, g.frJ(x, R4(bi(k))), want, w)
				want = want.add(p)
				t.State(1)
			}
		}},
		// every multiple of every point of a small subgroup
		{Name: name + "small-subgroup", N: int64(len(tor)), Portable: 4, Run: func(t *core.T, i int64) {
			p := tor[i]
			for k := int64(0); k <= 2*l+1; k++ {
				want := p.mul(bi(k))
				w := func() string { return fmt.Sprintf("%d * %v", k, p) }
				q := Q6(bi(k))
				g.isJ(t, g.mulA(g.a(p), q), want, w)
				g.isJ(t, g.mulJ(g.j(p, int(k)), q), want, w)
				g.isJ(t, g.frA(g.a(p), R4(bi(k))), want, w)
				g.isJ(t, g.frJ(g.j(p, int(k)), R4(bi(k))), want, w)
				t.State(1)
			}
		}},
		{Name: name + "membership", N: int64(len(subs)), Portable: 4, Run: func(t *core.T, i int64) {
			p := subs[i]
			a := g.a(p)
			want := p.mul(ref.R).inf()
			t.Eval(true)
			if r := g.inSub(a); r != want {
				t.Failf("subgroup test of %v gives %v", p, r)
			}
			g.isA(t, a, p, func() string { return "operand afterwards" })
			if t.WantSample() {
				t.Sample("membership of %v: %v", p, want)
			}
		}},
		{Name: name + "cofactor", N: int64(len(clear)), Portable: 4, Run: func(t *core.T, i int64) {
			p := clear[i]
			a := g.a(p)
			want := p.mul(g.h)
			if !want.mul(ref.R).inf() {
				panic("model cofactor is wrong")
			}
			got := g.scale(a)
			g.isJ(t, got, want, func() string { return fmt.Sprintf("cofactor times %v", p) })
			t.Eval(true)
			if !g.inSub(g.toA(got)) {
				t.Failf("cofactor times %v is not in the subgroup", p)
			}
			g.isA(t, a, p, func() string { return "operand afterwards" })
			if g.id == 1 {
				// the hash construction's own clearing: times 1-x
				c := bls.ClearH(a.(*bls.G1Affine))
				g.isA(t, c, p.mul(ref.HEff1), func() string { return fmt.Sprintf("cleared %v", p) })
			}
		}},
	}
	out = append(out, digitSpace(g, tier))
	if g.id == 2 {
		bigs := []*big.Int{bi(0), one, pow2(384), add(pow2(384), one), sub(pow2(640), one), g.h, mul(g.h, ref.R), add(mul(g.h, ref.R), one), ref.HEff2, pow2(511), add(pow2(1000), bi(7))}
		nb := int64(len(bigs))
		out = append(out, core.Space{Name: name + "big-scalars", N: nb * np, Portable: 6, Run: func(t *core.T, i int64) {
			p, k := ps[i%np], bigs[i/np]
			g.checkBig(t, p, k, p.mul(k))
		}})
	}
	return out
}

func init() {
	core.Register("C09", func(tier string) []core.Space {
		return append(mulSpaces(g1g, tier), mulSpaces(g2g, tier)...)
	})
}
