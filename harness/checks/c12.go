package checks

import (
	"fmt"
	"math/big"
	"sync"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

var (
	multOnce sync.Once
	multK    int64
	multG    ref.F12
)

// pairBase is the model's value of pairing(G1, G2): the textbook reduced
// pairing raised to the one small multiple that the library uses, which is
// read off this single value and then holds for every other case.
func pairBase() (ref.F12, int64) {
	multOnce.Do(func() {
		got := bls.Pairing(J1(ref.G1, one), J2(ref.G2, ref.Int2(1, 0)))
		base := ref.Pairing(ref.G1, ref.G2, 1)
		up, down := ref.One12(), ref.One12()
		for k := int64(1); k <= 12; k++ {
			up = up.Mul(base)
			down = down.Mul(base.Conj())
			if got.Equals(FQ12(up)) {
				multK, multG = k, up
				return
			}
			if got.Equals(FQ12(down)) {
				multK, multG = -k, down
				return
			}
		}
	})
	if multK == 0 {
		panic("pairing(G1, G2) is no small multiple of the reduced ate pairing")
	}
	return multG, multK
}

var pairPow sync.Map

// pairExp is the model value of pairing(G1, G2)^k.
func pairExp(k *big.Int) ref.F12 {
	k = new(big.Int).Mod(k, br)
	if v, ok := pairPow.Load(k.String()); ok {
		return v.(ref.F12)
	}
	g, _ := pairBase()
	n := sub(br, k)
	var v ref.F12
	if n.Cmp(k) < 0 {
		v = g.Exp(n).Conj()
	} else {
		v = g.Exp(k)
	}
	pairPow.Store(k.String(), v)
	return v
}

func pairScalars(tier string) []*big.Int {
	v := []*big.Int{bi(0), bi(1), bi(2), bi(3), sub(br, one), sub(br, bi(2)), pow2(64), sub(pow2(128), one), new(big.Int).Rsh(br, 1), add(new(big.Int).Rsh(br, 1), one), ref.X}
	if tier == "thorough" {
		v = append(v, nearList(2, bi(8), pow2(32), pow2(63), pow2(64), pow2(127), pow2(128), pow2(192), pow2(254), new(big.Int).Rsh(br, 1), ref.X)...)
		for k := int64(0); k < 6; k++ {
			v = append(v, new(big.Int).Mod(genZ(100+k), br))
		}
	}
	var w []*big.Int
	for _, x := range v {
		w = append(w, new(big.Int).Mod(x, br))
	}
	return dedup(w)
}

// pairCase: one pairing of given representatives against the model.
func pairCase(t *core.T, a, b *big.Int, za, zb int) {
	p := g1g.gen.mul(a)
	q := g2g.gen.mul(b)
	P := g1g.j(p, za).(*bls.G1Projective)
	Q := g2g.j(q, zb).(*bls.G2Projective)
	sp, sq := P.String(), Q.String()
	what := fmt.Sprintf("pairing(%v G1, %v G2) with representatives %d, %d", a, b, za, zb)
	if t.WantSample() {
		t.Sample("%s", what)
	}
	got := bls.Pairing(P, Q)
	is12(t, what, got, pairExp(mul(a, b)))
	if P.String() != sp || Q.String() != sq {
		t.Failf("%s changed its arguments", what)
	}
	nontrivial := !p.inf() && !q.inf()
	t.Eval(nontrivial)
	if got.Equals(bls.FQ12One) == nontrivial {
		t.Failf("%s: equal to one is %v", what, !nontrivial)
	}
}

type mlItem struct{ a, b *big.Int }

func init() {
	core.Register("C12", func(tier string) []core.Space {
		thorough := tier == "thorough"
		ss := pairScalars(tier)
		n := int64(len(ss))
		var sp []core.Space
		add := func(s core.Space) { sp = append(sp, s) }
		add(core.Space{Name: "scalar pairs", N: n * n, Run: func(t *core.T, i int64) {
			pairCase(t, ss[i/n], ss[i%n], int(i), int(i/3))
		}})
		small := []*big.Int{bi(0), bi(1), sub(br, bi(2))}
		rz := int64(5)
		add(core.Space{Name: "representatives", N: 9 * rz * rz, Run: func(t *core.T, i int64) {
			c := i / (rz * rz)
			pairCase(t, small[c/3], small[c%3], int(i%rz), int(i/rz%rz))
		}})
		add(core.Space{Name: "doubling ladder", N: 256, Portable: 4, Run: func(t *core.T, i int64) {
			pairCase(t, pow2(uint(i)), bi(1), 1, 0)
			pairCase(t, bi(1), pow2(uint(i)), 0, 3)
		}})
		add(core.Space{Name: "textbook pairing", N: 12, Portable: 2, Run: func(t *core.T, i int64) {
			// points that are not written as multiples of the generators
			p := g1g.anyPoint(3 * i).mul(ref.H1)
			q := g2g.anyPoint(7 * i).mul(ref.H2)
			_, m := pairBase()
			mm := m
			if m < 0 {
				mm = -m
			}
			want := ref.Pairing(p.p1, q.p2, mm)
			if m < 0 {
				want = want.Conj()
			}
			got := bls.Pairing(g1g.j(p, int(i)).(*bls.G1Projective), g2g.j(q, int(i)).(*bls.G2Projective))
			is12(t, fmt.Sprintf("pairing of cleared points %d", i), got, want)
		}})
		// lists of pairs
		alpha := []mlItem{
			{bi(0), bi(1)}, {bi(1), bi(0)}, {bi(0), bi(0)}, {bi(1), bi(1)}, {sub(br, one), bi(1)}, {bi(1), sub(br, one)}, {bi(2), bi(3)}, {bi(5), sub(br, bi(7))},
		}
		depth := 3
		if thorough {
			depth = 4
		}
		var lists [][]int
		var gen func(l []int)
		gen = func(l []int) {
			lists = append(lists, append([]int{}, l...))
			if len(l) == depth {
				return
			}
			for k := range alpha {
				gen(append(append([]int{}, l...), k))
			}
		}
		gen(nil)
		for k := 4; k <= 12; k++ { // a few longer ones
			var l []int
			for j := 0; j < k; j++ {
				l = append(l, (j*j+k)%len(alpha))
			}
			lists = append(lists, l)
		}
		for _, k := range []int{13, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65} { // and long ones, infinity in every other residue
			var l []int
			for j := 0; j < k; j++ {
				l = append(l, (j*(j+3)/2+k)%len(alpha))
			}
			lists = append(lists, l)
		}
		// one member with infinity at each place of a list of 17, and one other member
		for k := 0; k < 17; k++ {
			l := []int{}
			for j := 0; j < 17; j++ {
				l = append(l, 3)
			}
			l[k] = k % 2
			l[(k+5)%17] = 7
			lists = append(lists, l)
		}
		add(core.Space{Name: "miller loop lists", N: int64(len(lists)), Run: func(t *core.T, i int64) {
			l := lists[i]
			// shared: equal members are the same objects
			shared := i%2 == 0
			objs := map[int]bls.MillerLoopItem{}
			var items []bls.MillerLoopItem
			sum := bi(0)
			for _, k := range l {
				it, ok := objs[k]
				if !ok || !shared {
					it = bls.MillerLoopItem{
						P: g1g.a(g1g.gen.mul(alpha[k].a)).(*bls.G1Affine),
						Q: bls.G2AffineToPrepared(g2g.a(g2g.gen.mul(alpha[k].b)).(*bls.G2Affine)),
					}
					objs[k] = it
				}
				items = append(items, it)
				sum = new(big.Int).Add(sum, mul(alpha[k].a, alpha[k].b))
			}
			before := make([]bls.MillerLoopItem, len(items))
			copy(before, items)
			f := inRoom(items, bls.MillerLoop).(*bls.FQ12)
			for j := range items {
				if items[j] != before[j] {
					t.Failf("the loop changed member %d of the list %v", j, l)
				}
				if !g1g.ofA(items[j].P).eq(g1g.gen.mul(alpha[l[j]].a)) || items[j].P.IsZero() != (alpha[l[j]].a.Sign() == 0) {
					t.Failf("the loop changed the point of member %d of the list %v", j, l)
				}
				if items[j].Q.IsZero() != (alpha[l[j]].b.Sign() == 0) {
					t.Failf("prepared point %d of the list %v: infinity is %v", j, l, items[j].Q.IsZero())
				}
			}
			is12(t, fmt.Sprintf("final exponentiation of the loop over %v", l), bls.FinalExponentiation(f), pairExp(sum))
			// the prepared points can be used again
			t.Eval(len(l) > 0)
			if f2 := bls.MillerLoop(items); !f2.Equals(f) {
				t.Failf("a second loop over the same list %v gives another result", l)
			}
		}})
		// comparisons
		cs := []*big.Int{bi(0), bi(1), bi(2), sub(br, one), bi(6), bi(3)}
		if thorough {
			cs = append(cs, new(big.Int).Rsh(new(big.Int).Add(br, one), 1), sub(br, bi(2)))
		}
		m := int64(len(cs))
		add(core.Space{Name: "compare two pairings", N: m * m * m * m, Portable: 3, Run: func(t *core.T, i int64) {
			a, b, c, d := cs[i%m], cs[i/m%m], cs[i/m/m%m], cs[i/m/m/m]
			P1 := g1g.j(g1g.gen.mul(a), int(i)).(*bls.G1Projective)
			Q1 := g2g.j(g2g.gen.mul(b), int(i/2)).(*bls.G2Projective)
			P2 := g1g.j(g1g.gen.mul(c), int(i/3)).(*bls.G1Projective)
			Q2 := g2g.j(g2g.gen.mul(d), int(i/5)).(*bls.G2Projective)
			s := P1.String() + Q1.String() + P2.String() + Q2.String()
			want := new(big.Int).Mod(sub(mul(a, b), mul(c, d)), br).Sign() == 0
			t.Eval(true)
			if got := bls.CompareTwoPairings(P1, Q1, P2, Q2); got != want {
				t.Failf("comparing (%v,%v) with (%v,%v) gives %v", a, b, c, d, got)
			}
			if P1.String()+Q1.String()+P2.String()+Q2.String() != s {
				t.Failf("comparing (%v,%v) with (%v,%v) changed its arguments", a, b, c, d)
			}
		}})
		add(core.Space{Name: "coming back to earlier pairs", N: 2, Run: func(t *core.T, i int64) {
			remember12(t, i == 1)
		}})
		// aliased arguments
		add(core.Space{Name: "compare with itself", N: m * m, Run: func(t *core.T, i int64) {
			P := g1g.j(g1g.gen.mul(cs[i%m]), int(i)).(*bls.G1Projective)
			Q := g2g.j(g2g.gen.mul(cs[i/m]), int(i/2)).(*bls.G2Projective)
			t.Eval(true)
			if !bls.CompareTwoPairings(P, Q, P, Q) {
				t.Failf("pairing (%v,%v) differs from itself", cs[i%m], cs[i/m])
			}
		}})
		// final exponentiation of structured elements
		els := finalExpElems(tier)
		add(core.Space{Name: "final exponentiation", N: int64(len(els)), Portable: 2, Run: func(t *core.T, i int64) {
			e := els[i]
			x := FQ12(e)
			s := x.String()
			got := bls.FinalExponentiation(x)
			if x.String() != s {
				t.Failf("final exponentiation of %s changed its argument", s12(e))
			}
			_, mult := pairBase()
			mm := mult
			if mm < 0 {
				mm = -mm
			}
			want, ok := ref.FinalExp(e, mm)
			t.Eval(ok)
			if (got != nil) != ok {
				t.Failf("final exponentiation of %s: result present is %v", s12(e), got != nil)
			}
			if !ok {
				return
			}
			if mult < 0 {
				want = want.Conj()
			}
			is12(t, "final exponentiation of "+s12(e), got, want)
		}})
		return sp
	})
}

// finalExpElems: zero, sparse elements, subfield elements, elements with equal
// or opposite halves, roots of unity, and general ones.
func finalExpElems(tier string) (out []ref.F12) {
	z := ref.Int2(0, 0)
	basis := func(k int, v ref.F2) ref.F12 {
		c := [6]ref.F2{z, z, z, z, z, z}
		c[k] = v
		return ref.FromBasis(c)
	}
	out = append(out, ref.Zero12(), ref.One12(), ref.One12().Neg())
	for k := 0; k < 6; k++ {
		out = append(out, basis(k, ref.Int2(1, 0)), basis(k, ref.Int2(0, 1)), basis(k, ref.MakeF2(genCoef(k), genCoef(k+7))))
	}
	for k := 0; k < 6; k++ {
		for l := 0; l < k; l++ {
			if tier == "thorough" || (k+l)%3 == 0 {
				out = append(out, basis(k, ref.Int2(2, 1)).Add(basis(l, ref.Int2(-1, 3))))
			}
		}
	}
	gen := func(o int) ref.F6 {
		return ref.F6{ref.MakeF2(genCoef(o), genCoef(o+1)), ref.MakeF2(genCoef(o+2), genCoef(o+3)), ref.MakeF2(genCoef(o+4), genCoef(o+5))}
	}
	a, b := gen(0), gen(6)
	out = append(out, ref.F12{a, ref.Zero6()}, ref.F12{ref.Zero6(), a}, ref.F12{a, a}, ref.F12{a, a.Neg()}, ref.F12{a, b}, ref.F12{b, a})
	g := ref.Pairing(ref.G1, ref.G2, 1)
	out = append(out, g, g.Conj(), ref.Miller(ref.G1, ref.G2))
	cyc := ref.F12{a, b}
	inv, _ := cyc.Inv()
	out = append(out, cyc.Conj().Mul(inv)) // order divides q^6+1
	if tier == "thorough" {
		for o := 12; o < 40; o += 2 {
			out = append(out, ref.F12{gen(o), gen(o + 1)})
		}
	}
	return
}
