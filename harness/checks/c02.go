package checks

import (
	"math/big"

	"verifharness/core"

	"github.com/phoreproject/bls"
)

func rmod(v *big.Int) *big.Int      { return new(big.Int).Mod(v, br) }
func rFromMont(v *big.Int) *big.Int { return rmod(mul(v, rInv256)) }

func frLimbs(set []uint64) []*big.Int {
	top := []uint64{0, 1, 0x73eda753299d7d47, 0x73eda753299d7d48, 1 << 62}
	return dedup(below(limbGrid(set, set, set, append(append([]uint64{}, set...), top...)), br))
}

func frBasic() []*big.Int {
	half := new(big.Int).Rsh(br, 1)
	v := nearList(3, bi(0), br, half, rmod(w256), rInv256)
	for k := uint(0); k < 256; k++ {
		v = append(v, pow2(k), sub(pow2(k), one), sub(br, pow2(k)))
	}
	return dedup(below(v, br))
}

func checkFRUnary(t *core.T, v *big.Int) {
	x := FR(v)
	if x == nil {
		t.Failf("%s < r was rejected", hexs(v))
	}
	is := func(op string, got *bls.FR, want *big.Int) {
		t.Eval(v.Cmp(one) > 0)
		if got == nil {
			t.Failf("%s of %s is nil", op, hexs(v))
		}
		if g := ofFR(got); g.Cmp(want) != 0 {
			t.Failf("%s of %s is %s, not %s", op, hexs(v), hexs(g), hexs(want))
		}
		if !got.IsValid() || !got.Equals(FR(want)) || got.IsZero() != (want.Sign() == 0) {
			t.Failf("%s of %s is not the canonical element for %s", op, hexs(v), hexs(want))
		}
	}
	is("conversion", x, v)
	b := x.Bytes()
	if new(big.Int).SetBytes(b[:]).Cmp(v) != 0 {
		t.Failf("bytes of %s are %x", hexs(v), b)
	}
	if f := bls.FRReprToFR(bls.FRReprFromBytes(b)); f == nil || ofFR(f).Cmp(v) != 0 {
		t.Failf("bytes of %s read back differently", hexs(v))
	}
	dbl := rmod(add(v, v))
	sq := rmod(mul(v, v))
	y := x.Copy()
	y.DoubleAssign()
	is("double", y, dbl)
	y = x.Copy()
	y.NegAssign()
	is("negation", y, rmod(new(big.Int).Neg(v)))
	y = x.Copy()
	y.SquareAssign()
	is("square", y, sq)
	y = x.Copy()
	y.MulAssign(x)
	is("product with itself", y, sq)
	y = x.Copy()
	y.MulAssign(y)
	is("self product", y, sq)
	y = x.Copy()
	y.AddAssign(y)
	is("self sum", y, dbl)
	y = x.Copy()
	y.SubAssign(y)
	is("self difference", y, bi(0))
	y = x.Copy()
	if x.Parity() != (v.Cmp(rmod(new(big.Int).Neg(v))) > 0) {
		t.Failf("parity of %s is wrong", hexs(v))
	}
	is("operand afterwards", x, v)
}

func checkFRHeavy(t *core.T, v *big.Int) {
	x := FR(v)
	t.Eval(true)
	inv := x.Inverse()
	if (inv != nil) != (v.Sign() != 0) {
		t.Failf("inverse of %s: %v", hexs(v), inv)
	}
	if inv != nil {
		if g := ofFR(inv); g.Cmp(new(big.Int).ModInverse(v, br)) != 0 || !inv.IsValid() {
			t.Failf("inverse of %s is %s", hexs(v), hexs(g))
		}
	}
	t.Eval(true)
	s := x.Sqrt()
	if (s != nil) != (big.Jacobi(v, br) >= 0) {
		t.Failf("square root of %s: found=%v", hexs(v), s != nil)
	}
	if s != nil {
		if g := ofFR(s); rmod(mul(g, g)).Cmp(v) != 0 {
			t.Failf("square root of %s is %s", hexs(v), hexs(g))
		}
	}
	t.Eval(true)
	if l := x.Legendre(); l != legendre(v, br) {
		t.Failf("Legendre symbol of %s is %d", hexs(v), l)
	}
	if g := ofFR(x); g.Cmp(v) != 0 {
		t.Failf("operand %s changed to %s", hexs(v), hexs(g))
	}
}

func checkFRPair(t *core.T, a, b *big.Int, x, y *bls.FR) {
	is := func(op string, got *bls.FR, want *big.Int) {
		t.Eval(a.Cmp(one) > 0 && b.Cmp(one) > 0)
		if g := ofFR(got); g.Cmp(want) != 0 {
			t.Failf("%s %s %s is %s, not %s", hexs(a), op, hexs(b), hexs(g), hexs(want))
		}
	}
	z := x.Copy()
	z.AddAssign(y)
	is("+", z, rmod(add(a, b)))
	z = x.Copy()
	z.SubAssign(y)
	is("-", z, rmod(sub(a, b)))
	z = x.Copy()
	z.MulAssign(y)
	is("*", z, rmod(mul(a, b)))
	if x.Cmp(y) != a.Cmp(b) {
		t.Failf("compare %s with %s gives %d", hexs(a), hexs(b), x.Cmp(y))
	}
	if x.Equals(y) != (a.Cmp(b) == 0) {
		t.Failf("equality of %s and %s gives %v", hexs(a), hexs(b), x.Equals(y))
	}
}

// frOps is the alphabet of the operation sequences: a register machine with
// two registers and the integer model of each operation.
type frOp struct {
	name  string
	impl  func(r []*bls.FR)
	model func(m []*big.Int)
}

func frOpsAlphabet() []frOp {
	inv := func(v *big.Int) *big.Int {
		if v.Sign() == 0 {
			return bi(0)
		}
		return new(big.Int).ModInverse(v, br)
	}
	return []frOp{
		{"a+=b", func(r []*bls.FR) { r[0].AddAssign(r[1]) }, func(m []*big.Int) { m[0] = rmod(add(m[0], m[1])) }},
		{"a-=b", func(r []*bls.FR) { r[0].SubAssign(r[1]) }, func(m []*big.Int) { m[0] = rmod(sub(m[0], m[1])) }},
		{"a*=b", func(r []*bls.FR) { r[0].MulAssign(r[1]) }, func(m []*big.Int) { m[0] = rmod(mul(m[0], m[1])) }},
		{"a*=a", func(r []*bls.FR) { r[0].MulAssign(r[0]) }, func(m []*big.Int) { m[0] = rmod(mul(m[0], m[0])) }},
		{"a=a^2", func(r []*bls.FR) { r[0].SquareAssign() }, func(m []*big.Int) { m[0] = rmod(mul(m[0], m[0])) }},
		{"a=2a", func(r []*bls.FR) { r[0].DoubleAssign() }, func(m []*big.Int) { m[0] = rmod(add(m[0], m[0])) }},
		{"a=-a", func(r []*bls.FR) { r[0].NegAssign() }, func(m []*big.Int) { m[0] = rmod(new(big.Int).Neg(m[0])) }},
		{"a-=a", func(r []*bls.FR) { r[0].SubAssign(r[0]) }, func(m []*big.Int) { m[0] = bi(0) }},
		{"a=1/a", func(r []*bls.FR) {
			if v := r[0].Inverse(); v != nil {
				r[0] = v
			} else {
				r[0] = FR(bi(0))
			}
		}, func(m []*big.Int) { m[0] = inv(m[0]) }},
		{"a=copy b", func(r []*bls.FR) { r[0] = r[1].Copy() }, func(m []*big.Int) { m[0] = m[1] }},
		{"swap", func(r []*bls.FR) { r[0], r[1] = r[1], r[0] }, func(m []*big.Int) { m[0], m[1] = m[1], m[0] }},
		{"a=a^5", func(r []*bls.FR) { r[0] = r[0].Exp(bls.NewFRRepr(5)) }, func(m []*big.Int) { m[0] = new(big.Int).Exp(m[0], bi(5), br) }},
		{"a=sqrt(a^2)^2", func(r []*bls.FR) {
			c := r[0].Copy()
			c.SquareAssign()
			s := c.Sqrt()
			s.SquareAssign()
			r[0] = s
		}, func(m []*big.Int) { m[0] = rmod(mul(m[0], m[0])) }},
		{"legendre/parity/bytes", func(r []*bls.FR) { r[0].Legendre(); r[0].Parity(); r[0].Bytes(); _ = r[0].String() }, func(m []*big.Int) {}},
		{"a=conv(a)", func(r []*bls.FR) {
			p := r[0].ToRepr()
			f := bls.FRReprToFR(p)
			f2 := bls.FRReprToFR(p)
			f2.AddAssign(f)
			r[0] = f
		}, func(m []*big.Int) {}},
		{"a=a*7", func(r []*bls.FR) { r[0] = r[0].MulBits(bls.NewFRRepr(7)) }, func(m []*big.Int) { m[0] = rmod(mul(m[0], bi(7))) }},
	}
}

func init() {
	core.Register("C02", func(tier string) []core.Space {
		thorough := tier == "thorough"
		basic := frBasic()
		set := []uint64{0, 1, 2, 1 << 32, 1<<32 - 1, 1 << 63, 1<<63 - 1, m64 - 1, m64}
		grid := frLimbs(set)
		pset := []uint64{0, 1, 1 << 32, 1 << 63, m64}
		if thorough {
			pset = []uint64{0, 1, 1 << 32, 1<<32 - 1, 1 << 63, m64 - 1, m64}
		}
		var pairs []*big.Int
		for _, v := range frLimbs(pset) {
			pairs = append(pairs, v, rFromMont(v))
		}
		for _, v := range below(nearList(3, bi(0), br, new(big.Int).Rsh(br, 1)), br) {
			pairs = append(pairs, v, rFromMont(v))
		}
		pairs = dedup(pairs)
		px := make([]*bls.FR, len(pairs))
		for i := range pairs {
			px[i] = FR(pairs[i])
		}
		var small []*big.Int
		for _, v := range append(frLimbs([]uint64{0, 1, 1 << 63, m64}), basic...) {
			small = append(small, v)
		}
		small = dedup(small)
		exps := nearList(3, bi(3), br, new(big.Int).Rsh(br, 1), pow2(64), pow2(128), pow2(192), sub(w256, bi(4)))
		for k := uint(0); k < 256; k += 2 {
			exps = append(exps, pow2(k))
		}
		for i := uint(0); i < 4; i++ {
			exps = append(exps, new(big.Int).Lsh(sub(w64, one), 64*i), sub(sub(w256, one), new(big.Int).Lsh(sub(w64, one), 64*i)))
		}
		exps = dedup(below(exps, w256))
		bases := []*big.Int{bi(0), bi(1), bi(2), sub(br, one), bi(0x1234567), rInv256, rFromMont(sub(pow2(254), one))}
		outside := dedup(append(append(nearList(3, add(br, bi(3)), sub(w256, bi(4)), mul(br, bi(2)), pow2(255)), limbsBig([]uint64{0, 0, 0, 0x73eda753299d7d49})), limbGrid([]uint64{0, m64}, []uint64{0, m64}, []uint64{0, m64}, []uint64{0x73eda753299d7d48, 0x73eda753299d7d49, 1 << 63, m64})...))
		ops := frOpsAlphabet()
		depth := 4
		if thorough {
			depth = 5
		}
		starts := [][2]*big.Int{{bi(3), bi(5)}, {sub(br, one), bi(1)}, {bi(0), rFromMont(sub(pow2(254), one))}}
		seqN := int64(len(starts))
		for i := 0; i < depth; i++ {
			seqN *= int64(len(ops))
		}
		// two-adic: elements whose square-root loop runs all its lengths
		var adic []*big.Int
		tt := new(big.Int).Rsh(sub(br, one), 32)
		g := new(big.Int).Exp(bi(7), tt, br)
		for k := 0; k <= 33; k++ {
			for _, m := range []int64{1, 4, 9, 25, 49} {
				adic = append(adic, rmod(mul(g, new(big.Int).Exp(bi(m), pow2(32), br))))
				adic = append(adic, rmod(mul(g, bi(m))))
			}
			g = rmod(mul(g, g))
		}
		adic = dedup(adic)
		return []core.Space{
			{Name: "unary/landmarks", N: int64(len(basic)), Run: func(t *core.T, i int64) {
				checkFRUnary(t, basic[i])
				checkFRUnary(t, rFromMont(basic[i]))
			}},
			{Name: "unary/limb-grid", N: int64(len(grid)), Portable: 2, Run: func(t *core.T, i int64) {
				if t.WantSample() {
					t.Sample("all unary and self operations on scalars with plain / Montgomery limbs %s", hexs(grid[i]))
				}
				checkFRUnary(t, grid[i])
				checkFRUnary(t, rFromMont(grid[i]))
			}},
			{Name: "heavy/inverse-sqrt-legendre", N: int64(len(small)), Portable: 4, Run: func(t *core.T, i int64) {
				checkFRHeavy(t, small[i])
				checkFRHeavy(t, rFromMont(small[i]))
				checkFRHeavy(t, rmod(mul(small[i], small[i])))
			}},
			{Name: "heavy/two-adic", N: int64(len(adic)), Run: func(t *core.T, i int64) { checkFRHeavy(t, adic[i]) }},
			{Name: "pairs/boundary-grid", N: int64(len(pairs)), Portable: 4, Run: func(t *core.T, i int64) {
				if t.WantSample() {
					t.Sample("%s +,-,*,compare each of the %d boundary scalars", hexs(pairs[i]), len(pairs))
				}
				for j := range pairs {
					checkFRPair(t, pairs[i], pairs[j], px[i], px[j])
				}
				if g := ofFR(px[i]); g.Cmp(pairs[i]) != 0 {
					t.Failf("operand %s changed to %s", hexs(pairs[i]), hexs(g))
				}
			}},
			{Name: "pairs/complements", N: int64(len(grid)), Portable: 4, Run: func(t *core.T, i int64) {
				a := grid[i]
				am := rFromMont(a)
				for d := int64(-2); d <= 2; d++ {
					b := rmod(add(sub(br, a), bi(d)))
					c := rmod(add(a, bi(d)))
					bm, cm := rFromMont(b), rFromMont(c)
					checkFRPair(t, a, b, FR(a), FR(b))
					checkFRPair(t, a, c, FR(a), FR(c))
					checkFRPair(t, am, bm, FR(am), FR(bm))
					checkFRPair(t, am, cm, FR(am), FR(cm))
				}
			}},
			{Name: "pairs/product-boundary", N: int64(len(small)), Portable: 4, Run: func(t *core.T, i int64) {
				d := rFromMont(small[i])
				for _, a := range basic {
					if a.Sign() == 0 {
						continue
					}
					b := rmod(mul(d, new(big.Int).ModInverse(a, br)))
					z := FR(a)
					z.MulAssign(FR(b))
					t.Eval(true)
					if g := ofFR(z); g.Cmp(d) != 0 {
						t.Failf("%s * %s is %s, not %s", hexs(a), hexs(b), hexs(g), hexs(d))
					}
				}
				if s := new(big.Int).ModSqrt(d, br); s != nil {
					checkFRUnary(t, s)
					checkFRUnary(t, rmod(new(big.Int).Neg(s)))
				}
			}},
			powersFR(),
			{Name: "exp-mulbits", N: int64(len(exps)), Portable: 4, Run: func(t *core.T, i int64) {
				e := R4(exps[i])
				for _, b := range bases {
					t.Eval(b.Cmp(one) > 0)
					x := FR(b)
					if g := ofFR(x.Exp(e)); g.Cmp(new(big.Int).Exp(b, exps[i], br)) != 0 {
						t.Failf("%s to the power %s is %s", hexs(b), hexs(exps[i]), hexs(g))
					}
					t.Eval(b.Cmp(one) > 0)
					if g := ofFR(x.MulBits(e)); g.Cmp(rmod(mul(b, exps[i]))) != 0 {
						t.Failf("MulBits: %s times %s is %s", hexs(b), hexs(exps[i]), hexs(g))
					}
					if ofR4(e).Cmp(exps[i]) != 0 || ofFR(x).Cmp(b) != 0 {
						t.Failf("an operand changed")
					}
				}
			}},
			{Name: "small-powers", N: 128, Portable: 2, Run: func(t *core.T, i int64) {
				x := FR(bi(i))
				for e := int64(0); e < 128; e++ {
					er := bls.NewFRRepr(uint64(e))
					t.Eval(true)
					if g := ofFR(x.Exp(er)); g.Cmp(new(big.Int).Exp(bi(i), bi(e), br)) != 0 {
						t.Failf("%d to the power %d is %s", i, e, hexs(g))
					}
					if g := ofFR(x.MulBits(er)); g.Cmp(bi(i*e)) != 0 {
						t.Failf("MulBits: %d times %d is %s", i, e, hexs(g))
					}
				}
			}},
			{Name: "range", N: int64(len(outside)), Run: func(t *core.T, i int64) {
				v := outside[i]
				r := R4(v)
				t.Eval(true)
				f := bls.FRReprToFR(r)
				if (f != nil) != (v.Cmp(br) < 0) {
					t.Failf("conversion of %s: accepted=%v", hexs(v), f != nil)
				}
				if f != nil && ofFR(f).Cmp(v) != 0 {
					t.Failf("conversion of %s gives %s", hexs(v), hexs(ofFR(f)))
				}
				if ofR4(r).Cmp(v) != 0 {
					t.Failf("conversion changed its argument %s", hexs(v))
				}
			}},
			{Name: "sequences", N: seqN, Portable: 16, Run: func(t *core.T, i int64) {
				st := starts[i%int64(len(starts))]
				k := i / int64(len(starts))
				m := []*big.Int{st[0], st[1]}
				r := []*bls.FR{FR(st[0]), FR(st[1])}
				names := ""
				for d := 0; d < depth; d++ {
					op := ops[k%int64(len(ops))]
					k /= int64(len(ops))
					names += op.name + "; "
					op.impl(r)
					op.model(m)
					t.Trans(1)
					for x := range m {
						if g := ofFR(r[x]); g.Cmp(m[x]) != 0 {
							t.Failf("from a=%s b=%s, after %s register %d is %s, not %s", hexs(st[0]), hexs(st[1]), names, x, hexs(g), hexs(m[x]))
						}
					}
				}
				t.Eval(true)
				if t.WantSample() {
					t.Sample("a=%s b=%s: %s", hexs(st[0]), hexs(st[1]), names)
				}
			}},
		}
	})
}
