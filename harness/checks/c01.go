package checks

import (
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

func toMont(v *big.Int) *big.Int   { return ref.Mod(mul(v, w384), bq) }
func fromMont(v *big.Int) *big.Int { return ref.Mod(mul(v, rInv384), bq) }

// fqBasic are the values around the arithmetic landmarks.
func fqBasic() []*big.Int {
	half := new(big.Int).Rsh(bq, 1)
	v := nearList(3, bi(0), bq, half, ref.Mod(w384, bq), rInv384)
	for k := uint(0); k < 384; k++ {
		v = append(v, pow2(k), sub(pow2(k), one), sub(bq, pow2(k)))
	}
	return dedup(below(v, bq))
}

// fqLimbs are all values below q made of boundary limbs.
func fqLimbs(set []uint64) []*big.Int {
	top := []uint64{0, 1, 0x0fffffffffffffff, 0x1000000000000000, 0x1a0111ea397fe699, 0x1a0111ea397fe69a}
	return dedup(below(limbGrid(set, set, set, set, set, top), bq))
}

// fqSet is the union of plain and Montgomery-domain boundary values, thinned.
func fqPairSet(tier string) []*big.Int {
	set := []uint64{0, 1, m64}
	if tier == "thorough" {
		set = []uint64{0, 1, 1 << 63, m64}
	}
	v := fqLimbs(set)
	var w []*big.Int
	for _, x := range v {
		w = append(w, x, fromMont(x))
	}
	half := new(big.Int).Rsh(bq, 1)
	n := nearList(3, bi(0), bq, half)
	for _, x := range below(n, bq) {
		w = append(w, x, fromMont(x))
	}
	// q shifted limb-wise: differences whose borrow runs through all limbs
	var ql [6]uint64
	bigLimbs(bq, ql[:])
	for i := 0; i < 6; i++ {
		for _, d := range []uint64{0, 1, m64} {
			l := ql
			l[i] += d
			for k := 0; k < i; k++ {
				l[k] = 0
			}
			w = append(w, limbsBig(l[:]), fromMont(ref.Mod(limbsBig(l[:]), bq)))
		}
	}
	for k := uint(1); k < 381; k += 19 {
		w = append(w, pow2(k), fromMont(pow2(k)))
	}
	return dedup(below(w, bq))
}

func legendre(v, m *big.Int) bls.LegendreSymbol {
	switch big.Jacobi(v, m) {
	case 0:
		return bls.LegendreZero
	case 1:
		return bls.LegendreQuadraticResidue
	}
	return bls.LegendreQuadraticNonResidue
}

func checkFQUnary(t *core.T, v *big.Int) {
	x := FQ(v)
	is := func(op string, got bls.FQ, want *big.Int) {
		t.Eval(v.Cmp(one) > 0)
		if g := ofFQ(got); g.Cmp(want) != 0 {
			t.Failf("%s of %s is %s, not %s", op, hexs(v), hexs(g), hexs(want))
		}
		if !got.IsValid() {
			t.Failf("%s of %s is not valid", op, hexs(v))
		}
		if !got.Equals(FQ(want)) || got.IsZero() != (want.Sign() == 0) {
			t.Failf("%s of %s does not equal the canonical element for its value %s", op, hexs(v), hexs(want))
		}
	}
	is("conversion", x, v)
	y := x.Copy()
	y.DoubleAssign()
	is("double", y, ref.Add(v, v))
	y = x
	y.NegAssign()
	is("negation", y, ref.Neg(v))
	y = x
	y.SquareAssign()
	sq := ref.Mul(v, v)
	is("square", y, sq)
	y = x
	y.MulAssign(x)
	is("self product", y, sq)
	y = x
	y.AddAssign(y)
	is("self sum", y, ref.Add(v, v))
	y = x
	y.SubAssign(y)
	is("self difference", y, bi(0))
	if x.Parity() != (v.Cmp(ref.Neg(v)) > 0) {
		t.Failf("parity of %s is wrong", hexs(v))
	}
	is("operand afterwards", x, v)
}

func checkFQHeavy(t *core.T, v *big.Int) {
	x := FQ(v)
	inv, ok := x.Inverse()
	t.Eval(true)
	if ok != (v.Sign() != 0) {
		t.Failf("inverse of %s: success=%v", hexs(v), ok)
	}
	if ok {
		if g := ofFQ(inv); g.Cmp(ref.Inv(v)) != 0 {
			t.Failf("inverse of %s is %s", hexs(v), hexs(g))
		}
		if !inv.IsValid() {
			t.Failf("inverse of %s is not valid", hexs(v))
		}
		d := FQ(bi(3))
		d.DivAssign(x)
		if g := ofFQ(d); g.Cmp(ref.Mul(bi(3), ref.Inv(v))) != 0 {
			t.Failf("3 / %s is %s", hexs(v), hexs(g))
		}
	}
	t.Eval(true)
	s, ok := x.Sqrt()
	if ok != ref.IsSquare(v) {
		t.Failf("square root of %s: success=%v", hexs(v), ok)
	}
	if ok {
		if g := ofFQ(s); ref.Mul(g, g).Cmp(v) != 0 {
			t.Failf("square root of %s is %s", hexs(v), hexs(g))
		}
	}
	t.Eval(true)
	if l := x.Legendre(); l != legendre(v, bq) {
		t.Failf("Legendre symbol of %s is %d", hexs(v), l)
	}
	if x2 := ofFQ(x); x2.Cmp(v) != 0 {
		t.Failf("operand %s changed", hexs(v))
	}
}

func checkFQPair(t *core.T, a, b *big.Int, x, y bls.FQ) {
	is := func(op string, got bls.FQ, want *big.Int) {
		t.Eval(a.Cmp(one) > 0 && b.Cmp(one) > 0)
		if g := ofFQ(got); g.Cmp(want) != 0 {
			t.Failf("%s %s %s is %s, not %s", hexs(a), op, hexs(b), hexs(g), hexs(want))
		}
	}
	z := x
	z.AddAssign(y)
	is("+", z, ref.Add(a, b))
	z = x
	z.SubAssign(y)
	is("-", z, ref.Sub(a, b))
	z = x
	z.MulAssign(y)
	is("*", z, ref.Mul(a, b))
	if x.Cmp(y) != a.Cmp(b) {
		t.Failf("compare %s with %s gives %d", hexs(a), hexs(b), x.Cmp(y))
	}
	if x.Equals(y) != (a.Cmp(b) == 0) {
		t.Failf("equality of %s and %s gives %v", hexs(a), hexs(b), x.Equals(y))
	}
}

func init() {
	core.Register("C01", func(tier string) []core.Space {
		thorough := tier == "thorough"
		basic := fqBasic()
		set := []uint64{0, 1, 1 << 63, m64 - 1, m64}
		smallSet := []uint64{0, m64}
		if thorough {
			set = []uint64{0, 1, 1 << 32, 1<<32 - 1, 1 << 63, 1<<63 - 1, m64 - 1, m64}
			smallSet = []uint64{0, 1, m64}
		}
		limbs := fqLimbs(set)
		pairs := fqPairSet(tier)
		px := make([]bls.FQ, len(pairs))
		for i := range pairs {
			px[i] = FQ(pairs[i])
		}
		small := []*big.Int{}
		small = append(small, basic...)
		for i, v := range fqLimbs(smallSet) {
			_ = i
			small = append(small, v, fromMont(v))
		}
		small = dedup(small)
		// exponents: bit patterns of the full 384 bits
		exps := nearList(2, bi(2), bq, new(big.Int).Rsh(bq, 1), pow2(64), pow2(128), pow2(320), sub(w384, bi(3)))
		for k := uint(0); k < 384; k += 3 {
			exps = append(exps, pow2(k))
		}
		for i := uint(0); i < 6; i++ {
			exps = append(exps, new(big.Int).Lsh(sub(w64, one), 64*i), sub(sub(w384, one), new(big.Int).Lsh(sub(w64, one), 64*i)))
		}
		exps = dedup(below(exps, w384))
		bases := []*big.Int{bi(0), bi(1), bi(2), sub(bq, one), bi(0x1234567), rInv384, fromMont(sub(pow2(380), one))}
		invalid := dedup(append(nearList(2, add(bq, bi(2)), sub(w384, bi(3)), pow2(381), pow2(383), mul(bq, bi(2))), add(bq, pow2(64)), add(bq, pow2(320)), limbsBig([]uint64{0, 0, 0, 0, 0, 0x1a0111ea397fe69b})))
		return []core.Space{
			{Name: "unary/landmarks", N: int64(len(basic)), Run: func(t *core.T, i int64) {
				checkFQUnary(t, basic[i])
				checkFQUnary(t, fromMont(basic[i]))
			}},
			{Name: "unary/limb-grid", N: int64(len(limbs)), Portable: 2, Run: func(t *core.T, i int64) {
				if t.WantSample() {
					t.Sample("double, negate, square, self-operations of the elements whose plain and whose Montgomery limbs are %s", hexs(limbs[i]))
				}
				checkFQUnary(t, limbs[i])
				checkFQUnary(t, fromMont(limbs[i]))
			}},
			{Name: "heavy/inverse-sqrt-legendre", N: int64(len(small)), Portable: 4, Run: func(t *core.T, i int64) {
				if t.WantSample() {
					t.Sample("inverse, quotient, square root and Legendre symbol of %s and of its square", hexs(small[i]))
				}
				checkFQHeavy(t, small[i])
				checkFQHeavy(t, fromMont(small[i]))
				checkFQHeavy(t, ref.Mul(small[i], small[i]))
			}},
			{Name: "pairs/boundary-grid", N: int64(len(pairs)), Portable: 4, Run: func(t *core.T, i int64) {
				if t.WantSample() {
					t.Sample("%s +,-,*,compare each of the %d boundary elements", hexs(pairs[i]), len(pairs))
				}
				for j := range pairs {
					checkFQPair(t, pairs[i], pairs[j], px[i], px[j])
				}
			}},
			{Name: "pairs/complements", N: int64(len(limbs)), Portable: 4, Run: func(t *core.T, i int64) {
				// sums and differences that land next to 0 and q, in both domains
				a := limbs[i]
				for d := int64(-2); d <= 2; d++ {
					b := ref.Mod(add(sub(bq, a), bi(d)), bq)
					checkFQPair(t, a, b, FQ(a), FQ(b))
					c := ref.Mod(add(a, bi(d)), bq)
					checkFQPair(t, a, c, FQ(a), FQ(c))
					am, bm, cm := fromMont(a), fromMont(b), fromMont(c)
					checkFQPair(t, am, bm, FQ(am), FQ(bm))
					checkFQPair(t, am, cm, FQ(am), FQ(cm))
				}
			}},
			{Name: "pairs/product-boundary", N: int64(len(small)), Portable: 4, Run: func(t *core.T, i int64) {
				// products, squares and quotients whose unreduced Montgomery
				// result lands next to q or 2q or on a limb boundary
				d := fromMont(small[i])
				for _, a := range basic {
					if a.Sign() == 0 {
						continue
					}
					b := ref.Mul(d, ref.Inv(a))
					z := FQ(a)
					z.MulAssign(FQ(b))
					t.Eval(true)
					if g := ofFQ(z); g.Cmp(d) != 0 {
						t.Failf("%s * %s is %s, not %s", hexs(a), hexs(b), hexs(g), hexs(d))
					}
				}
				if s := ref.Sqrt(d); s != nil {
					checkFQUnary(t, s)
					checkFQUnary(t, ref.Neg(s))
				}
			}},
			powersFQ(),
			{Name: "exp", N: int64(len(exps)), Portable: 4, Run: func(t *core.T, i int64) {
				for _, b := range bases {
					e := Q6(exps[i])
					t.Eval(b.Cmp(one) > 0)
					if g := ofFQ(FQ(b).Exp(e)); g.Cmp(new(big.Int).Exp(b, exps[i], bq)) != 0 {
						t.Failf("%s to the power %s is %s", hexs(b), hexs(exps[i]), hexs(g))
					}
					f := FQ(b)
					t.Eval(b.Cmp(one) > 0)
					if g := ofFQ(f.MulBits(&e)); g.Cmp(ref.Mul(b, ref.Mod(exps[i], bq))) != 0 {
						t.Failf("MulBits: %s times %s is %s", hexs(b), hexs(exps[i]), hexs(g))
					}
					if ofQ6(e).Cmp(exps[i]) != 0 {
						t.Failf("exponent changed")
					}
				}
			}},
			{Name: "small-powers", N: 128, Portable: 2, Run: func(t *core.T, i int64) {
				// all pairs of a small base and a small exponent
				for e := int64(0); e < 128; e++ {
					er := Q6(bi(e))
					t.Eval(true)
					if g := ofFQ(FQ(bi(i)).Exp(er)); g.Cmp(new(big.Int).Exp(bi(i), bi(e), bq)) != 0 {
						t.Failf("%d to the power %d is %s", i, e, hexs(g))
					}
					f := FQ(bi(i))
					if g := ofFQ(f.MulBits(&er)); g.Cmp(bi(i*e)) != 0 {
						t.Failf("MulBits: %d times %d is %s", i, e, hexs(g))
					}
				}
			}},
			{Name: "invalid-integers", N: int64(len(invalid)), Run: func(t *core.T, i int64) {
				v := invalid[i]
				t.Eval(true)
				if f := FQ(v); v.Cmp(bq) >= 0 && !f.IsZero() {
					t.Failf("integer %s >= q became the element %s", hexs(v), hexs(ofFQ(f)))
				} else if v.Cmp(bq) < 0 && ofFQ(f).Cmp(v) != 0 {
					t.Failf("integer %s < q became the element %s", hexs(v), hexs(ofFQ(f)))
				}
			}},
		}
	})
}
