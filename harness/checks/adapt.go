// Package checks holds, per property, the spaces that are enumerated and the
// oracle of each. It uses only the exported API of the packages under test.
package checks

import (
	"math/big"
	"sort"

	"verifharness/ref"

	"github.com/phoreproject/bls"
)

var (
	bq   = ref.Q
	br   = ref.R
	one  = big.NewInt(1)
	w64  = new(big.Int).Lsh(one, 64)
	w256 = new(big.Int).Lsh(one, 256)
	w384 = new(big.Int).Lsh(one, 384)
	// rInv384 is 2^-384 mod q, rInv256 is 2^-256 mod r.
	rInv384 = new(big.Int).ModInverse(w384, ref.Q)
	rInv256 = new(big.Int).ModInverse(w256, ref.R)
)

const m64 = ^uint64(0)

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func pow2(k uint) *big.Int       { return new(big.Int).Lsh(one, k) }
func bi(v int64) *big.Int        { return big.NewInt(v) }

func limbsBig(l []uint64) *big.Int {
	b := make([]byte, 8*len(l))
	for i, x := range l {
		for k := 0; k < 8; k++ {
			b[len(b)-1-8*i-k] = byte(x >> (8 * uint(k)))
		}
	}
	return new(big.Int).SetBytes(b)
}

func bigLimbs(v *big.Int, l []uint64) {
	b := make([]byte, 8*len(l))
	v.FillBytes(b)
	for i := range l {
		x := uint64(0)
		for k := 7; k >= 0; k-- {
			x = x<<8 | uint64(b[len(b)-1-8*i-k])
		}
		l[i] = x
	}
}

// Q6 makes the 384-bit representation of an integer.
func Q6(v *big.Int) (r bls.FQRepr) {
	bigLimbs(v, r[:])
	return
}

// R4 makes the 256-bit representation of an integer.
func R4(v *big.Int) *bls.FRRepr {
	var r bls.FRRepr
	bigLimbs(v, r[:])
	return &r
}

func ofQ6(r bls.FQRepr) *big.Int  { return limbsBig(r[:]) }
func ofR4(r *bls.FRRepr) *big.Int { return limbsBig(r[:]) }

// FQ makes a field element.
func FQ(v *big.Int) bls.FQ { return bls.FQReprToFQ(Q6(v)) }

func ofFQ(f bls.FQ) *big.Int { return ofQ6(f.ToRepr()) }

// FR makes a scalar.
func FR(v *big.Int) *bls.FR { return bls.FRReprToFR(R4(v)) }

func ofFR(f *bls.FR) *big.Int { return ofR4(f.ToRepr()) }

// FQ2 makes an element of the quadratic extension.
func FQ2(f ref.F2) bls.FQ2 { return bls.NewFQ2(FQ(f.A), FQ(f.B)) }

// ofFQ2 reads the coordinates through the uncompressed G2 encoding.
func ofFQ2(f bls.FQ2) ref.F2 {
	b := bls.NewG2Affine(f, f).SerializeBytes()
	return ref.F2{A: new(big.Int).SetBytes(b[:48]), B: new(big.Int).SetBytes(b[48:96])}
}

// FQ6 makes an element of the sextic extension.
func FQ6(f ref.F6) *bls.FQ6 { return bls.NewFQ6(FQ2(f[0]), FQ2(f[1]), FQ2(f[2])) }

// FQ12 makes an element of the dodecic extension.
func FQ12(f ref.F12) *bls.FQ12 { return bls.NewFQ12(FQ6(f[0]), FQ6(f[1])) }

// A1 makes an affine point.
func A1(p ref.P1) *bls.G1Affine {
	if p.Inf {
		return bls.G1AffineZero.Copy()
	}
	return bls.NewG1Affine(FQ(p.X), FQ(p.Y))
}

// A2 makes an affine point.
func A2(p ref.P2) *bls.G2Affine {
	if p.Inf {
		return bls.G2AffineZero.Copy()
	}
	return bls.NewG2Affine(FQ2(p.X), FQ2(p.Y))
}

// J1 makes a projective point with the given Z (zero makes infinity with
// coordinates t^2, t^3, 0 from z2).
func J1(p ref.P1, z *big.Int) *bls.G1Projective {
	if p.Inf {
		// (t^2, t^3, 0)
		zz := ref.Mul(z, z)
		return bls.NewG1Projective(FQ(zz), FQ(ref.Mul(zz, z)), FQ(bi(0)))
	}
	zz := ref.Mul(z, z)
	return bls.NewG1Projective(FQ(ref.Mul(p.X, zz)), FQ(ref.Mul(p.Y, ref.Mul(zz, z))), FQ(z))
}

// J2 is the same on the twist.
func J2(p ref.P2, z ref.F2) *bls.G2Projective {
	zz := z.Sqr()
	if p.Inf {
		return bls.NewG2Projective(FQ2(zz), FQ2(zz.Mul(z)), FQ2(ref.Int2(0, 0)))
	}
	return bls.NewG2Projective(FQ2(p.X.Mul(zz)), FQ2(p.Y.Mul(zz.Mul(z))), FQ2(z))
}

func ofA1(p *bls.G1Affine) ref.P1 {
	if p.IsZero() {
		return ref.Inf1()
	}
	b := p.SerializeBytes()
	return ref.P1{X: new(big.Int).SetBytes(b[:48]), Y: new(big.Int).SetBytes(b[48:])}
}

func ofA2(p *bls.G2Affine) ref.P2 {
	if p.IsZero() {
		return ref.Inf2()
	}
	b := p.SerializeBytes()
	f := func(i int) *big.Int { return new(big.Int).SetBytes(b[48*i : 48*i+48]) }
	return ref.P2{X: ref.F2{A: f(0), B: f(1)}, Y: ref.F2{A: f(2), B: f(3)}}
}

func ofJ1(p *bls.G1Projective) ref.P1 {
	if p.IsZero() {
		return ref.Inf1()
	}
	return ofA1(p.ToAffine())
}

func ofJ2(p *bls.G2Projective) ref.P2 {
	if p.IsZero() {
		return ref.Inf2()
	}
	return ofA2(p.ToAffine())
}

// dedup sorts and removes duplicates.
func dedup(v []*big.Int) []*big.Int {
	sort.Slice(v, func(i, j int) bool { return v[i].Cmp(v[j]) < 0 })
	var out []*big.Int
	for _, x := range v {
		if len(out) == 0 || out[len(out)-1].Cmp(x) != 0 {
			out = append(out, x)
		}
	}
	return out
}

// below keeps the values in [0, m).
func below(v []*big.Int, m *big.Int) (out []*big.Int) {
	for _, x := range v {
		if x.Sign() >= 0 && x.Cmp(m) < 0 {
			out = append(out, x)
		}
	}
	return
}

// limbGrid lists all integers whose limbs come from the given sets, least
// significant limb first.
func limbGrid(sets ...[]uint64) []*big.Int {
	idx := make([]int, len(sets))
	l := make([]uint64, len(sets))
	var out []*big.Int
	for {
		for i := range l {
			l[i] = sets[i][idx[i]]
		}
		out = append(out, limbsBig(l))
		k := 0
		for ; k < len(sets); k++ {
			idx[k]++
			if idx[k] < len(sets[k]) {
				break
			}
			idx[k] = 0
		}
		if k == len(sets) {
			return out
		}
	}
}

// nearList lists c-w..c+w for all centres.
func nearList(w int64, centres ...*big.Int) (out []*big.Int) {
	for _, c := range centres {
		for d := -w; d <= w; d++ {
			out = append(out, add(c, bi(d)))
		}
	}
	return
}

func hexs(v *big.Int) string { return "0x" + v.Text(16) }
