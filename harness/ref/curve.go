package ref

import "math/big"

// P1 is a point of y^2 = x^3 + a x + b over Fq (a is 0 except on the isogenous
// curve).
type P1 struct {
	X, Y *big.Int
	Inf  bool
}

// P2 is a point over Fq2.
type P2 struct {
	X, Y F2
	Inf  bool
}

// Inf1 and Inf2 are the points at infinity.
func Inf1() P1 { return P1{I(0), I(1), true} }

// Inf2 is infinity.
func Inf2() P2 { return P2{Int2(0, 0), Int2(1, 0), true} }

// B1 and B2 are the curve coefficients.
var (
	B1 = I(4)
	B2 F2
	// A0 and A02 are zero.
	A0  = I(0)
	A02 F2
	// G1 and G2 are the standard generators.
	G1 P1
	G2 P2
)

func initCurves() {
	B2 = Int2(4, 4)
	A02 = Int2(0, 0)
	G1 = P1{
		hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
		hex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), false}
	G2 = P2{
		F2{hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
			hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
		F2{hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
			hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}, false}
	if !G1.OnCurve() || !G2.OnCurve() || !G1.MulK(R).Inf || !G2.MulK(R).Inf {
		panic("reference generators are wrong")
	}
}

// OnCurve tests the curve equation.
func (p P1) OnCurve() bool { return p.Inf || Mul(p.Y, p.Y).Cmp(RHS1(p.X)) == 0 }

// RHS1 is x^3+4.
func RHS1(x *big.Int) *big.Int { return Add(Mul(Mul(x, x), x), B1) }

// OnCurve tests the curve equation.
func (p P2) OnCurve() bool { return p.Inf || p.Y.Sqr().Eq(RHS2(p.X)) }

// RHS2 is x^3+4(1+u).
func RHS2(x F2) F2 { return x.Sqr().Mul(x).Add(B2) }

// Eq tests equality.
func (p P1) Eq(o P1) bool {
	if p.Inf || o.Inf {
		return p.Inf == o.Inf
	}
	return p.X.Cmp(o.X) == 0 && p.Y.Cmp(o.Y) == 0
}

// Eq tests equality.
func (p P2) Eq(o P2) bool {
	if p.Inf || o.Inf {
		return p.Inf == o.Inf
	}
	return p.X.Eq(o.X) && p.Y.Eq(o.Y)
}

// Neg negates.
func (p P1) Neg() P1 {
	if p.Inf {
		return p
	}
	return P1{p.X, Neg(p.Y), false}
}

// Neg negates.
func (p P2) Neg() P2 {
	if p.Inf {
		return p
	}
	return P2{p.X, p.Y.Neg(), false}
}

// Add is the chord-and-tangent law.
func (p P1) Add(o P1) P1 { return p.AddA(o, A0) }

// AddA is the same on a curve with coefficient a.
func (p P1) AddA(o P1, a *big.Int) P1 {
	if p.Inf {
		return o
	}
	if o.Inf {
		return p
	}
	var l *big.Int
	if p.X.Cmp(o.X) == 0 {
		if p.Y.Cmp(o.Y) != 0 || p.Y.Sign() == 0 {
			return Inf1()
		}
		l = Mul(Add(Mul(I(3), Mul(p.X, p.X)), a), Inv(Mul(two, p.Y)))
	} else {
		l = Mul(Sub(o.Y, p.Y), Inv(Sub(o.X, p.X)))
	}
	x := Sub(Sub(Mul(l, l), p.X), o.X)
	return P1{x, Sub(Mul(l, Sub(p.X, x)), p.Y), false}
}

// Add is the chord-and-tangent law.
func (p P2) Add(o P2) P2 { return p.AddA(o, A02) }

// AddA is the same on a curve with coefficient a.
func (p P2) AddA(o P2, a F2) P2 {
	if p.Inf {
		return o
	}
	if o.Inf {
		return p
	}
	var l F2
	if p.X.Eq(o.X) {
		if !p.Y.Eq(o.Y) || p.Y.IsZero() {
			return Inf2()
		}
		d, _ := p.Y.Add(p.Y).Inv()
		l = p.X.Sqr().Scale(I(3)).Add(a).Mul(d)
	} else {
		d, _ := o.X.Sub(p.X).Inv()
		l = o.Y.Sub(p.Y).Mul(d)
	}
	x := l.Sqr().Sub(p.X).Sub(o.X)
	return P2{x, l.Mul(p.X.Sub(x)).Sub(p.Y), false}
}

// jac1 and jac2 are used only to make scalar multiplication affordable.
type jac1 struct{ X, Y, Z *big.Int }

func (p jac1) dbl() jac1 {
	if p.Z.Sign() == 0 {
		return p
	}
	// generic formulas for y^2 = x^3 + b
	yy := Mul(p.Y, p.Y)
	s := Mul(I(4), Mul(p.X, yy))
	m := Mul(I(3), Mul(p.X, p.X))
	x := Sub(Mul(m, m), Mul(two, s))
	y := Sub(Mul(m, Sub(s, x)), Mul(I(8), Mul(yy, yy)))
	return jac1{x, y, Mul(two, Mul(p.Y, p.Z))}
}

func (p jac1) addAff(o P1) jac1 {
	if o.Inf {
		return p
	}
	if p.Z.Sign() == 0 {
		return jac1{o.X, o.Y, I(1)}
	}
	zz := Mul(p.Z, p.Z)
	u := Mul(o.X, zz)
	s := Mul(o.Y, Mul(zz, p.Z))
	h := Sub(u, p.X)
	r := Sub(s, p.Y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return p.dbl()
		}
		return jac1{I(1), I(1), I(0)}
	}
	hh := Mul(h, h)
	hhh := Mul(hh, h)
	v := Mul(p.X, hh)
	x := Sub(Sub(Mul(r, r), hhh), Mul(two, v))
	y := Sub(Mul(r, Sub(v, x)), Mul(p.Y, hhh))
	return jac1{x, y, Mul(p.Z, h)}
}

func (p jac1) aff() P1 {
	if p.Z.Sign() == 0 {
		return Inf1()
	}
	zi := Inv(p.Z)
	zz := Mul(zi, zi)
	return P1{Mul(p.X, zz), Mul(p.Y, Mul(zz, zi)), false}
}

// MulK multiplies by any integer.
func (p P1) MulK(k *big.Int) P1 {
	if k.Sign() < 0 {
		return p.Neg().MulK(new(big.Int).Neg(k))
	}
	r := jac1{I(1), I(1), I(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addAff(p)
		}
	}
	return r.aff()
}

type jac2 struct{ X, Y, Z F2 }

func (p jac2) dbl() jac2 {
	if p.Z.IsZero() {
		return p
	}
	yy := p.Y.Sqr()
	s := p.X.Mul(yy).Scale(I(4))
	m := p.X.Sqr().Scale(I(3))
	x := m.Sqr().Sub(s.Add(s))
	y := m.Mul(s.Sub(x)).Sub(yy.Sqr().Scale(I(8)))
	yz := p.Y.Mul(p.Z)
	return jac2{x, y, yz.Add(yz)}
}

func (p jac2) addAff(o P2) jac2 {
	if o.Inf {
		return p
	}
	if p.Z.IsZero() {
		return jac2{o.X, o.Y, Int2(1, 0)}
	}
	zz := p.Z.Sqr()
	u := o.X.Mul(zz)
	s := o.Y.Mul(zz.Mul(p.Z))
	h := u.Sub(p.X)
	r := s.Sub(p.Y)
	if h.IsZero() {
		if r.IsZero() {
			return p.dbl()
		}
		return jac2{Int2(1, 0), Int2(1, 0), Int2(0, 0)}
	}
	hh := h.Sqr()
	hhh := hh.Mul(h)
	v := p.X.Mul(hh)
	x := r.Sqr().Sub(hhh).Sub(v.Add(v))
	y := r.Mul(v.Sub(x)).Sub(p.Y.Mul(hhh))
	return jac2{x, y, p.Z.Mul(h)}
}

func (p jac2) aff() P2 {
	if p.Z.IsZero() {
		return Inf2()
	}
	zi, _ := p.Z.Inv()
	zz := zi.Sqr()
	return P2{p.X.Mul(zz), p.Y.Mul(zz.Mul(zi)), false}
}

// MulK multiplies by any integer.
func (p P2) MulK(k *big.Int) P2 {
	if k.Sign() < 0 {
		return p.Neg().MulK(new(big.Int).Neg(k))
	}
	r := jac2{Int2(1, 0), Int2(1, 0), Int2(0, 0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addAff(p)
		}
	}
	return r.aff()
}

// FromX1 returns the two points with that x coordinate, smaller y first.
func FromX1(x *big.Int) (lo, hi P1, ok bool) {
	y := Sqrt(RHS1(x))
	if y == nil {
		return
	}
	n := Neg(y)
	if y.Cmp(n) > 0 {
		y, n = n, y
	}
	return P1{x, y, false}, P1{x, n, false}, true
}

// FromX2 returns the two points with that x coordinate, smaller y first.
func FromX2(x F2) (lo, hi P2, ok bool) {
	y, ok := RHS2(x).Sqrt()
	if !ok {
		return
	}
	n := y.Neg()
	if y.Cmp(n) > 0 {
		y, n = n, y
	}
	return P2{x, y, false}, P2{x, n, false}, true
}

func put48(b []byte, v *big.Int) { v.FillBytes(b[:48]) }

// Compress1 is the 48-byte encoding.
func Compress1(p P1) (b [48]byte) {
	if p.Inf {
		b[0] = 0xc0
		return
	}
	put48(b[:], p.X)
	b[0] |= 0x80
	if p.Y.Cmp(Neg(p.Y)) > 0 {
		b[0] |= 0x20
	}
	return
}

// Compress2 is the 96-byte encoding.
func Compress2(p P2) (b [96]byte) {
	if p.Inf {
		b[0] = 0xc0
		return
	}
	put48(b[:48], p.X.B)
	put48(b[48:], p.X.A)
	b[0] |= 0x80
	if p.Y.Cmp(p.Y.Neg()) > 0 {
		b[0] |= 0x20
	}
	return
}

// Decompress1 decodes; ok is false when the string is not canonical or not on
// the curve. The order is not checked.
func Decompress1(b [48]byte) (P1, bool) {
	fl := b[0] >> 5
	b[0] &= 0x1f
	x := new(big.Int).SetBytes(b[:])
	if fl&4 == 0 {
		return P1{}, false
	}
	if fl&2 != 0 {
		return Inf1(), fl == 6 && x.Sign() == 0
	}
	if x.Cmp(Q) >= 0 {
		return P1{}, false
	}
	lo, hi, ok := FromX1(x)
	if !ok {
		return P1{}, false
	}
	if fl&1 != 0 {
		return hi, true
	}
	return lo, true
}

// Decompress2 decodes the 96-byte encoding.
func Decompress2(b [96]byte) (P2, bool) {
	fl := b[0] >> 5
	b[0] &= 0x1f
	xb := new(big.Int).SetBytes(b[:48])
	xa := new(big.Int).SetBytes(b[48:])
	if fl&4 == 0 {
		return P2{}, false
	}
	if fl&2 != 0 {
		return Inf2(), fl == 6 && xa.Sign() == 0 && xb.Sign() == 0
	}
	if xa.Cmp(Q) >= 0 || xb.Cmp(Q) >= 0 {
		return P2{}, false
	}
	lo, hi, ok := FromX2(F2{xa, xb})
	if !ok {
		return P2{}, false
	}
	if fl&1 != 0 {
		return hi, true
	}
	return lo, true
}
