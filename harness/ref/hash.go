package ref

import (
	"crypto/sha256"
	"math/big"
)

// Parameters of the simplified SWU maps.
var (
	swuA1 = hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
	swuB1 = hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
	swuZ1 *big.Int
	swuA2 F2
	swuB2 F2
	swuZ2 F2
	// HEff1 and HEff2 are the effective cofactors of the hash functions.
	HEff1 = hex("d201000000010001")
	HEff2 = hex("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
	iso1  [4][]*big.Int
	iso2  [4][]F2
)

func initHash() {
	swuZ1 = Neg(one)
	swuA2 = Int2(0, 240)
	swuB2 = Int2(1012, 1012)
	swuZ2 = Int2(1, 1)
	for i := range isoG1 {
		for _, s := range isoG1[i] {
			iso1[i] = append(iso1[i], hex(s))
		}
		for _, s := range isoG2[i] {
			iso2[i] = append(iso2[i], F2{hex(s[0]), hex(s[1])})
		}
	}
}

// SelfTestHash checks that the isogeny tables are homomorphisms to the curves
// and that the effective cofactors clear the cofactor.
func SelfTestHash() {
	for i := int64(0); i < 6; i++ {
		a, b := SWU1(I(3*i+2)), SWU1(I(7*i+5))
		if !Iso1(a).OnCurve() || !Iso1(a.AddA(b, swuA1)).Eq(Iso1(a).Add(Iso1(b))) {
			panic("reference isogeny 11 is wrong")
		}
		if !Iso1(a).MulK(HEff1).MulK(R).Inf {
			panic("reference cofactor 1 is wrong")
		}
		c, d := SWU2(Int2(3*i+2, i)), SWU2(Int2(7*i+5, i+1))
		if !Iso2(c).OnCurve() || !Iso2(c.AddA(d, swuA2)).Eq(Iso2(c).Add(Iso2(d))) {
			panic("reference isogeny 3 is wrong")
		}
		if !Iso2(c).MulK(HEff2).MulK(R).Inf {
			panic("reference cofactor 2 is wrong")
		}
	}
}

// Sign1 is true for elements larger than (q-1)/2.
func Sign1(a *big.Int) bool { return a.Cmp(new(big.Int).Rsh(Q, 1)) > 0 }

// Sign2 is the sign of the first non-zero component, B first.
func Sign2(a F2) bool {
	if a.B.Sign() != 0 {
		return Sign1(a.B)
	}
	return Sign1(a.A)
}

// SWU1 is the simplified SWU map to the curve 11-isogenous to E.
func SWU1(t *big.Int) P1 {
	zt2 := Mul(swuZ1, Mul(t, t))
	den := Add(Mul(zt2, zt2), zt2)
	var x0 *big.Int
	if den.Sign() == 0 {
		x0 = Mul(swuB1, Inv(Mul(swuZ1, swuA1)))
	} else {
		x0 = Mul(Mul(Neg(swuB1), Inv(swuA1)), Add(one, Inv(den)))
	}
	g := func(x *big.Int) *big.Int { return Add(Add(Mul(Mul(x, x), x), Mul(swuA1, x)), swuB1) }
	x := x0
	y := Sqrt(g(x0))
	if y == nil {
		x = Mul(zt2, x0)
		y = Sqrt(g(x))
	}
	if Sign1(y) != Sign1(t) {
		y = Neg(y)
	}
	return P1{x, y, false}
}

// SWU2 is the simplified SWU map to the curve 3-isogenous to E2.
func SWU2(t F2) P2 {
	zt2 := swuZ2.Mul(t.Sqr())
	den := zt2.Sqr().Add(zt2)
	var x0 F2
	if den.IsZero() {
		i, _ := swuZ2.Mul(swuA2).Inv()
		x0 = swuB2.Mul(i)
	} else {
		ia, _ := swuA2.Inv()
		id, _ := den.Inv()
		x0 = swuB2.Neg().Mul(ia).Mul(id.Add(Int2(1, 0)))
	}
	g := func(x F2) F2 { return x.Sqr().Mul(x).Add(swuA2.Mul(x)).Add(swuB2) }
	x := x0
	y, ok := g(x0).Sqrt()
	if !ok {
		x = zt2.Mul(x0)
		y, ok = g(x).Sqrt()
		if !ok {
			panic("reference SWU has no root")
		}
	}
	if Sign2(y) != Sign2(t) {
		y = y.Neg()
	}
	return P2{x, y, false}
}

// OnIso2 tests the equation of the 3-isogenous curve.
func OnIso2(p P2) bool {
	return p.Y.Sqr().Eq(p.X.Sqr().Mul(p.X).Add(swuA2.Mul(p.X)).Add(swuB2))
}

// Iso1 applies the 11-isogeny.
func Iso1(p P1) P1 {
	if p.Inf {
		return p
	}
	var v [4]*big.Int
	for i := range iso1 {
		v[i] = I(0)
		for k := len(iso1[i]) - 1; k >= 0; k-- {
			v[i] = Add(Mul(v[i], p.X), iso1[i][k])
		}
	}
	if v[1].Sign() == 0 || v[3].Sign() == 0 {
		return Inf1()
	}
	return P1{Mul(v[0], Inv(v[1])), Mul(p.Y, Mul(v[2], Inv(v[3]))), false}
}

// Iso2 applies the 3-isogeny.
func Iso2(p P2) P2 {
	if p.Inf {
		return p
	}
	var v [4]F2
	for i := range iso2 {
		v[i] = Int2(0, 0)
		for k := len(iso2[i]) - 1; k >= 0; k-- {
			v[i] = v[i].Mul(p.X).Add(iso2[i][k])
		}
	}
	d1, ok1 := v[1].Inv()
	d3, ok3 := v[3].Inv()
	if !ok1 || !ok3 {
		return Inf2()
	}
	return P2{v[0].Mul(d1), p.Y.Mul(v[2].Mul(d3)), false}
}

func sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func htf(msgPrime []byte, i byte, m *big.Int) *big.Int {
	t := append(sha(msgPrime, []byte{i, 1}), sha(msgPrime, []byte{i, 2})...)
	return Mod(new(big.Int).SetBytes(t), m)
}

// Fields1 are the two field elements HashG1 derives from a message.
func Fields1(msg []byte) (t0, t1 *big.Int) {
	base := sha([]byte{1}, msg)
	return htf(append(append([]byte{}, base...), 0), 1, Q), htf(append(append([]byte{}, base...), 1), 1, Q)
}

// Hash1 hashes to G1.
func Hash1(msg []byte) P1 {
	t0, t1 := Fields1(msg)
	p := SWU1(t0).AddA(SWU1(t1), swuA1)
	return Iso1(p).MulK(HEff1)
}

// Fields2 are the two elements HashG2 derives from a message.
func Fields2(msg []byte) (t0, t1 F2) {
	base := sha([]byte{1}, msg)
	f := func(ctr byte) F2 {
		m := append(append([]byte{}, base...), ctr)
		return F2{htf(m, 1, Q), htf(m, 2, Q)}
	}
	return f(0), f(1)
}

// Hash2 hashes to G2.
func Hash2(msg []byte) P2 {
	t0, t1 := Fields2(msg)
	p := SWU2(t0).AddA(SWU2(t1), swuA2)
	return Iso2(p).MulK(HEff2)
}

// HashScalar derives a scalar from 32 bytes.
func HashScalar(b [32]byte) *big.Int {
	return htf(append(sha(b[:]), 0), 1, R)
}

// Hash2Domain is the eth2 try-and-increment hash.
func Hash2Domain(m [32]byte, d [8]byte) P2 {
	x := MakeF2(new(big.Int).SetBytes(sha(m[:], d[:], []byte{1})), new(big.Int).SetBytes(sha(m[:], d[:], []byte{2})))
	for {
		_, hi, ok := FromX2(x)
		if ok {
			return hi.MulK(H2)
		}
		x = x.Add(Int2(1, 0))
	}
}

// SWEncode2 is the Shallue-van de Woestijne encoding (Fouque-Tibouchi) for
// y^2 = x^3 + b over Fq2, the sign of y following the parity of t.
func SWEncode2(t F2) P2 {
	if t.IsZero() {
		return Inf2()
	}
	parity := t.Cmp(t.Neg()) > 0
	w := t.Sqr().Add(B2).Add(Int2(1, 0))
	if w.IsZero() {
		if parity {
			return G2.Neg()
		}
		return G2
	}
	s := swS3
	half := Inv(two)
	wi, _ := w.Inv()
	w = wi.Mul(F2{s, I(0)}).Mul(t)
	x1 := F2{Mul(Sub(s, one), half), I(0)}.Sub(w.Mul(t))
	x2 := x1.Neg().Sub(Int2(1, 0))
	w2, _ := w.Sqr().Inv()
	x3 := w2.Add(Int2(1, 0))
	for _, x := range []F2{x1, x2, x3} {
		lo, hi, ok := FromX2(x)
		if ok {
			if parity {
				return hi
			}
			return lo
		}
	}
	panic("reference SW encoding has no point")
}

var swS3, _ = new(big.Int).SetString("1586958781458431025242759403266842894121773480562120986020912974854563298150952611241517463240701", 10)

// AddIso1 and AddIso2 add on the isogenous curves.
func AddIso1(a, b P1) P1 { return a.AddA(b, swuA1) }

// AddIso2 is the same over Fq2.
func AddIso2(a, b P2) P2 { return a.AddA(b, swuA2) }
