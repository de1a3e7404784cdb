// Package ref is the reference model: the mathematical objects of BLS12-381
// written directly from their definitions on math/big.  It shares no code with
// the packages under test.
package ref

import (
	"math/big"
	"sync"
)

func hex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

// I makes an integer.
func I(v int64) *big.Int { return big.NewInt(v) }

var (
	zero = I(0)
	one  = I(1)
	two  = I(2)
	// X is the absolute value of the BLS parameter (the parameter is -X).
	X = hex("d201000000010000")
	// Q and R are derived from the parameter below.
	Q, R *big.Int
	// H1 and H2 are the cofactors of G1 and G2.
	H1, H2 *big.Int
)

func init() {
	// r = x^4 - x^2 + 1, q = (x-1)^2/3 * r + x, with x = -X
	x := new(big.Int).Neg(X)
	x2 := new(big.Int).Mul(x, x)
	x4 := new(big.Int).Mul(x2, x2)
	R = new(big.Int).Sub(x4, x2)
	R.Add(R, one)
	xm1 := new(big.Int).Sub(x, one)
	xm1.Mul(xm1, xm1)
	H1 = new(big.Int).Div(xm1, I(3))
	Q = new(big.Int).Mul(H1, R)
	Q.Add(Q, x)
	// h2 = (x^8 - 4x^7 + 5x^6 - 4x^4 + 6x^3 - 4x^2 - 4x + 13)/9
	pw := make([]*big.Int, 9)
	pw[0] = one
	for i := 1; i < 9; i++ {
		pw[i] = new(big.Int).Mul(pw[i-1], x)
	}
	co := []int64{13, -4, -4, 6, -4, 0, 5, -4, 1}
	h := I(0)
	for i, c := range co {
		h.Add(h, new(big.Int).Mul(I(c), pw[i]))
	}
	H2 = h.Div(h, I(9))
	initConst()
}

// Arithmetic modulo m.

// Mod reduces.
func Mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }

// Add returns a+b mod q, and so on.
func Add(a, b *big.Int) *big.Int { c := new(big.Int).Add(a, b); return c.Mod(c, Q) }

// Sub subtracts.
func Sub(a, b *big.Int) *big.Int { c := new(big.Int).Sub(a, b); return c.Mod(c, Q) }

// Mul multiplies.
func Mul(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, Q) }

// Neg negates.
func Neg(a *big.Int) *big.Int { c := new(big.Int).Neg(a); return c.Mod(c, Q) }

// Inv inverts; zero has none (nil).
func Inv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, Q) }

// IsSquare is the Euler criterion (zero is a square).
func IsSquare(a *big.Int) bool { return big.Jacobi(Mod(a, Q), Q) >= 0 }

// Sqrt returns a square root or nil.
func Sqrt(a *big.Int) *big.Int {
	// q = 3 mod 4
	e := new(big.Int).Add(Q, one)
	e.Rsh(e, 2)
	s := new(big.Int).Exp(a, e, Q)
	if Mul(s, s).Cmp(Mod(a, Q)) != 0 {
		return nil
	}
	return s
}

// F2 is a + b*u with u^2 = -1.
type F2 struct{ A, B *big.Int }

// MakeF2 makes an element from integers.
func MakeF2(a, b *big.Int) F2 { return F2{Mod(a, Q), Mod(b, Q)} }

// Int2 makes an element from small integers.
func Int2(a, b int64) F2 { return MakeF2(I(a), I(b)) }

// IsZero tests.
func (f F2) IsZero() bool { return f.A.Sign() == 0 && f.B.Sign() == 0 }

// Eq tests equality.
func (f F2) Eq(g F2) bool { return f.A.Cmp(g.A) == 0 && f.B.Cmp(g.B) == 0 }

// Add adds.
func (f F2) Add(g F2) F2 { return F2{Add(f.A, g.A), Add(f.B, g.B)} }

// Sub subtracts.
func (f F2) Sub(g F2) F2 { return F2{Sub(f.A, g.A), Sub(f.B, g.B)} }

// Neg negates.
func (f F2) Neg() F2 { return F2{Neg(f.A), Neg(f.B)} }

// Mul multiplies.
func (f F2) Mul(g F2) F2 {
	a := new(big.Int).Mul(f.A, g.A)
	a.Sub(a, new(big.Int).Mul(f.B, g.B))
	b := new(big.Int).Mul(f.A, g.B)
	b.Add(b, new(big.Int).Mul(f.B, g.A))
	return F2{a.Mod(a, Q), b.Mod(b, Q)}
}

// Sqr squares.
func (f F2) Sqr() F2 { return f.Mul(f) }

// Scale multiplies by an integer.
func (f F2) Scale(k *big.Int) F2 { return F2{Mul(f.A, Mod(k, Q)), Mul(f.B, Mod(k, Q))} }

// Conj conjugates (the q-power Frobenius).
func (f F2) Conj() F2 { return F2{f.A, Neg(f.B)} }

// Norm is f * conj f.
func (f F2) Norm() *big.Int { return Add(Mul(f.A, f.A), Mul(f.B, f.B)) }

// Inv inverts; ok is false for zero.
func (f F2) Inv() (F2, bool) {
	n := Inv(f.Norm())
	if f.IsZero() || n == nil {
		return F2{}, false
	}
	return F2{Mul(f.A, n), Mul(Neg(f.B), n)}, true
}

// Exp raises to a non-negative power.
func (f F2) Exp(e *big.Int) F2 {
	r := Int2(1, 0)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Sqr()
		if e.Bit(i) == 1 {
			r = r.Mul(f)
		}
	}
	return r
}

// IsSquare tells whether f is a square in Fq2 (norm criterion).
func (f F2) IsSquare() bool { return IsSquare(f.Norm()) }

// Sqrt returns some square root.
func (f F2) Sqrt() (F2, bool) {
	// complex method
	if f.B.Sign() == 0 {
		if s := Sqrt(f.A); s != nil {
			return F2{s, I(0)}, true
		}
		s := Sqrt(Neg(f.A))
		return F2{I(0), s}, true
	}
	n := Sqrt(f.Norm())
	if n == nil {
		return F2{}, false
	}
	half := Inv(two)
	d := Mul(Add(f.A, n), half)
	a := Sqrt(d)
	if a == nil {
		d = Mul(Sub(f.A, n), half)
		a = Sqrt(d)
	}
	if a == nil {
		return F2{}, false
	}
	b := Mul(f.B, Inv(Mul(two, a)))
	r := F2{a, b}
	if !r.Sqr().Eq(f) {
		panic("reference square root is wrong")
	}
	return r, true
}

// Greater is the lexicographic order used by the encodings: B first.
func (f F2) Cmp(g F2) int {
	if c := f.B.Cmp(g.B); c != 0 {
		return c
	}
	return f.A.Cmp(g.A)
}

// Xi is the sextic non-residue 1+u.
var Xi F2

// F6 is c0 + c1 v + c2 v^2 with v^3 = 1+u.
type F6 [3]F2

// Zero6 is zero.
func Zero6() F6 { return F6{Int2(0, 0), Int2(0, 0), Int2(0, 0)} }

// One6 is one.
func One6() F6 { return F6{Int2(1, 0), Int2(0, 0), Int2(0, 0)} }

// Eq tests equality.
func (f F6) Eq(g F6) bool { return f[0].Eq(g[0]) && f[1].Eq(g[1]) && f[2].Eq(g[2]) }

// IsZero tests.
func (f F6) IsZero() bool { return f[0].IsZero() && f[1].IsZero() && f[2].IsZero() }

// Add adds.
func (f F6) Add(g F6) F6 { return F6{f[0].Add(g[0]), f[1].Add(g[1]), f[2].Add(g[2])} }

// Sub subtracts.
func (f F6) Sub(g F6) F6 { return F6{f[0].Sub(g[0]), f[1].Sub(g[1]), f[2].Sub(g[2])} }

// Neg negates.
func (f F6) Neg() F6 { return F6{f[0].Neg(), f[1].Neg(), f[2].Neg()} }

// Mul is the schoolbook product.
func (f F6) Mul(g F6) F6 {
	var t [5]F2
	for i := range t {
		t[i] = Int2(0, 0)
	}
	for i := 0; i < 3; i++ {
		if f[i].IsZero() {
			continue
		}
		for j := 0; j < 3; j++ {
			t[i+j] = t[i+j].Add(f[i].Mul(g[j]))
		}
	}
	return F6{t[0].Add(t[3].Mul(Xi)), t[1].Add(t[4].Mul(Xi)), t[2]}
}

// MulV multiplies by v.
func (f F6) MulV() F6 { return F6{f[2].Mul(Xi), f[0], f[1]} }

// F12 is c0 + c1 w with w^2 = v.
type F12 [2]F6

// Zero12 is zero.
func Zero12() F12 { return F12{Zero6(), Zero6()} }

// One12 is one.
func One12() F12 { return F12{One6(), Zero6()} }

// Eq tests equality.
func (f F12) Eq(g F12) bool { return f[0].Eq(g[0]) && f[1].Eq(g[1]) }

// IsZero tests.
func (f F12) IsZero() bool { return f[0].IsZero() && f[1].IsZero() }

// Add adds.
func (f F12) Add(g F12) F12 { return F12{f[0].Add(g[0]), f[1].Add(g[1])} }

// Sub subtracts.
func (f F12) Sub(g F12) F12 { return F12{f[0].Sub(g[0]), f[1].Sub(g[1])} }

// Neg negates.
func (f F12) Neg() F12 { return F12{f[0].Neg(), f[1].Neg()} }

// Conj maps w to -w.
func (f F12) Conj() F12 { return F12{f[0], f[1].Neg()} }

// Mul is the schoolbook product.
func (f F12) Mul(g F12) F12 {
	return F12{f[0].Mul(g[0]).Add(f[1].Mul(g[1]).MulV()), f[0].Mul(g[1]).Add(f[1].Mul(g[0]))}
}

// Exp raises to a non-negative power.
func (f F12) Exp(e *big.Int) F12 {
	r := One12()
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if e.Bit(i) == 1 {
			r = r.Mul(f)
		}
	}
	return r
}

// Basis returns the i-th coefficient (0..5) of w^i ordering: element = sum of
// coeff_i * w^i, where w^(2j) = v^j.
func (f F12) Basis(i int) F2 { return f[i%2][i/2] }

// FromBasis is its inverse.
func FromBasis(c [6]F2) F12 {
	return F12{F6{c[0], c[2], c[4]}, F6{c[1], c[3], c[5]}}
}

// frobW[k][i] = xi^(i*(q^k-1)/6): w^i raised to q^k is frobW * w^i.
var frobW [12][6]F2
var frobOnce sync.Once

func initConst() {
	Xi = Int2(1, 1)
	initCurves()
	initHash()
}

func initFrob() {
	qk := I(1)
	for k := 0; k < 12; k++ {
		e := new(big.Int).Sub(qk, one)
		e.Div(e, I(6))
		g := Xi.Exp(e)
		c := Int2(1, 0)
		for i := 0; i < 6; i++ {
			frobW[k][i] = c
			c = c.Mul(g)
		}
		qk = new(big.Int).Mul(qk, Q)
	}
}

// Frob raises to the power q^k, coefficient by coefficient.
func (f F12) Frob(k int) F12 {
	k %= 12
	frobOnce.Do(initFrob)
	var c [6]F2
	for i := 0; i < 6; i++ {
		b := f.Basis(i)
		if k%2 == 1 {
			b = b.Conj()
		}
		c[i] = b.Mul(frobW[k][i])
	}
	return FromBasis(c)
}

// Frob on F6 (v = w^2).
func (f F6) Frob(k int) F6 { return F12{f, Zero6()}.Frob(k)[0] }

// Inv inverts by q-power norms; ok is false for zero.
func (f F12) Inv() (F12, bool) {
	if f.IsZero() {
		return F12{}, false
	}
	// product of the other 11 conjugates, times the inverse of the norm
	p := One12()
	for k := 1; k < 12; k++ {
		p = p.Mul(f.Frob(k))
	}
	n := p.Mul(f) // in Fq
	ni := Inv(n[0][0].A)
	for i := 0; i < 6; i++ {
		b := n.Basis(i)
		if b.B.Sign() != 0 || (i > 0 && b.A.Sign() != 0) {
			panic("reference norm is not in Fq")
		}
	}
	var c [6]F2
	for i := 0; i < 6; i++ {
		c[i] = p.Basis(i).Scale(ni)
	}
	return FromBasis(c), true
}
