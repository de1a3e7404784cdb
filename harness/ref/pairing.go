package ref

import "math/big"

// The textbook optimal ate pairing: affine arithmetic on E(Fq12), lines
// evaluated one by one, the final exponentiation by its exponent.

type p12 struct {
	X, Y F12
	Inf  bool
}

func lift(a F2, pos int) F12 {
	var c [6]F2
	for i := range c {
		c[i] = Int2(0, 0)
	}
	c[pos] = a
	return FromBasis(c)
}

// untwist maps (x, y) on the M-type twist y^2 = x^3 + 4 xi to (x / w^2, y / w^3).
func untwist(q P2) p12 {
	if q.Inf {
		return p12{Inf: true}
	}
	xi, _ := Xi.Inv()
	// 1/w^2 = w^4/xi, 1/w^3 = w^3/xi
	return p12{lift(q.X.Mul(xi), 4), lift(q.Y.Mul(xi), 3), false}
}

func scalar12(a *big.Int) F12 { return lift(F2{a, I(0)}, 0) }

// Miller computes f_{X,Q}(P), then conjugates because the parameter is negative.
func Miller(p P1, q P2) F12 {
	if p.Inf || q.Inf {
		return One12()
	}
	px, py := scalar12(p.X), scalar12(p.Y)
	Qp := untwist(q)
	T := Qp
	f := One12()
	step := func(a, b p12) (p12, F12) {
		var l F12
		if a.X.Eq(b.X) && a.Y.Eq(b.Y) {
			num := a.X.Mul(a.X).Mul(scalar12(I(3)))
			d, _ := a.Y.Add(a.Y).Inv()
			l = num.Mul(d)
		} else {
			d, _ := b.X.Sub(a.X).Inv()
			l = b.Y.Sub(a.Y).Mul(d)
		}
		x := l.Mul(l).Sub(a.X).Sub(b.X)
		y := l.Mul(a.X.Sub(x)).Sub(a.Y)
		line := py.Sub(a.Y).Sub(l.Mul(px.Sub(a.X)))
		return p12{x, y, false}, line
	}
	for i := X.BitLen() - 2; i >= 0; i-- {
		var line F12
		T, line = step(T, T)
		f = f.Mul(f).Mul(line)
		if X.Bit(i) == 1 {
			T, line = step(T, Qp)
			f = f.Mul(line)
		}
	}
	return f.Conj()
}

// FinalExp raises to mult * (q^12-1)/r; ok is false for zero.
func FinalExp(f F12, mult int64) (F12, bool) {
	inv, ok := f.Inv()
	if !ok {
		return F12{}, false
	}
	t := f.Conj().Mul(inv)
	t = t.Frob(2).Mul(t)
	q2 := new(big.Int).Mul(Q, Q)
	e := new(big.Int).Mul(q2, q2)
	e.Sub(e, q2)
	e.Add(e, one)
	m := new(big.Int)
	e.DivMod(e, R, m)
	if m.Sign() != 0 {
		panic("r does not divide")
	}
	e.Mul(e, I(mult))
	return t.Exp(e), true
}

// Pairing is the reduced pairing raised to mult.
func Pairing(p P1, q P2, mult int64) F12 {
	r, _ := FinalExp(Miller(p, q), mult)
	return r
}
