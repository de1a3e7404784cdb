package checks

import (
	"math/big"

	"verifharness/ref"
)

// Elements of the extension fields that a shortcut might single out: elements
// of subfields, of norm one (to each subfield), roots of unity, elements of
// the cyclotomic subgroup and of the target group of the pairing.

func special2() (out []ref.F2) {
	g := []ref.F2{ref.Int2(1, 1), ref.Int2(2, 1), ref.MakeF2(genCoef(40), genCoef(41)), ref.MakeF2(genCoef(42), bi(1))}
	for _, x := range g {
		i, _ := x.Inv()
		n := x.Conj().Mul(i) // norm one
		out = append(out, n, n.Neg(), n.Mul(ref.Int2(0, 1)), n.Add(ref.Int2(1, 0)), n.Sub(ref.Int2(1, 0)), n.Scale(bi(2)))
		if s, ok := n.Sqrt(); ok {
			out = append(out, s)
		}
	}
	// norm -1
	for a := int64(0); a < 6; a++ {
		if b := ref.Sqrt(ref.Sub(bi(-1), bi(a*a))); b != nil {
			out = append(out, ref.MakeF2(bi(a), b), ref.MakeF2(b, bi(a)))
		}
	}
	// roots of unity of small order
	o := new(big.Int).Sub(new(big.Int).Mul(bq, bq), one)
	for _, m := range []int64{3, 4, 8, 9, 11, 13, 16, 24, 23, 143} {
		k, rem := new(big.Int).DivMod(o, bi(m), new(big.Int))
		if rem.Sign() == 0 {
			for x := int64(1); x < 12; x++ {
				if r := ref.Int2(x, 1).Exp(k); !r.Eq(ref.Int2(1, 0)) {
					out = append(out, r)
					break
				}
			}
		}
	}
	return
}

func mul12(f ref.F12, g ...ref.F12) ref.F12 {
	for _, x := range g {
		f = f.Mul(x)
	}
	return f
}

func special12() (out []ref.F12) {
	var c [6]ref.F2
	for k := range c {
		c[k] = ref.MakeF2(genCoef(50+2*k), genCoef(51+2*k))
	}
	for _, g := range []ref.F12{ref.FromBasis(c), ref.FromBasis([6]ref.F2{c[0], c[1], ref.Int2(0, 0), ref.Int2(0, 0), ref.Int2(0, 0), ref.Int2(0, 0)}), ref.FromBasis([6]ref.F2{ref.Int2(1, 0), ref.Int2(1, 0), ref.Int2(0, 0), ref.Int2(0, 0), ref.Int2(0, 0), ref.Int2(0, 0)})} {
		gi, _ := g.Inv()
		// norms into the subfields of degree 1, 2, 3, 4, 6
		for _, d := range []int{1, 2, 3, 4, 6} {
			n := g
			for k := d; k < 12; k += d {
				n = n.Mul(g.Frob(k))
			}
			out = append(out, n)
			if i, ok := n.Inv(); ok && d == 6 {
				// norm one with a factor
				out = append(out, i.Mul(g))
			}
		}
		// elements of norm one to the fixed field of each Frobenius power
		for k := 1; k < 12; k++ {
			out = append(out, g.Frob(k).Mul(gi))
		}
		// the cyclotomic subgroup and the target group
		u := g.Frob(6).Mul(gi)
		u = u.Frob(2).Mul(u)
		e, _ := ref.FinalExp(g, 1)
		out = append(out, u, u.Conj(), u.Neg(), u.Add(ref.One12()), u.Sub(ref.One12()), e, e.Conj())
	}
	for _, r := range special2()[:8] {
		z := ref.Int2(0, 0)
		out = append(out, ref.FromBasis([6]ref.F2{r, z, z, z, z, z}), ref.FromBasis([6]ref.F2{z, z, z, r, z, z}))
	}
	return
}

func special6() (out []ref.F6) {
	h := ref.F6{ref.MakeF2(genCoef(62), genCoef(63)), ref.MakeF2(genCoef(64), genCoef(65)), ref.MakeF2(genCoef(66), genCoef(67))}
	for _, g := range []ref.F6{h, {ref.Int2(1, 0), ref.Int2(1, 0), ref.Int2(0, 0)}, {ref.Int2(1, 1), ref.Int2(0, 0), ref.Int2(1, 0)}} {
		i12, _ := ref.F12{g, ref.Zero6()}.Inv()
		gi := i12[0]
		for k := 1; k < 6; k++ {
			out = append(out, g.Frob(k).Mul(gi))
		}
		out = append(out, g.Mul(g.Frob(3)), g.Mul(g.Frob(2)).Mul(g.Frob(4)), g.Add(g.Frob(3)), gi)
	}
	return
}

// small12 is the i-th element whose six coefficients are 0, 1, u, 1+u, -1, 2-u.
func small12(i, base int64) ref.F12 {
	sym := []ref.F2{ref.Int2(0, 0), ref.Int2(1, 0), ref.Int2(0, 1), ref.Int2(1, 1), ref.Int2(-1, 0), ref.Int2(2, -1)}
	var c [6]ref.F2
	for k := range c {
		c[k] = sym[i%base]
		i /= base
	}
	return ref.FromBasis(c)
}
