package checks

import (
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

func s6(f ref.F6) string   { return "[" + s2(f[0]) + " " + s2(f[1]) + " " + s2(f[2]) + "]" }
func s12(f ref.F12) string { return s6(f[0]) + "+w" + s6(f[1]) }

// generic coefficients: k-th field element of a fixed full-size sequence.
func genCoef(k int) *big.Int {
	e := new(big.Int).Exp(bi(7), bi(int64(1000+37*k)), bq)
	return e
}

// is6 compares through the text form (all coordinates) and through Equals.
func is6(t *core.T, what string, got *bls.FQ6, want ref.F6) {
	t.Eval(!want.IsZero())
	w := FQ6(want)
	if got.String() != w.String() {
		t.Failf("%s is %s, not %s", what, got.String(), w.String())
	}
	if !got.Equals(w) || !w.Equals(got) || got.IsZero() != want.IsZero() {
		t.Failf("%s has the coordinates of %s, but Equals=%v IsZero=%v", what, s6(want), got.Equals(w), got.IsZero())
	}
}

func is12(t *core.T, what string, got *bls.FQ12, want ref.F12) {
	t.Eval(!want.IsZero())
	w := FQ12(want)
	if got.String() != w.String() {
		t.Failf("%s is %s, not %s", what, got.String(), w.String())
	}
	if !got.Equals(w) || !w.Equals(got) || got.IsZero() != want.IsZero() {
		t.Failf("%s has the coordinates of %s, but Equals=%v IsZero=%v", what, s12(want), got.Equals(w), got.IsZero())
	}
}

func f6At(i int64, vals func(pos, sym int) *big.Int, base int64) (f ref.F6) {
	for k := 0; k < 6; k++ {
		v := vals(k, int(i%base))
		i /= base
		if k%2 == 0 {
			f[k/2].A = v
		} else {
			f[k/2].B = v
		}
	}
	return
}

func coefSym(pos, sym int) *big.Int {
	switch sym {
	case 0:
		return bi(0)
	case 1:
		return genCoef(pos)
	case 2:
		return one
	case 3:
		return sub(bq, one)
	default:
		return sub(bq, genCoef((pos+1)%6))
	}
}

func check6Unary(t *core.T, v ref.F6, frob bool) {
	n := s6(v)
	x := FQ6(v)
	do := func(what string, f func(y *bls.FQ6), want ref.F6) {
		y := x.Copy()
		f(y)
		is6(t, what+" of "+n, y, want)
	}
	do("copy", func(y *bls.FQ6) {}, v)
	do("double", func(y *bls.FQ6) { y.DoubleAssign() }, v.Add(v))
	do("negation", func(y *bls.FQ6) { y.NegAssign() }, v.Neg())
	sq := v.Mul(v)
	do("square", func(y *bls.FQ6) { y.SquareAssign() }, sq)
	do("self product", func(y *bls.FQ6) { y.MulAssign(y) }, sq)
	do("product with an equal object", func(y *bls.FQ6) { y.MulAssign(x) }, sq)
	do("self sum", func(y *bls.FQ6) { y.AddAssign(y) }, v.Add(v))
	do("self difference", func(y *bls.FQ6) { y.SubAssign(y) }, ref.Zero6())
	do("multiple by v", func(y *bls.FQ6) { y.MulByNonresidueAssign() }, v.MulV())
	if frob {
		for p := 0; p < 256; p++ {
			y := x.Copy()
			y.FrobeniusMapAssign(uint8(p))
			is6(t, fmt.Sprintf("Frobenius power %d of %s", p, n), y, v.Frob(p))
		}
	}
	is6(t, "operand afterwards", x, v)
}

func check6Inv(t *core.T, v ref.F6) {
	y := FQ6(v)
	ok := y.InverseAssign()
	t.Eval(true)
	if ok != !v.IsZero() {
		t.Failf("inverse of %s: success=%v", s6(v), ok)
	}
	if ok {
		inv, _ := (ref.F12{v, ref.Zero6()}).Inv()
		is6(t, "inverse of "+s6(v), y, inv[0])
	}
}

func check12Inv(t *core.T, v ref.F12) {
	y := FQ12(v)
	ok := y.InverseAssign()
	t.Eval(true)
	if ok != !v.IsZero() {
		t.Failf("inverse of %s: success=%v", s12(v), ok)
	}
	if ok {
		inv, _ := v.Inv()
		is12(t, "inverse of "+s12(v), y, inv)
	}
}

func check12Unary(t *core.T, v ref.F12, frob bool) {
	n := s12(v)
	x := FQ12(v)
	do := func(what string, f func(y *bls.FQ12), want ref.F12) {
		y := x.Copy()
		f(y)
		is12(t, what+" of "+n, y, want)
	}
	do("copy", func(y *bls.FQ12) {}, v)
	do("double", func(y *bls.FQ12) { y.DoubleAssign() }, v.Add(v))
	do("negation", func(y *bls.FQ12) { y.NegAssign() }, v.Neg())
	do("conjugate", func(y *bls.FQ12) { y.ConjugateAssign() }, v.Conj())
	sq := v.Mul(v)
	do("square", func(y *bls.FQ12) { y.SquareAssign() }, sq)
	do("self product", func(y *bls.FQ12) { y.MulAssign(y) }, sq)
	do("self sum", func(y *bls.FQ12) { y.AddAssign(y) }, v.Add(v))
	do("self difference", func(y *bls.FQ12) { y.SubAssign(y) }, ref.Zero12())
	if frob {
		for p := 0; p < 256; p++ {
			y := x.Copy()
			y.FrobeniusMapAssign(uint8(p))
			is12(t, fmt.Sprintf("Frobenius power %d of %s", p, n), y, v.Frob(p))
		}
	}
	is12(t, "operand afterwards", x, v)
}

type op6 struct {
	name string
	do   func(x, y *bls.FQ6)
	mod  func(x, y ref.F6) ref.F6
}

type op12 struct {
	name string
	do   func(x, y *bls.FQ12)
	mod  func(x, y ref.F12) ref.F12
}

var g2a, g2b, g2c = ref.MakeF2(genCoef(20), genCoef(21)), ref.MakeF2(genCoef(22), genCoef(23)), ref.MakeF2(genCoef(24), genCoef(25))

func ops6() []op6 {
	z := ref.Int2(0, 0)
	return []op6{
		{"add", func(x, y *bls.FQ6) { x.AddAssign(y) }, func(x, y ref.F6) ref.F6 { return x.Add(y) }},
		{"sub", func(x, y *bls.FQ6) { x.SubAssign(y) }, func(x, y ref.F6) ref.F6 { return x.Sub(y) }},
		{"mul", func(x, y *bls.FQ6) { x.MulAssign(y) }, func(x, y ref.F6) ref.F6 { return x.Mul(y) }},
		{"self-mul", func(x, y *bls.FQ6) { x.MulAssign(x) }, func(x, y ref.F6) ref.F6 { return x.Mul(x) }},
		{"self-add", func(x, y *bls.FQ6) { x.AddAssign(x) }, func(x, y ref.F6) ref.F6 { return x.Add(x) }},
		{"square", func(x, y *bls.FQ6) { x.SquareAssign() }, func(x, y ref.F6) ref.F6 { return x.Mul(x) }},
		{"double", func(x, y *bls.FQ6) { x.DoubleAssign() }, func(x, y ref.F6) ref.F6 { return x.Add(x) }},
		{"neg", func(x, y *bls.FQ6) { x.NegAssign() }, func(x, y ref.F6) ref.F6 { return x.Neg() }},
		{"frob1", func(x, y *bls.FQ6) { x.FrobeniusMapAssign(1) }, func(x, y ref.F6) ref.F6 { return x.Frob(1) }},
		{"by v", func(x, y *bls.FQ6) { x.MulByNonresidueAssign() }, func(x, y ref.F6) ref.F6 { return x.MulV() }},
		{"by1", func(x, y *bls.FQ6) { x.MulBy1Assign(FQ2(g2b)) }, func(x, y ref.F6) ref.F6 { return x.Mul(ref.F6{z, g2b, z}) }},
		{"by01", func(x, y *bls.FQ6) { x.MulBy01Assign(FQ2(g2a), FQ2(g2b)) }, func(x, y ref.F6) ref.F6 { return x.Mul(ref.F6{g2a, g2b, z}) }},
		{"copy", func(x, y *bls.FQ6) { *y = *x.Copy() }, nil},
	}
}

func ops12() []op12 {
	z := ref.Int2(0, 0)
	return []op12{
		{"add", func(x, y *bls.FQ12) { x.AddAssign(y) }, func(x, y ref.F12) ref.F12 { return x.Add(y) }},
		{"sub", func(x, y *bls.FQ12) { x.SubAssign(y) }, func(x, y ref.F12) ref.F12 { return x.Sub(y) }},
		{"mul", func(x, y *bls.FQ12) { x.MulAssign(y) }, func(x, y ref.F12) ref.F12 { return x.Mul(y) }},
		{"self-mul", func(x, y *bls.FQ12) { x.MulAssign(x) }, func(x, y ref.F12) ref.F12 { return x.Mul(x) }},
		{"self-add", func(x, y *bls.FQ12) { x.AddAssign(x) }, func(x, y ref.F12) ref.F12 { return x.Add(x) }},
		{"square", func(x, y *bls.FQ12) { x.SquareAssign() }, func(x, y ref.F12) ref.F12 { return x.Mul(x) }},
		{"double", func(x, y *bls.FQ12) { x.DoubleAssign() }, func(x, y ref.F12) ref.F12 { return x.Add(x) }},
		{"neg", func(x, y *bls.FQ12) { x.NegAssign() }, func(x, y ref.F12) ref.F12 { return x.Neg() }},
		{"conj", func(x, y *bls.FQ12) { x.ConjugateAssign() }, func(x, y ref.F12) ref.F12 { return x.Conj() }},
		{"frob1", func(x, y *bls.FQ12) { x.FrobeniusMapAssign(1) }, func(x, y ref.F12) ref.F12 { return x.Frob(1) }},
		{"by014", func(x, y *bls.FQ12) { x.MulBy014Assign(FQ2(g2a), FQ2(g2b), FQ2(g2c)) }, func(x, y ref.F12) ref.F12 {
			return x.Mul(ref.F12{{g2a, g2b, z}, {z, g2c, z}})
		}},
		{"copy", func(x, y *bls.FQ12) { *y = *x.Copy() }, nil},
	}
}

func check6Seq(t *core.T, a, b ref.F6, depth int) {
	type node struct {
		x, y   ref.F6
		gx, gy *bls.FQ6
		trail  string
	}
	ops := ops6()
	level := []node{{x: a, y: b, gx: FQ6(a), gy: FQ6(b)}}
	seen := map[string]bool{s6(a) + s6(b): true}
	states, trans := int64(1), int64(0)
	for d := 0; d < depth; d++ {
		var next []node
		for _, n := range level {
			for _, o := range ops {
				m := node{n.x, n.y, n.gx.Copy(), n.gy.Copy(), n.trail + " " + o.name}
				o.do(m.gx, m.gy)
				if o.mod == nil {
					m.y = m.x
				} else {
					m.x = o.mod(n.x, n.y)
				}
				trans++
				is6(t, "from "+s6(a)+", "+s6(b)+":"+m.trail+": receiver", m.gx, m.x)
				is6(t, "from "+s6(a)+", "+s6(b)+":"+m.trail+": operand", m.gy, m.y)
				if k := s6(m.x) + s6(m.y); !seen[k] {
					seen[k] = true
					states++
					next = append(next, m)
				}
			}
		}
		level = next
	}
	t.State(states)
	t.Trans(trans)
	t.Trace(trans)
}

func check12Seq(t *core.T, a, b ref.F12, depth int) {
	type node struct {
		x, y   ref.F12
		gx, gy *bls.FQ12
		trail  string
	}
	ops := ops12()
	level := []node{{x: a, y: b, gx: FQ12(a), gy: FQ12(b)}}
	seen := map[string]bool{s12(a) + s12(b): true}
	states, trans := int64(1), int64(0)
	for d := 0; d < depth; d++ {
		var next []node
		for _, n := range level {
			for _, o := range ops {
				m := node{n.x, n.y, n.gx.Copy(), n.gy.Copy(), n.trail + " " + o.name}
				o.do(m.gx, m.gy)
				if o.mod == nil {
					m.y = m.x
				} else {
					m.x = o.mod(n.x, n.y)
				}
				trans++
				is12(t, "from "+s12(a)+", "+s12(b)+":"+m.trail+": receiver", m.gx, m.x)
				is12(t, "from "+s12(a)+", "+s12(b)+":"+m.trail+": operand", m.gy, m.y)
				if k := s12(m.x) + s12(m.y); !seen[k] {
					seen[k] = true
					states++
					next = append(next, m)
				}
			}
		}
		level = next
	}
	t.State(states)
	t.Trans(trans)
	t.Trace(trans)
}

// f6Pairs: all 64 zero patterns with generic coefficients, and every basis
// element with unit and boundary coefficients. The products are bilinear, so
// agreement on all pairs of basis elements settles every coefficient formula.
func f6Pairs(tier string) (out []ref.F6) {
	for i := int64(0); i < 64; i++ {
		out = append(out, f6At(i, coefSym, 2))
	}
	syms := []*big.Int{one, sub(bq, one), new(big.Int).Rsh(bq, 1), fromMont(sub(pow2(320), one))}
	for k := 0; k < 6; k++ {
		for _, v := range syms {
			out = append(out, f6At(1<<uint(k), func(pos, sym int) *big.Int {
				if sym == 0 {
					return bi(0)
				}
				return v
			}, 2))
		}
	}
	if tier == "thorough" {
		for i := int64(0); i < 729; i++ {
			out = append(out, f6At(i, func(p, s int) *big.Int { return coefSym(p, []int{0, 2, 4}[s]) }, 3))
		}
	}
	return
}

func f12Pairs(tier string) (out []ref.F12) {
	// all zero patterns of the six quadratic coefficients
	for i := 0; i < 64; i++ {
		var c [6]ref.F2
		for k := range c {
			c[k] = ref.Int2(0, 0)
			if i>>uint(k)&1 == 1 {
				c[k] = ref.MakeF2(genCoef(2*k), genCoef(2*k+1))
			}
		}
		out = append(out, ref.FromBasis(c))
	}
	// every base-field basis element
	for k := 0; k < 12; k++ {
		for _, v := range []*big.Int{one, sub(bq, one)} {
			var c [6]ref.F2
			for j := range c {
				c[j] = ref.Int2(0, 0)
			}
			if k%2 == 0 {
				c[k/2].A = v
			} else {
				c[k/2].B = v
			}
			out = append(out, ref.FromBasis(c))
		}
	}
	if tier == "thorough" {
		for i := 0; i < 729; i++ {
			var c [6]ref.F2
			x := i
			for k := range c {
				c[k] = []ref.F2{ref.Int2(0, 0), ref.Int2(1, -1), ref.MakeF2(genCoef(2*k+9), genCoef(3*k+2))}[x%3]
				x /= 3
			}
			out = append(out, ref.FromBasis(c))
		}
	}
	return
}

func init() {
	core.Register("C06", func(tier string) []core.Space {
		p6, p12 := append(f6Pairs(tier), special6()...), append(f12Pairs(tier), special12()...)
		var l6 []*bls.FQ6
		for _, v := range p6 {
			l6 = append(l6, FQ6(v))
		}
		var l12 []*bls.FQ12
		for _, v := range p12 {
			l12 = append(l12, FQ12(v))
		}
		// coefficients of the sparse products
		sp := []ref.F2{ref.Int2(0, 0), ref.Int2(1, 0), ref.Int2(0, 1), ref.Int2(-1, 1), g2a, g2b.Neg(), g2c}
		nsp := int64(len(sp))
		z := ref.Int2(0, 0)
		base := int64(4)
		depth := 4
		near := 0
		if tier == "thorough" {
			near = 40
		}
		exps := []*big.Int{bi(0), one, bi(2), bi(3), bi(4), bi(5), bi(7), bi(255), add(pow2(64), one), sub(pow2(65), one)}
		if tier == "thorough" {
			base = 5
			depth = 5
			exps = append(exps, bq, sub(bq, one), sub(pow2(384), one), pow2(383))
		}
		seq6 := []ref.F6{p6[63], p6[0], p6[2], ref.One6(), p6[21].Neg()}
		seq12 := []ref.F12{p12[63], p12[0], p12[2], ref.One12(), p12[21].Neg()}
		n6, n12 := int64(len(seq6)), int64(len(seq12))
		out := []core.Space{
			{Name: "unary-6", N: ipow(base, 6), Run: func(t *core.T, i int64) {
				v := f6At(i, coefSym, base)
				check6Unary(t, v, i%16 == 5 || tier == "thorough")
				if t.WantSample() {
					t.Sample("one-operand operations of %s", s6(v))
				}
			}},
			{Name: "frobenius-6", N: int64(len(p6)), Portable: 3, Run: func(t *core.T, i int64) { check6Unary(t, p6[i], true) }},
			{Name: "inverse-6", N: ipow(3, 6), Portable: 4, Run: func(t *core.T, i int64) { check6Inv(t, f6At(i, coefSym, 3)) }},
			{Name: "pairs-6", N: int64(len(p6)), Run: func(t *core.T, i int64) {
				a, x := p6[i], l6[i]
				for k, b := range p6 {
					y := l6[k]
					w := x.Copy()
					w.MulAssign(y)
					is6(t, s6(a)+" * "+s6(b), w, a.Mul(b))
					w = x.Copy()
					w.AddAssign(y)
					is6(t, s6(a)+" + "+s6(b), w, a.Add(b))
					w = x.Copy()
					w.SubAssign(y)
					is6(t, s6(a)+" - "+s6(b), w, a.Sub(b))
					if x.Equals(y) != a.Eq(b) {
						t.Failf("equality of %s and %s gives %v", s6(a), s6(b), x.Equals(y))
					}
				}
				t.State(int64(len(p6)))
				is6(t, "operand afterwards", x, a)
				if t.WantSample() {
					t.Sample("%s times, plus, minus each of %d elements", s6(a), len(p6))
				}
			}},
			{Name: "sparse-6", N: nsp * nsp, Run: func(t *core.T, i int64) {
				c0, c1 := sp[i/nsp], sp[i%nsp]
				for k, v := range p6 {
					y := l6[k].Copy()
					y.MulBy01Assign(FQ2(c0), FQ2(c1))
					is6(t, s6(v)+" by01 "+s2(c0)+s2(c1), y, v.Mul(ref.F6{c0, c1, z}))
					if i < nsp {
						y = l6[k].Copy()
						y.MulBy1Assign(FQ2(c1))
						is6(t, s6(v)+" by1 "+s2(c1), y, v.Mul(ref.F6{z, c1, z}))
					}
				}
			}},
			{Name: "powers-6", N: int64(len(p6)), Portable: 4, Run: func(t *core.T, i int64) {
				want := ref.F12{p6[i], ref.Zero6()}
				for _, e := range exps {
					n := Q6(e)
					is6(t, s6(p6[i])+" to the power "+hexs(e), l6[i].Exp(&n), want.Exp(e)[0])
					if ofQ6(n).Cmp(e) != 0 {
						t.Failf("Exp changed its exponent")
					}
				}
				is6(t, "operand afterwards", l6[i], p6[i])
			}},
			{Name: "unary-12", N: int64(len(p12)), Run: func(t *core.T, i int64) { check12Unary(t, p12[i], false) }},
			{Name: "frobenius-12", N: int64(len(p12)), Portable: 2, Run: func(t *core.T, i int64) {
				check12Unary(t, p12[i], true)
				if t.WantSample() {
					t.Sample("Frobenius powers 0..255 of %s", s12(p12[i]))
				}
			}},
			{Name: "small-12", N: ipow(base, 6), Portable: 3, Run: func(t *core.T, i int64) {
				v := small12(i, base)
				check12Unary(t, v, false)
				check12Inv(t, v)
			}},
			{Name: "inverse-12", N: int64(len(p12)), Run: func(t *core.T, i int64) { check12Inv(t, p12[i]) }},
			{Name: "pairs-12", N: int64(len(p12)), Portable: 2, Run: func(t *core.T, i int64) {
				a, x := p12[i], l12[i]
				for k, b := range p12 {
					y := l12[k]
					w := x.Copy()
					w.MulAssign(y)
					is12(t, s12(a)+" * "+s12(b), w, a.Mul(b))
					w = x.Copy()
					w.AddAssign(y)
					is12(t, s12(a)+" + "+s12(b), w, a.Add(b))
					w = x.Copy()
					w.SubAssign(y)
					is12(t, s12(a)+" - "+s12(b), w, a.Sub(b))
					if x.Equals(y) != a.Eq(b) {
						t.Failf("equality of %s and %s gives %v", s12(a), s12(b), x.Equals(y))
					}
				}
				t.State(int64(len(p12)))
				is12(t, "operand afterwards", x, a)
			}},
			{Name: "sparse-12", N: nsp * nsp * nsp, Run: func(t *core.T, i int64) {
				c0, c1, c4 := sp[i/nsp/nsp], sp[i/nsp%nsp], sp[i%nsp]
				for k := range p12 {
					if tier != "thorough" && k%4 != int(i%4) && k != 63 {
						continue
					}
					v := p12[k]
					y := l12[k].Copy()
					y.MulBy014Assign(FQ2(c0), FQ2(c1), FQ2(c4))
					is12(t, s12(v)+" by014 "+s2(c0)+s2(c1)+s2(c4), y, v.Mul(ref.F12{{c0, c1, z}, {z, c4, z}}))
				}
				if t.WantSample() {
					t.Sample("sparse product by %s %s %s", s2(c0), s2(c1), s2(c4))
				}
			}},
			{Name: "powers-12", N: int64(len(p12)), Portable: 4, Run: func(t *core.T, i int64) {
				for _, e := range exps {
					n := Q6(e)
					is12(t, s12(p12[i])+" to the power "+hexs(e), l12[i].Exp(n), p12[i].Exp(e))
				}
				is12(t, "operand afterwards", l12[i], p12[i])
			}},
			powersFQ6(near),
			powersFQ12(near),
			{Name: "frobenius-is-power", N: 8, Portable: 4, Run: func(t *core.T, i int64) {
				v := p12[63-5*i]
				x := FQ12(v)
				y := x.Copy()
				for p := 1; p <= 6; p++ {
					y = y.Exp(Q6(bq))
					z := x.Copy()
					z.FrobeniusMapAssign(uint8(p))
					t.Eval(true)
					if z.String() != y.String() {
						t.Failf("Frobenius power %d of %s is not its q^%d-th power", p, s12(v), p)
					}
				}
			}},
			{Name: "sequences-6", N: n6 * n6, Portable: 3, Run: func(t *core.T, i int64) {
				check6Seq(t, seq6[i/n6], seq6[i%n6], depth)
			}},
			{Name: "sequences-12", N: n12 * n12, Portable: 6, Run: func(t *core.T, i int64) {
				d := depth - 1
				check12Seq(t, seq12[i/n12], seq12[i%n12], d)
				if t.WantSample() {
					t.Sample("all operation sequences to depth %d on %s and %s", d, s12(seq12[i/n12]), s12(seq12[i%n12]))
				}
			}},
		}
		return out
	})
}
