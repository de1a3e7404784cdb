package checks

import (
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// fq2Comps are the coordinates the elements are made of: landmarks of the
// field, boundary patterns of the plain and of the Montgomery representation.
func fq2Comps(tier string) []*big.Int {
	half := new(big.Int).Rsh(bq, 1)
	v := []*big.Int{
		bi(0), one, bi(2), sub(bq, one), sub(bq, bi(2)), half, add(half, one),
		ref.Mod(w384, bq), sub(bq, ref.Mod(w384, bq)), rInv384,
		fromMont(pow2(380)), fromMont(sub(pow2(320), one)), fromMont(sub(bq, pow2(320))),
		pow2(64), sub(pow2(64), one), fromMont(pow2(64)), fromMont(sub(pow2(64), one)),
		ref.Mod(new(big.Int).Exp(bi(3), bi(300), bq), bq),
	}
	if tier == "thorough" {
		for i := uint(1); i < 6; i++ {
			v = append(v, pow2(64*i), sub(pow2(64*i), one), fromMont(pow2(64*i)), fromMont(sub(pow2(64*i), one)), sub(bq, pow2(64*i)), fromMont(sub(bq, pow2(64*i))))
		}
	}
	return dedup(below(v, bq))
}

func fq2Elems(c []*big.Int) (out []ref.F2) {
	for _, a := range c {
		for _, b := range c {
			out = append(out, ref.F2{A: a, B: b})
		}
	}
	return
}

func s2(f ref.F2) string { return "(" + hexs(f.A) + "," + hexs(f.B) + ")" }

func is2(t *core.T, what string, got bls.FQ2, want ref.F2) {
	t.Eval(!want.IsZero())
	if g := ofFQ2(got); !g.Eq(want) {
		t.Failf("%s is %s, not %s", what, s2(g), s2(want))
	}
	if !got.Equals(FQ2(want)) || got.IsZero() != want.IsZero() {
		t.Failf("%s equals %s in its coordinates, but Equals=%v IsZero=%v", what, s2(want), got.Equals(FQ2(want)), got.IsZero())
	}
}

func checkFQ2Unary(t *core.T, v ref.F2) {
	x := FQ2(v)
	n := s2(v)
	is2(t, "element", x, v)
	do := func(what string, f func(y *bls.FQ2), want ref.F2) {
		y := x.Copy()
		f(&y)
		is2(t, what+" of "+n, y, want)
	}
	do("double", func(y *bls.FQ2) { y.DoubleAssign() }, v.Add(v))
	do("negation", func(y *bls.FQ2) { y.NegAssign() }, v.Neg())
	do("square", func(y *bls.FQ2) { y.SquareAssign() }, v.Sqr())
	do("product with itself", func(y *bls.FQ2) { y.MulAssign(*y) }, v.Sqr())
	do("sum with itself", func(y *bls.FQ2) { y.AddAssign(*y) }, v.Add(v))
	do("difference with itself", func(y *bls.FQ2) { y.SubAssign(*y) }, ref.Int2(0, 0))
	do("multiple by 1+u", func(y *bls.FQ2) { y.MultiplyByNonresidueAssign() }, v.Mul(ref.Int2(1, 1)))
	for p := 0; p < 256; p++ {
		w := v
		if p%2 == 1 {
			w = v.Conj()
		}
		y := x
		y.FrobeniusMapAssign(uint8(p))
		if p < 4 || p > 250 {
			is2(t, "Frobenius power of "+n, y, w)
		} else if !y.Equals(FQ2(w)) {
			t.Failf("Frobenius power %d of %s is %s", p, n, s2(ofFQ2(y)))
		}
	}
	t.EvalN(256)
	y := x
	if g := ofFQ(y.Norm()); g.Cmp(v.Norm()) != 0 {
		t.Failf("norm of %s is %s", n, hexs(g))
	}
	if g := x.Parity(); g != (v.Cmp(v.Neg()) > 0) {
		t.Failf("parity of %s is %v", n, g)
	}
	neg := FQ2(v.Neg())
	if !v.IsZero() && neg.Parity() == x.Parity() {
		t.Failf("%s and its negation have the same parity", n)
	}
	for _, k := range []*big.Int{bi(0), one, bi(2), bi(3), bi(5), pow2(64), add(pow2(64), one), sub(bq, one), bq, add(bq, one), ref.R, sub(pow2(384), one), add(pow2(400), bi(3))} {
		kk := new(big.Int).Set(k)
		is2(t, n+" times "+hexs(k), x.MulBits(kk), v.Scale(k))
		if kk.Cmp(k) != 0 {
			t.Failf("MulBits changed its argument")
		}
	}
	is2(t, "operand afterwards", x, v)
}

func checkFQ2Heavy(t *core.T, v ref.F2) {
	x := FQ2(v)
	n := s2(v)
	y := x
	inv, ok := v.Inv()
	if got := y.InverseAssign(); got != ok {
		t.Failf("inverse of %s: success=%v", n, got)
	}
	if ok {
		is2(t, "inverse of "+n, y, inv)
		z := x
		z.DivAssign(x)
		is2(t, "quotient by itself of "+n, z, ref.Int2(1, 0))
	}
	l := x.Legendre()
	want := bls.LegendreQuadraticNonResidue
	if v.IsZero() {
		want = bls.LegendreZero
	} else if v.IsSquare() {
		want = bls.LegendreQuadraticResidue
	}
	t.Eval(true)
	if l != want {
		t.Failf("Legendre symbol of %s is %d, not %d", n, l, want)
	}
	s, found := x.Sqrt()
	t.Eval(true)
	if found != v.IsSquare() {
		t.Failf("square root of %s: found=%v", n, found)
	}
	if found {
		if g := ofFQ2(s); !g.Sqr().Eq(v) {
			t.Failf("square root of %s is %s", n, s2(g))
		}
	}
	for _, e := range []*big.Int{bi(0), one, bi(2), bi(3), add(pow2(64), one), bq, add(bq, one), sub(pow2(384), one)} {
		is2(t, n+" to the power "+hexs(e), x.Exp(Q6(e)), v.Exp(e))
	}
	is2(t, "operand afterwards", x, v)
}

func checkFQ2Pair(t *core.T, a, b ref.F2, x, y bls.FQ2) {
	chk := func(op string, got bls.FQ2, want ref.F2) {
		if g := ofFQ2(got); !g.Eq(want) {
			t.Failf("%s %s %s is %s, not %s", s2(a), op, s2(b), s2(g), s2(want))
		}
	}
	z := x
	z.AddAssign(y)
	chk("+", z, a.Add(b))
	z = x
	z.SubAssign(y)
	chk("-", z, a.Sub(b))
	z = x
	z.MulAssign(y)
	chk("*", z, a.Mul(b))
	c := a.Cmp(b)
	if g := x.Cmp(y); g != c {
		t.Failf("comparing %s with %s gives %d", s2(a), s2(b), g)
	}
	if g := x.Equals(y); g != (c == 0) {
		t.Failf("equality of %s and %s gives %v", s2(a), s2(b), g)
	}
	t.EvalN(5)
}

type fq2Op struct {
	name string
	do   func(x, y *bls.FQ2)
	mod  func(x, y ref.F2) ref.F2
}

func fq2Ops() []fq2Op {
	return []fq2Op{
		{"add", func(x, y *bls.FQ2) { x.AddAssign(*y) }, func(x, y ref.F2) ref.F2 { return x.Add(y) }},
		{"sub", func(x, y *bls.FQ2) { x.SubAssign(*y) }, func(x, y ref.F2) ref.F2 { return x.Sub(y) }},
		{"mul", func(x, y *bls.FQ2) { x.MulAssign(*y) }, func(x, y ref.F2) ref.F2 { return x.Mul(y) }},
		{"self-mul", func(x, y *bls.FQ2) { x.MulAssign(*x) }, func(x, y ref.F2) ref.F2 { return x.Sqr() }},
		{"self-add", func(x, y *bls.FQ2) { x.AddAssign(*x) }, func(x, y ref.F2) ref.F2 { return x.Add(x) }},
		{"square", func(x, y *bls.FQ2) { x.SquareAssign() }, func(x, y ref.F2) ref.F2 { return x.Sqr() }},
		{"double", func(x, y *bls.FQ2) { x.DoubleAssign() }, func(x, y ref.F2) ref.F2 { return x.Add(x) }},
		{"neg", func(x, y *bls.FQ2) { x.NegAssign() }, func(x, y ref.F2) ref.F2 { return x.Neg() }},
		{"frob", func(x, y *bls.FQ2) { x.FrobeniusMapAssign(1) }, func(x, y ref.F2) ref.F2 { return x.Conj() }},
		{"nonresidue", func(x, y *bls.FQ2) { x.MultiplyByNonresidueAssign() }, func(x, y ref.F2) ref.F2 { return x.Mul(ref.Int2(1, 1)) }},
		{"inverse", func(x, y *bls.FQ2) { x.InverseAssign() }, func(x, y ref.F2) ref.F2 {
			if i, ok := x.Inv(); ok {
				return i
			}
			return x
		}},
		{"swap", func(x, y *bls.FQ2) { *x, *y = *y, *x }, nil},
	}
}

// checkFQ2Seq explores the two-register machine from (a,b) breadth first.
func checkFQ2Seq(t *core.T, a, b ref.F2, depth int) {
	type node struct {
		x, y  ref.F2
		gx    bls.FQ2
		gy    bls.FQ2
		trail string
	}
	key := func(n node) string { return s2(n.x) + s2(n.y) }
	start := node{x: a, y: b, gx: FQ2(a), gy: FQ2(b)}
	seen := map[string]bool{key(start): true}
	level := []node{start}
	ops := fq2Ops()
	states, trans := int64(1), int64(0)
	for d := 0; d < depth; d++ {
		var next []node
		for _, n := range level {
			for _, o := range ops {
				m := n
				m.trail += " " + o.name
				o.do(&m.gx, &m.gy)
				if o.mod == nil {
					m.x, m.y = n.y, n.x
				} else {
					m.x = o.mod(n.x, n.y)
				}
				trans++
				if g := ofFQ2(m.gx); !g.Eq(m.x) {
					t.Failf("from %s, %s:%s gives %s, not %s", s2(a), s2(b), m.trail, s2(g), s2(m.x))
				}
				if g := ofFQ2(m.gy); !g.Eq(m.y) {
					t.Failf("from %s, %s:%s changes the other operand to %s", s2(a), s2(b), m.trail, s2(g))
				}
				if k := key(m); !seen[k] {
					seen[k] = true
					states++
					next = append(next, m)
				}
			}
		}
		level = next
	}
	t.State(states)
	t.Trans(trans)
	t.EvalN(trans)
	t.Trace(trans)
}

func init() {
	core.Register("C05", func(tier string) []core.Space {
		comps := fq2Comps(tier)
		el := append(fq2Elems(comps), special2()...)
		var lib []bls.FQ2
		for _, e := range el {
			lib = append(lib, FQ2(e))
		}
		// squares, non-squares and products with structure
		var heavy []ref.F2
		heavy = append(heavy, el...)
		for _, e := range el {
			if tier == "thorough" || e.A.Cmp(e.B) <= 0 {
				heavy = append(heavy, e.Sqr(), e.Sqr().Mul(ref.Int2(1, 1)))
			}
		}
		// the whole neighbourhood of zero, in both coordinates
		lo := int64(6)
		if tier == "thorough" {
			lo = 20
		}
		for a := -lo; a <= lo; a++ {
			for b := -lo; b <= lo; b++ {
				heavy = append(heavy, ref.Int2(a, b))
			}
		}
		seqStart := []ref.F2{ref.Int2(0, 0), ref.Int2(1, 0), ref.Int2(0, 1), ref.Int2(-1, 2), {A: comps[len(comps)-3], B: comps[len(comps)/2]}, {A: comps[len(comps)/2], B: bi(0)}}
		depth := 3
		if tier == "thorough" {
			depth = 4
		}
		ns := int64(len(seqStart))
		return []core.Space{
			{Name: "unary", N: int64(len(el)), Run: func(t *core.T, i int64) {
				checkFQ2Unary(t, el[i])
				if t.WantSample() {
					t.Sample("all one-operand operations of %s, Frobenius powers 0..255", s2(el[i]))
				}
			}},
			{Name: "roots", N: int64(len(heavy)), Portable: 6, Run: func(t *core.T, i int64) {
				checkFQ2Heavy(t, heavy[i])
				if t.WantSample() {
					t.Sample("inverse, square root, Legendre symbol and powers of %s", s2(heavy[i]))
				}
			}},
			{Name: "pairs", N: int64(len(el)), Run: func(t *core.T, i int64) {
				for k := range el {
					checkFQ2Pair(t, el[i], el[k], lib[i], lib[k])
				}
				t.State(int64(len(el)))
				if t.WantSample() {
					t.Sample("%s with each of %d elements: + - * compare equal", s2(el[i]), len(el))
				}
			}},
			powersFQ2(),
			{Name: "divide", N: int64(len(el)), Portable: 4, Run: func(t *core.T, i int64) {
				for k := i % 7; k < int64(len(el)); k += 7 {
					if inv, ok := el[k].Inv(); ok {
						z, y := lib[i], lib[k]
						z.DivAssign(y)
						is2(t, s2(el[i])+" / "+s2(el[k]), z, el[i].Mul(inv))
						is2(t, "divisor afterwards", y, el[k])
					}
				}
			}},
			{Name: "sequences", N: ns * ns, Portable: 4, Run: func(t *core.T, i int64) {
				checkFQ2Seq(t, seqStart[i/ns], seqStart[i%ns], depth)
				if t.WantSample() {
					t.Sample("all operation sequences to depth %d on registers %s, %s", depth, s2(seqStart[i/ns]), s2(seqStart[i%ns]))
				}
			}},
		}
	})
}
