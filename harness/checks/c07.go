package checks

import (
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// pairLaw checks every two-operand operation on p and q for one choice of
// representatives.
func (g *grp) pairLaw(t *core.T, p, q, sum pt, zp, zq int) {
	x, y := g.j(p, zp), g.j(q, zq)
	same := p.eq(q)
	w := func(op string) func() string {
		return func() string { return fmt.Sprintf("%s of %v (representative %d) and %v (%d)", op, p, zp, q, zq) }
	}
	g.isJ(t, g.addJ(x, y), sum, w("sum"))
	if e := g.eqJ(x, y); e != same {
		t.Failf("%s gives %v", w("equality")(), e)
	}
	t.Eval(true)
	if zq == 0 {
		a := g.a(q)
		g.isJ(t, g.addA(x, a), sum, w("mixed sum"))
		if zp == 0 {
			b := g.a(p)
			if e := g.eqA(b, a); e != same {
				t.Failf("%s gives %v", w("affine equality")(), e)
			}
			t.Eval(true)
		}
	}
}

// single checks the one-operand operations.
func (g *grp) single(t *core.T, p pt) {
	n := g.zs
	if p.inf() {
		n = g.infs
	}
	dbl := p.add(p)
	for z := 0; z < n; z++ {
		z := z
		w := func(op string) func() string {
			return func() string { return fmt.Sprintf("%s of %v (representative %d)", op, p, z) }
		}
		x := g.j(p, z)
		g.isJ(t, x, p, w("projective point"))
		g.isJ(t, g.dbl(x), dbl, w("double"))
		g.isJ(t, g.addJ(x, x), dbl, w("sum with the same object"))
		g.isJ(t, g.cpJ(x), p, w("copy"))
		g.isA(t, g.toA(x), p, w("affine form"))
		g.isJ(t, g.toJ(g.toA(x)), p, w("affine and projective form"))
		g.isJ(t, g.addA(x, g.toA(x)), dbl, w("mixed sum with itself"))
		if !g.eqJ(x, g.toJ(g.toA(x))) || !g.eqJ(g.toJ(g.toA(x)), x) || !g.eqJ(x, x) {
			t.Failf("%v (representative %d) does not equal its own affine form", p, z)
		}
		if g.negJ != nil {
			y := g.cpJ(x)
			g.negJ(y)
			g.isJ(t, y, p.neg(), w("negation"))
			g.isJ(t, g.addJ(x, y), g.inf, w("sum with the negation"))
		}
		g.isJ(t, x, p, w("operand afterwards"))
		if !g.onCurve(g.toA(x)) {
			t.Failf("%v (representative %d) is reported off the curve", p, z)
		}
	}
	a := g.a(p)
	b := g.cpA(a)
	g.negA(b)
	wn := func(s string) func() string { return func() string { return fmt.Sprintf("%s of %v", s, p) } }
	g.isA(t, b, p.neg(), wn("affine negation"))
	g.isA(t, a, p, wn("original after negating the copy"))
	g.isJ(t, g.addA(g.toJ(a), b), g.inf, wn("mixed sum with the negation"))
	g.isJ(t, g.addJ(g.toJ(b), g.toJ(a)), g.inf, wn("sum with the negation"))
	if !g.onCurve(a) || !g.onCurve(b) {
		t.Failf("%v or its negation is reported off the curve", p)
	}
	g.negA(b)
	g.isA(t, b, p, wn("double negation"))
}

// curveTest compares the curve test with the equation on arbitrary coordinates.
func (g *grp) curveTest(t *core.T, p pt) {
	t.Eval(true)
	if r := g.onCurve(g.a(p)); r != p.onCurve() {
		t.Failf("curve test of %v gives %v", p, r)
	}
}

// lawSeq runs all operation sequences to the depth on three registers: a
// projective accumulator j, a projective operand k and an affine operand a.
func (g *grp) lawSeq(t *core.T, first []int, p, q, r pt, depth int) {
	type st struct {
		mj, mk, ma pt
		j, k, a    interface{}
	}
	names := []string{"j=j+k", "j=j+a", "j=2j", "k=j", "a=affine(j)", "j=proj(a)", "a=-a", "swap j,k", "j=k+j", "j=j+j"}
	step := func(s st, o int) st {
		switch o {
		case 0:
			s.j, s.mj = g.addJ(s.j, s.k), s.mj.add(s.mk)
		case 1:
			s.j, s.mj = g.addA(s.j, s.a), s.mj.add(s.ma)
		case 2:
			s.j, s.mj = g.dbl(s.j), s.mj.add(s.mj)
		case 3:
			s.k, s.mk = g.cpJ(s.j), s.mj
		case 4:
			s.a, s.ma = g.toA(s.j), s.mj
		case 5:
			s.j, s.mj = g.toJ(s.a), s.ma
		case 6:
			s.a = g.cpA(s.a)
			g.negA(s.a)
			s.ma = s.ma.neg()
		case 7:
			s.j, s.k, s.mj, s.mk = s.k, s.j, s.mk, s.mj
		case 8:
			s.j, s.mj = g.addJ(s.k, s.j), s.mj.add(s.mk)
		case 9:
			s.j, s.mj = g.addJ(s.j, s.j), s.mj.add(s.mj)
		}
		return s
	}
	seen := map[string]bool{}
	var rec func(s st, trail []int)
	rec = func(s st, trail []int) {
		if len(trail) == depth {
			t.Trace(1)
			return
		}
		for o := range names {
			if len(trail) < len(first) && first[len(trail)] != o {
				continue
			}
			n := step(s, o)
			tr := append(append([]int{}, trail...), o)
			what := func() string {
				s := ""
				for _, k := range tr {
					s += "; " + names[k]
				}
				return fmt.Sprintf("from j=%v, k=%v, a=%v%s: register", p, q, r, s)
			}
			switch o {
			case 3:
				g.isJ(t, n.k, n.mk, what)
			case 4, 6:
				g.isA(t, n.a, n.ma, what)
			default:
				g.isJ(t, n.j, n.mj, what)
			}
			t.Trans(1)
			// which model states were reached (representatives are not merged:
			// every sequence is run to the end)
			if key := n.mj.enc() + n.mk.enc() + n.ma.enc(); !seen[key] {
				seen[key] = true
				t.State(1)
			}
			rec(n, tr)
		}
	}
	rec(st{p, q, r, g.j(p, 3), g.j(q, 1), g.a(r)}, nil)
}

// lawSpaces are the spaces of C07 and C08.
func lawSpaces(g *grp, tier string) []core.Space {
	l := int64(11)
	if g.id == 2 {
		l = 13
	}
	tor := g.torsion(l)
	n := int64(3)
	if tier == "thorough" {
		n = 12
	}
	mix := g.mixed(n)
	idx := map[string]int{}
	for i, p := range tor {
		idx[p.enc()] = i
	}
	reps := func(p pt) int {
		if p.inf() {
			return g.infs
		}
		if tier == "thorough" {
			return g.zs
		}
		return 3
	}
	repsAll := func(p pt) int {
		if p.inf() {
			return g.infs
		}
		return g.zs
	}
	single := append(append([]pt{}, tor...), mix...)
	// registers of the sequences: generator, small order, infinity
	small := tor[1]
	seqStarts := [][3]pt{
		{g.gen, g.gen.neg(), g.gen},
		{small, small, small.neg()},
		{g.inf, g.gen, g.inf},
		{small, g.gen, g.gen.add(small)},
	}
	if g.id == 1 {
		o3 := g.ofOrder(3, 1)
		seqStarts = append(seqStarts, [3]pt{o3, o3.neg(), o3})
	}
	depth := 5
	if g.id == 2 {
		depth = 4
	}
	if tier == "thorough" {
		depth++
	}
	// arbitrary coordinates for the curve test
	var coords []pt
	if g.id == 1 {
		vals := []*big.Int{bi(0), one, bi(2), bi(4), sub(bq, one), sub(bq, bi(2)), ref.G1.X, ref.G1.Y, sub(bq, ref.G1.Y), ref.Mul(ref.G1.X, beta), mix[5].p1.X, mix[5].p1.Y}
		for _, x := range vals {
			for _, y := range vals {
				coords = append(coords, pt{g: 1, p1: ref.P1{X: x, Y: y}})
			}
		}
		for _, p := range single {
			if !p.inf() {
				coords = append(coords, p, pt{g: 1, p1: ref.P1{X: p.p1.X, Y: ref.Add(p.p1.Y, one)}}, pt{g: 1, p1: ref.P1{X: ref.Add(p.p1.X, one), Y: p.p1.Y}}, pt{g: 1, p1: ref.P1{X: p.p1.Y, Y: p.p1.X}})
			}
		}
		// points of other curves y^2 = x^3 + b
		for b := int64(0); b < 40; b++ {
			for x := int64(0); x < 10; x++ {
				rhs := ref.Add(bi(x*x*x), bi(b))
				if y := ref.Sqrt(rhs); y != nil && ref.Mul(y, y).Cmp(rhs) == 0 {
					coords = append(coords, pt{g: 1, p1: ref.P1{X: bi(x), Y: y}})
				}
			}
		}
	} else {
		vals := []ref.F2{ref.Int2(0, 0), ref.Int2(1, 0), ref.Int2(0, 1), ref.Int2(2, 2), ref.Int2(4, 4), ref.Int2(-1, 0), ref.G2.X, ref.G2.Y, ref.G2.Y.Neg(), ref.G2.X.Scale(beta), ref.G2.Y.Conj(), ref.G2.X.Conj()}
		for _, x := range vals {
			for _, y := range vals {
				coords = append(coords, pt{g: 2, p2: ref.P2{X: x, Y: y}})
			}
		}
		for _, p := range single {
			if !p.inf() {
				i, o := ref.Int2(0, 1), ref.Int2(1, 0)
				coords = append(coords, p,
					pt{g: 2, p2: ref.P2{X: p.p2.X, Y: p.p2.Y.Add(i)}}, pt{g: 2, p2: ref.P2{X: p.p2.X, Y: p.p2.Y.Add(o)}},
					pt{g: 2, p2: ref.P2{X: p.p2.X.Add(i), Y: p.p2.Y}}, pt{g: 2, p2: ref.P2{X: p.p2.X.Add(o), Y: p.p2.Y}},
					pt{g: 2, p2: ref.P2{X: p.p2.X.Conj(), Y: p.p2.Y}}, pt{g: 2, p2: ref.P2{X: p.p2.X, Y: p.p2.Y.Conj()}})
			}
		}
		for b := int64(0); b < 12; b++ {
			for c := int64(0); c < 12; c++ {
				rhs := ref.Int2(2+b, c-3)
				if y, ok := rhs.Sqrt(); ok {
					coords = append(coords, pt{g: 2, p2: ref.P2{X: ref.Int2(1, 0), Y: y}})
				}
			}
		}
	}
	xs := xCandidates(g, tier)
	nt, nm, ns := int64(len(tor)), int64(len(mix)), int64(len(seqStarts))
	torPort := int64(4)
	return []core.Space{
		{Name: "single", N: int64(len(single)), Run: func(t *core.T, i int64) {
			g.single(t, single[i])
			if t.WantSample() {
				t.Sample("one-operand operations of %v in every representative", single[i])
			}
		}},
		// every pair of an l-torsion subgroup: all exceptional cases occur
		{Name: fmt.Sprintf("all-pairs-of-%d-torsion", l), N: nt, Portable: torPort, Run: func(t *core.T, i int64) {
			p := tor[i]
			for k, q := range tor {
				s := p.add(q)
				if _, ok := idx[s.enc()]; !ok {
					panic("model: torsion not closed")
				}
				for zp := 0; zp < reps(p); zp++ {
					for zq := 0; zq < reps(q); zq++ {
						if tier != "thorough" && zp+zq > 0 && (int(i)+k+zp)%3 != zq%3 && i > 12 && k > 12 {
							continue
						}
						g.pairLaw(t, p, q, s, zp, zq)
					}
				}
			}
			t.State(nt)
			if t.WantSample() {
				t.Sample("%v with every point of the %d-torsion", p, l)
			}
		}},
		{Name: "all-pairs-mixed", N: nm, Portable: 2, Run: func(t *core.T, i int64) {
			p := mix[i]
			for _, q := range mix {
				s := p.add(q)
				full := p.eq(q) || s.inf() || p.inf() || q.inf()
				for zp := 0; zp < repsAll(p); zp++ {
					for zq := 0; zq < repsAll(q); zq++ {
						if !full && zp > 0 && zq > 0 && zp != zq {
							continue
						}
						g.pairLaw(t, p, q, s, zp, zq)
					}
				}
			}
			t.State(nm)
			if t.WantSample() {
				t.Sample("%v with every one of %d points, representatives crossed", p, nm)
			}
		}},
		coincidentSpace(g, tier),
		{Name: "associativity", N: nm, Portable: 4, Run: func(t *core.T, i int64) {
			p := mix[i]
			for k, q := range mix {
				r := mix[(int(i)*7+k*3)%len(mix)]
				x := g.addJ(g.addJ(g.j(p, 3), g.j(q, 1)), g.j(r, 2))
				y := g.addJ(g.j(p, 0), g.addJ(g.j(q, 3), g.j(r, 3)))
				t.Eval(true)
				if !g.eqJ(x, y) || !g.eqJ(y, x) {
					t.Failf("(%v + %v) + %v differs from %v + (%v + %v)", p, q, r, p, q, r)
				}
			}
		}},
		{Name: "curve-test", N: int64(len(coords)), Run: func(t *core.T, i int64) { g.curveTest(t, coords[i]) }},
		{Name: "point-from-x", N: int64(len(xs)), Portable: 4, Run: func(t *core.T, i int64) {
			fromX(t, g, xs[i])
			if t.WantSample() {
				t.Sample("both points with x = %s", s2(xs[i]))
			}
		}},
		{Name: "sequences", N: ns * 100, Portable: 10, Run: func(t *core.T, i int64) {
			s := seqStarts[i/100]
			g.lawSeq(t, []int{int(i / 10 % 10), int(i % 10)}, s[0], s[1], s[2], depth)
			if t.WantSample() {
				t.Sample("all sequences of %d operations beginning with operations %d, %d from %v, %v, %v", depth, i/10%10, i%10, s[0], s[1], s[2])
			}
		}},
	}
}

// xCandidates are x coordinates (for G1 only the first component is used).
func xCandidates(g *grp, tier string) (out []ref.F2) {
	n := int64(300)
	if tier == "thorough" {
		n = 6000
	}
	half := new(big.Int).Rsh(bq, 1)
	if g.id == 1 {
		for k := int64(0); k < n; k++ {
			out = append(out, ref.MakeF2(bi(k), bi(0)), ref.MakeF2(bi(-1-k), bi(0)))
		}
		for _, v := range below(nearList(10, half, pow2(380), pow2(64), pow2(320), fromMont(one)), bq) {
			out = append(out, ref.MakeF2(v, bi(0)))
		}
		for _, p := range g.mixed(3) {
			if !p.inf() {
				out = append(out, ref.MakeF2(p.p1.X, bi(0)))
			}
		}
		return
	}
	m := int64(10)
	if tier == "thorough" {
		m = 40
	}
	for a := -m; a <= m; a++ {
		for b := -m; b <= m; b++ {
			out = append(out, ref.Int2(a, b))
		}
	}
	c := []*big.Int{bi(0), one, half, sub(bq, one), pow2(380), genZ(1), fromMont(sub(pow2(320), one))}
	out = append(out, fq2Elems(c)...)
	for _, p := range g.mixed(3) {
		if !p.inf() {
			out = append(out, p.p2.X, p.p2.X.Conj())
		}
	}
	return
}

func fromX(t *core.T, g *grp, x ref.F2) {
	var lo, hi pt
	var ok bool
	get := func(greatest bool) (interface{}, error) {
		if g.id == 1 {
			p, err := bls.GetG1PointFromX(FQ(x.A), greatest)
			if p == nil {
				return nil, err
			}
			return p, err
		}
		p, err := bls.GetG2PointFromX(FQ2(x), greatest)
		if p == nil {
			return nil, err
		}
		return p, err
	}
	if g.id == 1 {
		l, h, o := ref.FromX1(x.A)
		lo, hi, ok = pt{g: 1, p1: l}, pt{g: 1, p1: h}, o
	} else {
		l, h, o := ref.FromX2(x)
		lo, hi, ok = pt{g: 2, p2: l}, pt{g: 2, p2: h}, o
	}
	for _, greatest := range []bool{false, true} {
		p, err := get(greatest)
		t.Eval(ok)
		if (err == nil) != ok {
			t.Failf("point with x=%s: error %v, but it exists: %v", s2(x), err, ok)
		}
		if !ok {
			continue
		}
		want := lo
		if greatest {
			want = hi
		}
		g.isA(t, p, want, func() string { return fmt.Sprintf("point with x=%s, larger one=%v", s2(x), greatest) })
		if !g.onCurve(p) {
			t.Failf("recovered point with x=%s is reported off the curve", s2(x))
		}
	}
}

func init() {
	core.Register("C07", func(tier string) []core.Space { return lawSpaces(g1g, tier) })
	core.Register("C08", func(tier string) []core.Space { return lawSpaces(g2g, tier) })
}
