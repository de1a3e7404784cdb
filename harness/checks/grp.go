package checks

import (
	"fmt"
	"math/big"
	"sync"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// pt is a model point of either curve.
type pt struct {
	g  int
	p1 ref.P1
	p2 ref.P2
}

func (p pt) inf() bool {
	if p.g == 1 {
		return p.p1.Inf
	}
	return p.p2.Inf
}

func (p pt) add(o pt) pt {
	if p.g == 1 {
		return pt{g: 1, p1: p.p1.Add(o.p1)}
	}
	return pt{g: 2, p2: p.p2.Add(o.p2)}
}

func (p pt) neg() pt {
	if p.g == 1 {
		return pt{g: 1, p1: p.p1.Neg()}
	}
	return pt{g: 2, p2: p.p2.Neg()}
}

func (p pt) eq(o pt) bool {
	if p.g == 1 {
		return p.p1.Eq(o.p1)
	}
	return p.p2.Eq(o.p2)
}

func (p pt) mul(k *big.Int) pt {
	if p.g == 1 {
		return pt{g: 1, p1: p.p1.MulK(k)}
	}
	return pt{g: 2, p2: p.p2.MulK(k)}
}

func (p pt) onCurve() bool {
	if p.g == 1 {
		return p.p1.OnCurve()
	}
	return p.p2.OnCurve()
}

// enc is the canonical compressed form.
func (p pt) enc() string {
	if p.g == 1 {
		b := ref.Compress1(p.p1)
		return string(b[:])
	}
	b := ref.Compress2(p.p2)
	return string(b[:])
}

func (p pt) String() string {
	if p.inf() {
		return "infinity"
	}
	if p.g == 1 {
		return "(" + hexs(p.p1.X) + "," + hexs(p.p1.Y) + ")"
	}
	return "(" + s2(p.p2.X) + "," + s2(p.p2.Y) + ")"
}

// grp gives both groups one face. Affine and projective library objects are
// passed as interface{} (always pointers).
type grp struct {
	id   int
	gen  pt
	inf  pt
	h    *big.Int
	zs   int // number of Z coordinates
	infs int // number of representatives of infinity
	a    func(p pt) interface{}
	// j makes a projective object; for infinity z selects the representative
	j          func(p pt, z int) interface{}
	ofA, ofJ   func(x interface{}) pt
	addJ       func(x, y interface{}) interface{}
	addA       func(x, a interface{}) interface{}
	dbl        func(x interface{}) interface{}
	toA, toJ   func(x interface{}) interface{}
	eqJ, eqA   func(x, y interface{}) bool
	zeroJ      func(x interface{}) bool
	zeroA      func(x interface{}) bool
	negA, negJ func(x interface{})
	cpA, cpJ   func(x interface{}) interface{}
	onCurve    func(x interface{}) bool
	inSub      func(x interface{}) bool
	mulA, mulJ func(x interface{}, k bls.FQRepr) interface{}
	frA, frJ   func(x interface{}, k *bls.FRRepr) interface{}
	scale      func(x interface{}) interface{}
	compress   func(x interface{}) []byte
	// decompress: checked or not
	decompress func(b []byte, checked bool) (interface{}, error)
	rdecomp    func(b []byte) (pt, bool)
	raw        func(a interface{}) []byte
	setRaw     func(a interface{}, b []byte)
	strA, strJ func(x interface{}) string
	constA     func() []interface{}
	size       int
}

var zList1 = []*big.Int{one, sub(ref.Q, one), bi(2), genZ(3), rInv384}

func genZ(k int64) *big.Int { return new(big.Int).Exp(bi(11), bi(700+k), ref.Q) }

var zList2 = []ref.F2{ref.Int2(1, 0), ref.Int2(-1, 0), ref.Int2(0, 1), {A: genZ(5), B: genZ(6)}, {A: bi(0), B: genZ(7)},
	{A: one, B: genZ(8)}, {A: genZ(8), B: bi(0)}, {A: genZ(8), B: one}, {A: one, B: one}}

var g1g = &grp{
	id: 1, gen: pt{g: 1, p1: ref.G1}, inf: pt{g: 1, p1: ref.Inf1()}, h: ref.H1, zs: len(zList1), infs: 4, size: 48,
	a: func(p pt) interface{} { return A1(p.p1) },
	j: func(p pt, z int) interface{} {
		if p.inf() {
			switch z % 4 {
			case 0:
				return bls.G1ProjectiveZero.Copy()
			case 1:
				return J1(p.p1, one)
			case 2:
				return J1(p.p1, genZ(9))
			default:
				// as it comes out of P + (-P)
				g := J1(ref.G1, bi(3))
				n := J1(ref.G1.Neg(), one)
				return g.Add(n)
			}
		}
		return J1(p.p1, zList1[z%len(zList1)])
	},
	ofA:   func(x interface{}) pt { return pt{g: 1, p1: ofA1(x.(*bls.G1Affine))} },
	ofJ:   func(x interface{}) pt { return pt{g: 1, p1: ofJ1(x.(*bls.G1Projective))} },
	addJ:  func(x, y interface{}) interface{} { return x.(*bls.G1Projective).Add(y.(*bls.G1Projective)) },
	addA:  func(x, a interface{}) interface{} { return x.(*bls.G1Projective).AddAffine(a.(*bls.G1Affine)) },
	dbl:   func(x interface{}) interface{} { return x.(*bls.G1Projective).Double() },
	toA:   func(x interface{}) interface{} { return x.(*bls.G1Projective).ToAffine() },
	toJ:   func(x interface{}) interface{} { return x.(*bls.G1Affine).ToProjective() },
	eqJ:   func(x, y interface{}) bool { return x.(*bls.G1Projective).Equal(y.(*bls.G1Projective)) },
	eqA:   func(x, y interface{}) bool { return x.(*bls.G1Affine).Equals(y.(*bls.G1Affine)) },
	zeroJ: func(x interface{}) bool { return x.(*bls.G1Projective).IsZero() },
	zeroA: func(x interface{}) bool { return x.(*bls.G1Affine).IsZero() },
	negA:  func(x interface{}) { x.(*bls.G1Affine).NegAssign() },
	negJ:  func(x interface{}) { x.(*bls.G1Projective).NegAssign() },
	cpA:   func(x interface{}) interface{} { return x.(*bls.G1Affine).Copy() },
	cpJ:   func(x interface{}) interface{} { return x.(*bls.G1Projective).Copy() },
	onCurve: func(x interface{}) bool {
		return x.(*bls.G1Affine).IsOnCurve()
	},
	inSub: func(x interface{}) bool { return x.(*bls.G1Affine).IsInCorrectSubgroupAssumingOnCurve() },
	mulA:  func(x interface{}, k bls.FQRepr) interface{} { return x.(*bls.G1Affine).Mul(k) },
	mulJ:  func(x interface{}, k bls.FQRepr) interface{} { return x.(*bls.G1Projective).Mul(k) },
	frA:   func(x interface{}, k *bls.FRRepr) interface{} { return x.(*bls.G1Affine).MulFR(k) },
	frJ:   func(x interface{}, k *bls.FRRepr) interface{} { return x.(*bls.G1Projective).MulFR(k) },
	scale: func(x interface{}) interface{} { return x.(*bls.G1Affine).ScaleByCofactor() },
	compress: func(x interface{}) []byte {
		b := bls.CompressG1(x.(*bls.G1Affine))
		return b[:]
	},
	decompress: func(b []byte, checked bool) (interface{}, error) {
		var a [48]byte
		copy(a[:], b)
		if checked {
			return bls.DecompressG1(a)
		}
		return bls.DecompressG1Unchecked(a)
	},
	rdecomp: func(b []byte) (pt, bool) {
		var a [48]byte
		copy(a[:], b)
		p, ok := ref.Decompress1(a)
		return pt{g: 1, p1: p}, ok
	},
	raw: func(a interface{}) []byte {
		b := a.(*bls.G1Affine).SerializeBytes()
		return b[:]
	},
	setRaw: func(a interface{}, b []byte) {
		var u [96]byte
		copy(u[:], b)
		a.(*bls.G1Affine).SetRawBytes(u)
	},
	strA: func(x interface{}) string { return x.(*bls.G1Affine).String() },
	strJ: func(x interface{}) string { return x.(*bls.G1Projective).String() },
}

var g2g = &grp{
	id: 2, gen: pt{g: 2, p2: ref.G2}, inf: pt{g: 2, p2: ref.Inf2()}, h: ref.H2, zs: len(zList2), infs: 4, size: 96,
	a: func(p pt) interface{} { return A2(p.p2) },
	j: func(p pt, z int) interface{} {
		if p.inf() {
			switch z % 4 {
			case 0:
				return bls.G2ProjectiveZero.Copy()
			case 1:
				return J2(p.p2, ref.Int2(1, 0))
			case 2:
				return J2(p.p2, zList2[3])
			default:
				g := J2(ref.G2, ref.Int2(3, 1))
				n := J2(ref.G2.Neg(), ref.Int2(1, 0))
				return g.Add(n)
			}
		}
		return J2(p.p2, zList2[z%len(zList2)])
	},
	ofA:   func(x interface{}) pt { return pt{g: 2, p2: ofA2(x.(*bls.G2Affine))} },
	ofJ:   func(x interface{}) pt { return pt{g: 2, p2: ofJ2(x.(*bls.G2Projective))} },
	addJ:  func(x, y interface{}) interface{} { return x.(*bls.G2Projective).Add(y.(*bls.G2Projective)) },
	addA:  func(x, a interface{}) interface{} { return x.(*bls.G2Projective).AddAffine(a.(*bls.G2Affine)) },
	dbl:   func(x interface{}) interface{} { return x.(*bls.G2Projective).Double() },
	toA:   func(x interface{}) interface{} { return x.(*bls.G2Projective).ToAffine() },
	toJ:   func(x interface{}) interface{} { return x.(*bls.G2Affine).ToProjective() },
	eqJ:   func(x, y interface{}) bool { return x.(*bls.G2Projective).Equals(y.(*bls.G2Projective)) },
	eqA:   func(x, y interface{}) bool { return x.(*bls.G2Affine).Equals(y.(*bls.G2Affine)) },
	zeroJ: func(x interface{}) bool { return x.(*bls.G2Projective).IsZero() },
	zeroA: func(x interface{}) bool { return x.(*bls.G2Affine).IsZero() },
	negA:  func(x interface{}) { x.(*bls.G2Affine).NegAssign() },
	cpA:   func(x interface{}) interface{} { return x.(*bls.G2Affine).Copy() },
	cpJ:   func(x interface{}) interface{} { return x.(*bls.G2Projective).Copy() },
	onCurve: func(x interface{}) bool {
		return x.(*bls.G2Affine).IsOnCurve()
	},
	inSub: func(x interface{}) bool { return x.(*bls.G2Affine).IsInCorrectSubgroupAssumingOnCurve() },
	mulA:  func(x interface{}, k bls.FQRepr) interface{} { return x.(*bls.G2Affine).Mul(k) },
	mulJ:  func(x interface{}, k bls.FQRepr) interface{} { return x.(*bls.G2Projective).Mul(k) },
	frA:   func(x interface{}, k *bls.FRRepr) interface{} { return x.(*bls.G2Affine).MulFR(k) },
	frJ:   func(x interface{}, k *bls.FRRepr) interface{} { return x.(*bls.G2Projective).MulFR(k) },
	scale: func(x interface{}) interface{} { return x.(*bls.G2Affine).ScaleByCofactor() },
	compress: func(x interface{}) []byte {
		b := bls.CompressG2(x.(*bls.G2Affine))
		return b[:]
	},
	decompress: func(b []byte, checked bool) (interface{}, error) {
		var a [96]byte
		copy(a[:], b)
		if checked {
			return bls.DecompressG2(a)
		}
		return bls.DecompressG2Unchecked(a)
	},
	rdecomp: func(b []byte) (pt, bool) {
		var a [96]byte
		copy(a[:], b)
		p, ok := ref.Decompress2(a)
		return pt{g: 2, p2: p}, ok
	},
	raw: func(a interface{}) []byte {
		b := a.(*bls.G2Affine).SerializeBytes()
		return b[:]
	},
	setRaw: func(a interface{}, b []byte) {
		var u [192]byte
		copy(u[:], b)
		_ = a.(*bls.G2Affine).SetRawBytes(u)
	},
	strA: func(x interface{}) string { return x.(*bls.G2Affine).String() },
	strJ: func(x interface{}) string { return x.(*bls.G2Projective).String() },
}

// isJ and isA compare a result with the model point.
func (g *grp) isJ(t *core.T, got interface{}, want pt, what func() string) {
	t.Eval(!want.inf())
	if p := g.ofJ(got); !p.eq(want) {
		t.Failf("%s is %v, not %v", what(), p, want)
	}
	if g.zeroJ(got) != want.inf() {
		t.Failf("%s: infinity test gives %v for %v", what(), g.zeroJ(got), want)
	}
}

func (g *grp) isA(t *core.T, got interface{}, want pt, what func() string) {
	t.Eval(!want.inf())
	if p := g.ofA(got); !p.eq(want) {
		t.Failf("%s is %v, not %v", what(), p, want)
	}
	if g.zeroA(got) != want.inf() {
		t.Failf("%s: infinity test gives %v for %v", what(), g.zeroA(got), want)
	}
}

// anyPoint is the k-th point found by trying x coordinates from k on; these
// points are (almost surely) of composite order, outside the subgroup.
func (g *grp) anyPoint(k int64) pt {
	for x := k; ; x++ {
		if g.id == 1 {
			if lo, _, ok := ref.FromX1(ref.Mod(bi(x), bq)); ok {
				return pt{g: 1, p1: lo}
			}
		} else {
			if lo, _, ok := ref.FromX2(ref.Int2(x, x*x+1)); ok {
				return pt{g: 2, p2: lo}
			}
		}
	}
}

func (g *grp) order() *big.Int { return mul(g.h, ref.R) }

// ofOrder finds a point of prime order l.
func (g *grp) ofOrder(l int64, from int64) pt {
	n := g.order()
	c := new(big.Int).Set(n)
	for new(big.Int).Mod(c, bi(l)).Sign() == 0 {
		c.Div(c, bi(l))
	}
	for k := from; ; k++ {
		p := g.anyPoint(k).mul(c)
		if p.inf() {
			continue
		}
		for {
			q := p.mul(bi(l))
			if q.inf() {
				return p
			}
			p = q
		}
	}
}

var smallCache sync.Map

// torsion lists all points generated by two points of order l.
func (g *grp) torsion(l int64) []pt {
	key := fmt.Sprint("tor", g.id, l)
	if v, ok := smallCache.Load(key); ok {
		return v.([]pt)
	}
	p := g.ofOrder(l, 1)
	seen := map[string]bool{}
	var out []pt
	line := func(base pt) {
		q := base
		for i := int64(0); i < l; i++ {
			if !seen[q.enc()] {
				seen[q.enc()] = true
				out = append(out, q)
			}
			q = q.add(p)
		}
	}
	line(g.inf)
	// a second, independent point if there is one
	for k := int64(40); k < 60; k++ {
		q := g.ofOrder(l, k)
		if seen[q.enc()] {
			continue
		}
		b := q
		for i := int64(1); i < l; i++ {
			line(b)
			b = b.add(q)
		}
		break
	}
	smallCache.Store(key, out)
	return out
}

// mixed are points of many kinds: multiples of the generator with their
// negatives, small orders, composite orders, sums across components, images
// under x -> beta x (equal y, different x).
func (g *grp) mixed(n int64) []pt {
	key := fmt.Sprint("mix", g.id, n)
	if v, ok := smallCache.Load(key); ok {
		return v.([]pt)
	}
	var out []pt
	seen := map[string]bool{}
	put := func(p pt) {
		if !seen[p.enc()] {
			seen[p.enc()] = true
			out = append(out, p)
		}
	}
	put(g.inf)
	q := g.gen
	for i := int64(1); i <= n; i++ {
		put(q)
		put(q.neg())
		q = q.add(g.gen)
	}
	half := new(big.Int).Rsh(add(ref.R, one), 1)
	put(g.gen.mul(half))
	put(g.gen.mul(pow2(128)))
	orders := []int64{3, 11, 10177}
	if g.id == 2 {
		orders = []int64{13, 23, 2713}
	}
	for _, l := range orders {
		p := g.ofOrder(l, 1)
		put(p)
		put(p.neg())
		put(p.add(p))
		put(p.add(g.gen))
		put(p.neg().add(g.gen))
	}
	for k := int64(2); k < 2+n; k++ {
		p := g.anyPoint(5 * k)
		put(p)
		put(p.neg())
		put(p.add(p))
		// same y, x times a cube root of unity
		if g.id == 1 {
			put(pt{g: 1, p1: ref.P1{X: ref.Mul(p.p1.X, beta), Y: p.p1.Y}})
		} else {
			put(pt{g: 2, p2: ref.P2{X: p.p2.X.Scale(beta), Y: p.p2.Y}})
		}
	}
	if g.id == 1 {
		put(pt{g: 1, p1: ref.P1{X: ref.Mul(ref.G1.X, beta), Y: ref.G1.Y}})
	} else {
		put(pt{g: 2, p2: ref.P2{X: ref.G2.X.Scale(beta), Y: ref.G2.Y}})
		for _, p := range tiePoints() {
			put(p)
		}
	}
	for _, p := range out {
		if !p.onCurve() {
			panic("model point off the curve")
		}
	}
	smallCache.Store(key, out)
	return out
}

// beta is a primitive cube root of unity in Fq.
var beta = func() *big.Int {
	e := new(big.Int).Div(sub(ref.Q, one), bi(3))
	for k := int64(2); ; k++ {
		b := new(big.Int).Exp(bi(k), e, ref.Q)
		if b.Cmp(one) != 0 {
			return b
		}
	}
}()

// cbrt2 finds a cube root in Fq2.
func cbrt2(c ref.F2) (ref.F2, bool) {
	n := sub(mul(ref.Q, ref.Q), one)
	if c.IsZero() {
		return c, true
	}
	if !c.Exp(new(big.Int).Div(n, bi(3))).Eq(ref.Int2(1, 0)) {
		return c, false
	}
	t := new(big.Int).Set(n)
	s := int64(1)
	for new(big.Int).Mod(t, bi(3)).Sign() == 0 {
		t.Div(t, bi(3))
		s *= 3
	}
	e := new(big.Int).ModInverse(bi(3), t)
	y := c.Exp(e)
	var w ref.F2
	for k := int64(1); ; k++ {
		w = ref.Int2(k, 1)
		if !w.Exp(new(big.Int).Div(n, bi(3))).Eq(ref.Int2(1, 0)) {
			break
		}
	}
	w = w.Exp(t)
	for i := int64(0); i < s; i++ {
		if y.Sqr().Mul(y).Eq(c) {
			return y, true
		}
		y = y.Mul(w)
	}
	return y, false
}

// tiePoints are points of the twist whose y coordinate has a zero component,
// where the ordering of y and -y is decided by the other component.
func tiePoints() (out []pt) {
	if v, ok := smallCache.Load("tie"); ok {
		return v.([]pt)
	}
	for c := 0; c < 2; c++ {
		n := 0
		for k := int64(1); n < 3; k++ {
			y := ref.MakeF2(genZ(k), bi(0))
			if c == 1 {
				y = ref.MakeF2(bi(0), genZ(k))
			}
			if x, ok := cbrt2(y.Sqr().Sub(ref.B2)); ok {
				p := pt{g: 2, p2: ref.P2{X: x, Y: y}}
				out = append(out, p, p.neg())
				n++
			}
		}
	}
	// x with a zero component
	for c := 0; c < 2; c++ {
		n := 0
		for k := int64(0); n < 3; k++ {
			x := ref.MakeF2(bi(k), bi(0))
			if c == 1 {
				x = ref.MakeF2(bi(0), bi(k))
			}
			if lo, hi, ok := ref.FromX2(x); ok {
				out = append(out, pt{g: 2, p2: lo}, pt{g: 2, p2: hi})
				n++
			}
		}
	}
	smallCache.Store("tie", out)
	return
}
