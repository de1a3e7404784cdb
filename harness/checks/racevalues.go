package checks

import (
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// raceValues calls each operation on many kinds of values, two goroutines for
// each of six values at a time, under the happens-before analysis; what each
// gets is compared with what one goroutine gets afterwards.
func raceValues(tier string) core.Space {
	type kase struct {
		what string
		vals func() []interface{}
		run  func(x interface{}) string
	}
	var cases []kase
	add := func(what string, vals func() []interface{}, run func(x interface{}) string) {
		cases = append(cases, kase{what, vals, run})
	}
	// messages
	lens := []int{0, 1, 2, 7, 8, 16, 20, 28, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 95, 96, 97, 119, 127, 128, 129, 191, 192, 193, 255, 256, 257, 512, 1024, 4096}
	msgs := func(from, step int) func() []interface{} {
		return func() (out []interface{}) {
			for i := from; i < len(lens); i += step {
				out = append(out, pattern(2, lens[i]))
				m := pattern(2, lens[i])
				if len(m) > 0 {
					m[len(m)-1] ^= 1
					out = append(out, m)
				}
			}
			return
		}
	}
	str := func(v interface{}) string { return fmt.Sprint(v) }
	for k := 0; k < 3; k++ {
		add("HashG1", msgs(k, 3), func(x interface{}) string { return bls.HashG1(x.([]byte)).String() })
		add("HashG2", msgs(k, 3), func(x interface{}) string { return bls.HashG2(x.([]byte)).String() })
	}
	digests := func() (out []interface{}) {
		for i := 0; i < 12; i++ {
			var d [32]byte
			copy(d[:], pattern(i%4, 32))
			d[3*i%32] ^= byte(i)
			out = append(out, d)
		}
		return append(out, [32]byte{}, [32]byte{})
	}
	add("HashG2WithDomain", digests, func(x interface{}) string {
		d := x.([32]byte)
		return bls.HashG2WithDomain(d, [8]byte{d[0] & 3}).ToAffine().String()
	})
	add("HashSecretKey", digests, func(x interface{}) string { return bls.HashSecretKey(x.([32]byte)).String() })
	// numbers
	nums := func() (out []interface{}) {
		for _, v := range []*big.Int{bi(0), bi(1), bi(2), bi(3), bi(16), bi(255), bi(65537), pow2(63), pow2(64), pow2(128), pow2(200), sub(pow2(255), one), sub(br, one), sub(br, bi(2)), new(big.Int).Rsh(br, 1), genCoef(3)} {
			out = append(out, new(big.Int).Mod(v, br))
		}
		return
	}
	for _, g := range []*grp{g1g, g2g} {
		g := g
		n := fmt.Sprintf("G%d ", g.id)
		one := g.a(g.gen)
		p3 := g.j(smallMul(g, 3), 3)
		add(n+"multiples", nums, func(x interface{}) string {
			r := R4(x.(*big.Int))
			return fmt.Sprint(g.ofJ(g.frA(one, r)), g.ofJ(g.frJ(p3, r)), g.ofJ(g.mulA(one, Q6(x.(*big.Int)))))
		})
		pts := func() (out []interface{}) {
			ps := []pt{g.inf, g.gen, g.gen.neg()}
			for i := int64(2); i < 9; i++ {
				ps = append(ps, smallMul(g, i*5%41))
			}
			ps = append(ps, g.torsion(map[int]int64{1: 11, 2: 13}[g.id])[1:4]...)
			for _, p := range append(ps, ps...) {
				out = append(out, p)
			}
			return
		}
		objs := func(mk func(p pt, i int) interface{}) func() []interface{} {
			return func() (out []interface{}) {
				for i, p := range pts() {
					out = append(out, mk(p.(pt), i))
				}
				return
			}
		}
		aff := objs(func(p pt, i int) interface{} { return g.a(p) })
		jac := objs(func(p pt, i int) interface{} { return g.j(p, i%2*3) })
		add(n+"affine points", aff, func(x interface{}) string {
			s := str(g.onCurve(x)) + str(g.inSub(x)) + str(g.zeroA(x)) + fmt.Sprintf("%x", g.compress(x)) + fmt.Sprintf("%x", g.raw(x)) + g.strA(x)
			return s + str(g.ofJ(g.toJ(x))) + str(g.eqA(x, one)) + str(g.ofA(g.cpA(x))) + str(g.ofJ(g.addA(p3, x)))
		})
		add(n+"cofactor", aff, func(x interface{}) string { return str(g.ofJ(g.scale(x))) })
		add(n+"projective points", jac, func(x interface{}) string {
			return str(g.ofA(g.toA(x))) + str(g.zeroJ(x)) + str(g.eqJ(x, p3)) + str(g.ofJ(g.dbl(x))) + str(g.ofJ(g.addJ(x, p3))) + str(g.ofJ(g.addJ(p3, x))) + str(g.ofJ(g.addJ(x, x))) + str(g.ofJ(g.cpJ(x))) + str(len(g.strJ(x)))
		})
		for _, checked := range []bool{false, true} {
			checked := checked
			add(fmt.Sprintf("%sdecompression, checked: %v", n, checked), objs(func(p pt, i int) interface{} { b := []byte(p.enc()); b[0] ^= byte(i / 30 << 5); return b }), func(x interface{}) string {
				p, err := g.decompress(x.([]byte), checked)
				if err != nil {
					return "error"
				}
				return str(g.ofA(p))
			})
		}
		if g.id == 2 {
			add("prepared points", aff, func(x interface{}) string {
				p := bls.G2AffineToPrepared(x.(*bls.G2Affine))
				if p.IsZero() {
					return "infinity"
				}
				return bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineOne, Q: p}}).String()
			})
			add("pairings", jac, func(x interface{}) string {
				q := x.(*bls.G2Projective)
				return bls.Pairing(bls.G1ProjectiveOne, q).String() + str(bls.CompareTwoPairings(bls.G1ProjectiveOne, q, bls.G1ProjectiveOne, bls.G2ProjectiveOne))
			})
		} else {
			q := bls.G2AffineToPrepared(A2(smallMul(g2g, 7).p2))
			add("pairings, first argument", aff, func(x interface{}) string {
				p := x.(*bls.G1Affine)
				return bls.MillerLoop([]bls.MillerLoopItem{{P: p, Q: q}}).String() + bls.Pairing(p.ToProjective(), bls.G2ProjectiveOne).String()
			})
		}
	}
	// fields
	fq := func() (out []interface{}) {
		for _, v := range []*big.Int{bi(0), bi(1), bi(2), bi(4), sub(bq, one), sub(bq, bi(2)), genCoef(1), genCoef(2), genCoef(3), pow2(64), pow2(320)} {
			x := FQ(v)
			out = append(out, &x)
		}
		return
	}
	add("Fq", fq, func(v interface{}) string {
		x := v.(*bls.FQ)
		r := x.ToRepr()
		s := str(x.IsZero()) + str(x.Legendre()) + str(x.Parity()) + str(r.IsEven()) + x.Exp(Q6(bi(77))).String() + r.String() + str(r.ToBig()) + x.String()
		if i, ok := x.Inverse(); ok {
			s += i.String()
		}
		if i, ok := x.Sqrt(); ok {
			s += i.String()
		}
		y := x.Copy()
		y.SquareAssign()
		y.MulAssign(*x)
		y.AddAssign(*x)
		y.DoubleAssign()
		y.SubAssign(*x)
		y.NegAssign()
		return s + y.String()
	})
	fr := func() (out []interface{}) {
		for _, v := range nums() {
			out = append(out, FR(v.(*big.Int)))
		}
		return
	}
	add("Fr", fr, func(v interface{}) string {
		x := v.(*bls.FR)
		s := str(x.IsZero()) + x.Exp(R4(bi(77))).String() + x.String() + str(ofFR(x))
		if i := x.Inverse(); i != nil {
			s += i.String()
		}
		y := x.Copy()
		y.SquareAssign()
		y.MulAssign(x)
		y.AddAssign(x)
		y.SubAssign(x)
		y.NegAssign()
		return s + y.String()
	})
	f2 := func() (out []interface{}) {
		for _, v := range append([]ref.F2{ref.Int2(0, 0), ref.Int2(1, 0), ref.Int2(0, 1), ref.Int2(4, 0), ref.Int2(-1, 0), ref.Int2(1, 1)}, special2()[:8]...) {
			x := FQ2(v)
			out = append(out, &x)
		}
		return
	}
	add("Fq2", f2, func(v interface{}) string {
		x := v.(*bls.FQ2)
		y := x.Copy()
		y.SquareAssign()
		y.MulAssign(*x)
		y.FrobeniusMapAssign(1)
		s := x.String() + x.Norm().String() + str(x.Legendre()) + y.String() + str(x.Parity())
		if i, ok := x.Sqrt(); ok {
			s += i.String()
		}
		if !x.IsZero() {
			z := x.Copy()
			z.InverseAssign()
			s += z.String()
		}
		return s
	})
	f12 := func() (out []interface{}) {
		for _, v := range append(special12()[:20], ref.One12()) {
			out = append(out, FQ12(v))
		}
		return
	}
	add("Fq12", f12, func(v interface{}) string {
		x := v.(*bls.FQ12)
		y := x.Copy()
		y.SquareAssign()
		y.MulAssign(x)
		for i := uint8(0); i < 12; i += 3 {
			y.FrobeniusMapAssign(i)
		}
		y.ConjugateAssign()
		s := x.String() + y.String() + x.Exp(bls.NewFQRepr(13)).String()
		if x.IsZero() {
			return s
		}
		z := x.Copy()
		z.InverseAssign()
		return s + z.String()
	})
	add("final exponentiation", f12, func(v interface{}) string {
		if r := bls.FinalExponentiation(v.(*bls.FQ12)); r != nil {
			return r.String()
		}
		return "nil"
	})
	// the schemes
	for _, s := range []*scheme{s1, s2s} {
		s := s
		k := s.sk(bi(9))
		p := s.pub(k)
		for from := 0; from < 5; from++ {
			add(s.name+" signatures of many messages", msgs(from, 5), func(x interface{}) string {
				m := x.([]byte)
				g := s.sign(m, k)
				return string(s.sigBytes(g)) + str(s.verify(m, p, g)) + str(s.vCommon(g, []interface{}{p}, m)) + str(s.vAgg(g, []interface{}{p}, [][]byte{m}))
			})
		}
		if s.domain {
			add(s.name+" signatures with a domain", func() []interface{} { return digests()[:7] }, func(x interface{}) string {
				m := x.([32]byte)
				d := [8]byte{m[0] & 3}
				g := s.signD(m, k, d)
				return string(s.sigBytes(g)) + str(s.verifyD(m, p, g, d)) + str(s.vAggD(g, []interface{}{p}, [][32]byte{m}, d))
			})
		}
		add(s.name+" secret keys", func() (out []interface{}) {
			for _, v := range nums() {
				out = append(out, s.sk(v.(*big.Int)))
			}
			return
		}, func(x interface{}) string {
			b := s.skBytes(x)
			r := string(b[:]) + s.skStr(x) + string(s.pubBytes(s.pub(x)))
			c := s.skBytes(s.skOf(b))
			d := s.skBytes(s.skDerive(b))
			return r + string(c[:]) + string(d[:])
		})
		keys := func() (out []interface{}) {
			for i := int64(0); i < 10; i++ {
				q := smallMul(s.pg, i*7%23)
				x := s.newPub(s.pg.a(q))
				if i%3 == 2 {
					s.pubAgg(x, s.newPub(s.pg.a(s.pg.gen)))
				}
				out = append(out, x)
			}
			return append(out, s.emptyPub())
		}
		add(s.name+" public keys", keys, func(x interface{}) string {
			b := s.pubBytes(x)
			r := string(b) + s.pubStr(x) + str(s.pubEq(x, p)) + str(s.pubEq(p, x)) + string(s.pubBytes(s.pubCopy(x))) + string(s.pubBytes(s.aggPubs([]interface{}{x, p, x})))
			if q, err := s.pubOf(b); err == nil {
				r += s.pubStr(q)
			}
			return r
		})
		sg := s.sign([]byte{1}, k)
		add(s.name+" signature objects", func() (out []interface{}) {
			for i := int64(0); i < 10; i++ {
				x := s.newSig(s.sg.a(smallMul(s.sg, i*7%23)))
				if i%3 == 2 {
					s.sigAgg(x, s.newSig(s.sg.a(s.sg.gen)))
				}
				out = append(out, x)
			}
			return append(out, s.emptySig())
		}, func(x interface{}) string {
			b := s.sigBytes(x)
			r := string(b) + s.sigStr(x) + string(s.sigBytes(s.sigCopy(x))) + string(s.sigBytes(s.aggSigs([]interface{}{x, sg, x}))) + str(s.verify([]byte{2}, p, x))
			if q, err := s.sigOf(b); err == nil {
				r += s.sigStr(q)
			}
			return r
		})
	}
	return core.Space{Name: "many values, happens-before analysis", N: int64(len(cases)), Run: func(t *core.T, i int64) {
		c := cases[i]
		vals := c.vals()
		call := func(x interface{}) (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprint("panic: ", r)
				}
			}()
			return c.run(x)
		}
		// every goroutine makes one call and ends: the analysis forgets the
		// earlier accesses of one that goes on for long
		const group, n = 6, 2
		for from := 0; from < len(vals); from += group {
			g := vals[from:]
			if len(g) > group {
				g = g[:group]
			}
			got := make([]string, len(g)*n)
			start, done := make(chan bool), make(chan bool, len(got))
			for k := range got {
				k := k
				go func() {
					<-start
					got[k] = call(g[k%len(g)])
					done <- true
				}()
			}
			close(start)
			for range got {
				<-done
			}
			for k := range got {
				t.Eval(true)
				t.Trans(1)
				if want := call(g[k%len(g)]); got[k] != want {
					t.Failf("%s, value %d: %q from one of %d goroutines, %q alone", c.what, from+k%len(g), clip(got[k]), len(got), clip(want))
				}
			}
		}
		if t.WantSample() {
			t.Sample("%s on %d values, from twelve goroutines", c.what, len(vals))
		}
	}}
}
