package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

func be32(v *big.Int) (b [32]byte) {
	v.FillBytes(b[:])
	return
}

// skBytesCase: a 32-byte string as a secret key.
func (s *scheme) skBytesCase(t *core.T, v *big.Int) {
	b := be32(v)
	ok := v.Cmp(br) < 0
	sk := s.skOf(b)
	f := s.skFR(sk)
	t.Eval(ok)
	if t.WantSample() {
		t.Sample("%s secret key from %x: usable %v", s.name, b, ok)
	}
	if (f != nil) != ok {
		t.Failf("%s: %x as a secret key: usable %v", s.name, b, f != nil)
	}
	if !ok {
		return
	}
	if ofFR(f).Cmp(v) != 0 {
		t.Failf("%s: secret key from %x is %v", s.name, b, hexs(ofFR(f)))
	}
	if s.skBytes(sk) != b {
		t.Failf("%s: secret key from %x serialises as %x", s.name, b, s.skBytes(sk))
	}
	// the same value made from a representation
	k := s.sk(v)
	if s.skBytes(k) != b || !s.skFR(k).Equals(f) {
		t.Failf("%s: secret key %v serialises as %x", s.name, hexs(v), s.skBytes(k))
	}
	d := s.skOf(s.skBytes(k))
	if !s.skFR(d).Equals(s.skFR(k)) || s.skStr(d) != s.skStr(k) {
		t.Failf("%s: secret key %v does not round-trip", s.name, hexs(v))
	}
}

// objBytes: a byte string as a public key or signature.
func (s *scheme) objBytes(t *core.T, pub bool, b []byte) {
	g := s.sg
	kind := "signature"
	if pub {
		g, kind = s.pg, "public key"
	}
	p, ok := g.rdecomp(b)
	ok = ok && p.mul(ref.R).inf()
	var x interface{}
	var err error
	if pub {
		x, err = s.pubOf(b)
	} else {
		x, err = s.sigOf(b)
	}
	t.Eval(ok)
	if (err == nil) != ok {
		t.Failf("%s: %s from %x: error %v, valid %v", s.name, kind, b, err, ok)
	}
	if t.WantSample() {
		t.Sample("%s %s from %x: valid %v", s.name, kind, b, ok)
	}
	if !ok {
		return
	}
	if pub && (!s.pubIs(x, p) || !bytes.Equal(s.pubBytes(x), b)) {
		t.Failf("%s: public key from %x is %v", s.name, b, s.pg.ofJ(s.pubPoint(x)))
	}
	if !pub && (!s.sigIs(x, p) || !bytes.Equal(s.sigBytes(x), b)) {
		t.Failf("%s: signature from %x is %v", s.name, b, s.sg.ofJ(s.sigPoint(x)))
	}
}

func init() {
	core.Register("C16", func(tier string) []core.Space {
		thorough := tier == "thorough"
		var sp []core.Space
		put := func(x core.Space) { sp = append(sp, x) }
		var vs []*big.Int
		top := sub(w256, one)
		vs = append(vs, nearList(4, bi(4), br, mul(bi(2), br), pow2(64), pow2(128), pow2(192), pow2(255), sub(top, bi(4)), new(big.Int).Rsh(br, 1))...)
		for k := uint(0); k < 256; k++ {
			vs = append(vs, pow2(k), new(big.Int).Xor(br, pow2(k)), sub(pow2(k), one), new(big.Int).Xor(top, pow2(k)))
		}
		for k := int64(0); k < 40; k++ {
			vs = append(vs, new(big.Int).Mod(genZ(60+k), w256))
		}
		vs = append(vs, limbGrid([]uint64{0, 1, m64}, []uint64{0, 1, m64}, []uint64{0, 1, m64}, []uint64{0, 1, m64})...)
		// every limb equal, just below or just above that of r
		var rl [4]uint64
		bigLimbs(br, rl[:])
		vs = append(vs, limbGrid([]uint64{rl[0] - 1, rl[0], rl[0] + 1}, []uint64{rl[1] - 1, rl[1], rl[1] + 1}, []uint64{rl[2] - 1, rl[2], rl[2] + 1}, []uint64{rl[3] - 1, rl[3], rl[3] + 1})...)
		vs = dedup(vs)
		for _, s := range schemes {
			s := s
			put(core.Space{Name: s.name + " secret keys", N: int64(len(vs)), Run: func(t *core.T, i int64) {
				s.skBytesCase(t, vs[i])
			}})
			put(core.Space{Name: s.name + " derived keys", N: 256, Run: func(t *core.T, i int64) {
				var b [32]byte
				b[i%32] = byte(i)
				b[0] ^= byte(i / 7)
				v := ref.HashScalar(b)
				k := s.skDerive(b)
				t.Eval(true)
				if s.skBytes(k) != be32(v) {
					t.Failf("%s: key derived from %x serialises as %x", s.name, b, s.skBytes(k))
				}
				if d := s.skOf(s.skBytes(k)); !s.skFR(d).Equals(s.skFR(k)) {
					t.Failf("%s: key derived from %x does not round-trip", s.name, b)
				}
			}})
			// keys whose element comes out of arithmetic
			put(core.Space{Name: s.name + " computed keys", N: 120, Run: func(t *core.T, i int64) {
				a, b := new(big.Int).Mod(genZ(500+i), br), sub(br, bi(i%5+1))
				x := FR(a)
				switch i % 6 {
				case 0:
					x.AddAssign(FR(b))
					a = add(a, b)
				case 1:
					x.SubAssign(FR(b))
					a = sub(a, b)
				case 2:
					x.MulAssign(FR(b))
					a = mul(a, b)
				case 3:
					x.NegAssign()
					a = new(big.Int).Neg(a)
				case 4:
					x.DoubleAssign()
					a = add(a, a)
				case 5:
					x.SquareAssign()
					a = mul(a, a)
				}
				a = new(big.Int).Mod(a, br)
				k := s.sk(a)
				t.Eval(true)
				if x.Bytes() != be32(a) || s.skBytes(k) != be32(a) {
					t.Failf("%s: computed scalar %v serialises as %x", s.name, hexs(a), x.Bytes())
				}
			}})
			ks := []*big.Int{bi(0), bi(1), bi(2), bi(3), sub(br, one), sub(br, bi(2)), pow2(64), pow2(128), new(big.Int).Mod(genZ(41), br)}
			nk := int64(len(ks))
			put(core.Space{Name: s.name + " objects", N: nk * 5, Run: func(t *core.T, i int64) {
				k, way := ks[i%nk], int(i/nk)
				p := s.pubFor(k, way)
				wp := mulC(s.pg.gen, k)
				t.Eval(true)
				if string(s.pubBytes(p)) != wp.enc() {
					t.Failf("%s: public key of %v (way %d) serialises as %x", s.name, hexs(k), way, s.pubBytes(p))
				}
				q, err := s.pubOf(s.pubBytes(p))
				if err != nil || !s.pubEq(p, q) || !s.pubEq(q, p) || !bytes.Equal(s.pubBytes(q), s.pubBytes(p)) {
					t.Failf("%s: public key of %v (way %d) does not round-trip: %v", s.name, hexs(k), way, err)
				}
				if !s.pubIs(p, wp) || !s.pubIs(q, wp) {
					t.Failf("%s: public key of %v (way %d) changed by serialising", s.name, hexs(k), way)
				}
				ws := mulC(s.h([]byte{1, 2, 3}), k)
				x := s.sigFor(ws, way)
				if way == 4 {
					x = s.sign([]byte{1, 2, 3}, s.sk(k))
				}
				if string(s.sigBytes(x)) != ws.enc() {
					t.Failf("%s: signature by %v (way %d) serialises as %x", s.name, hexs(k), way, s.sigBytes(x))
				}
				y, err := s.sigOf(s.sigBytes(x))
				if err != nil || !s.sigIs(y, ws) || !s.sigIs(x, ws) {
					t.Failf("%s: signature by %v (way %d) does not round-trip: %v", s.name, hexs(k), way, err)
				}
			}})
			put(core.Space{Name: s.name + " key equality", N: nk * 5 * nk * 5, Portable: 3, Run: func(t *core.T, i int64) {
				a, b := i%(nk*5), i/(nk*5)
				p, q := s.pubFor(ks[a%nk], int(a/nk)), s.pubFor(ks[b%nk], int(b/nk))
				t.Eval(a != b)
				if want := ks[a%nk].Cmp(ks[b%nk]) == 0; s.pubEq(p, q) != want {
					t.Failf("%s: equality of the keys of %v (way %d) and %v (way %d) is %v", s.name, hexs(ks[a%nk]), a/nk, hexs(ks[b%nk]), b/nk, !want)
				}
			}})
			put(core.Space{Name: s.name + " copies", N: nk * 5 * 6, Run: func(t *core.T, i int64) {
				k, way := ks[i%nk], int(i/nk%5)
				wp, ws := mulC(s.pg.gen, k), mulC(s.h([]byte{9}), k)
				p, x := s.pubFor(k, way), s.sigFor(ws, way)
				pc, xc := s.pubCopy(p), s.sigCopy(x)
				t.Eval(true)
				if !s.pubIs(pc, wp) || !s.sigIs(xc, ws) || !s.pubEq(pc, p) {
					t.Failf("%s: copies of the key or signature of %v differ", s.name, hexs(k))
				}
				switch i / nk / 5 {
				case 0:
					s.pubAgg(pc, s.pubFor(bi(7), 0))
					s.sigAgg(xc, s.sigFor(s.sg.gen, 0))
					if !s.pubIs(p, wp) || !s.sigIs(x, ws) {
						t.Failf("%s: aggregating onto a copy changed the original (key %v, way %d)", s.name, hexs(k), way)
					}
				case 1:
					s.pubAgg(p, s.pubFor(bi(7), 0))
					s.sigAgg(x, s.sigFor(s.sg.gen, 0))
					if !s.pubIs(pc, wp) || !s.sigIs(xc, ws) {
						t.Failf("%s: aggregating onto the original changed its copy (key %v, way %d)", s.name, hexs(k), way)
					}
				case 2:
					// points taken out of the objects
					wreck(s.pubPoint(p))
					wreck(s.sigPoint(x))
					if !s.pubIs(p, wp) || !s.sigIs(x, ws) {
						t.Failf("%s: changing the point taken from a key or signature changed it (key %v, way %d)", s.name, hexs(k), way)
					}
				case 3:
					// serialising does not disturb the object
					s.pubBytes(p)
					s.sigBytes(x)
					if s.pubStr(p) != s.pubStr(pc) || s.sigStr(x) != s.sigStr(xc) {
						t.Failf("%s: serialising changed the key or signature of %v (way %d)", s.name, hexs(k), way)
					}
				case 4:
					// objects made from affine points
					a := s.pg.a(wp)
					b := s.sg.a(ws)
					p2, x2 := s.newPub(a), s.newSig(b)
					wreck(a)
					wreck(b)
					if !s.pubIs(p2, wp) || !s.sigIs(x2, ws) {
						t.Failf("%s: changing the affine point changed the key or signature made from it (%v)", s.name, hexs(k))
					}
				case 5:
					s.pubAgg(p, pc)
					s.sigAgg(x, xc)
					if !s.pubIs(pc, wp) || !s.sigIs(xc, ws) || !s.pubIs(p, wp.add(wp)) || !s.sigIs(x, ws.add(ws)) {
						t.Failf("%s: adding a copy to its original goes wrong (key %v, way %d)", s.name, hexs(k), way)
					}
				}
			}})
			put(core.Space{Name: s.name + " coming back to earlier keys and signatures", N: 3, Run: func(t *core.T, i int64) {
				s.remember16(t, int(i))
			}})
			// lives of objects: all words over the operations
			depth, ways := 4, int64(1)
			if thorough {
				depth, ways = 5, 5
			}
			put(core.Space{Name: s.name + " lives of a secret key", N: ipow(6, depth) * 2, Portable: 6, Run: func(t *core.T, i int64) {
				s.keyLife(t, wordOf(i/2, 6, depth), []*big.Int{ks[8], sub(br, one)}[i%2])
			}})
			for _, pub := range []bool{false, true} {
				pub := pub
				name := s.name + " lives of a signature"
				if pub {
					name = s.name + " lives of a public key"
				}
				short := ipow(lifeOps, 3) * 5
				put(core.Space{Name: name, N: short + ipow(lifeOps, depth)*ways, Portable: 16, Run: func(t *core.T, i int64) {
					if i < short {
						s.life(t, pub, wordOf(i/5, lifeOps, 3), ks[8], int(i%5))
						return
					}
					i -= short
					s.life(t, pub, wordOf(i/ways, lifeOps, depth), []*big.Int{one, ks[8]}[i/ways/2%2], int(i%ways))
				}})
				g, l := s.sg, int64(11)
				name = s.name + " signature"
				if pub {
					g, name = s.pg, s.name+" public key"
				}
				if g.id == 2 {
					l = 13
				}
				grid := g.byteGrid(l)
				var pts []pt
				pts = append(append(append(pts, g.mixed(2)...), g.torsion(l)...), g.torsion(l)...)
				port := int64(6)
				if g.id == 2 {
					port = 12
				}
				put(core.Space{Name: name + " bytes of points", N: int64(len(pts)), Portable: 4, Run: func(t *core.T, i int64) {
					p := pts[i]
					if i >= int64(len(pts)-len(g.torsion(l))) {
						p = p.add(g.gen.mul(bi(i))) // outside by a small component only
					}
					s.objBytes(t, pub, []byte(p.enc()))
				}})
				put(core.Space{Name: name + " byte grid", N: int64(len(grid)), Portable: port, Run: func(t *core.T, i int64) {
					s.objBytes(t, pub, append([]byte{}, grid[i]...))
				}})
				n := int64(g.size * 8)
				if g.id == 2 && !thorough {
					n = 48 * 8
				}
				put(core.Space{Name: name + " flipped bits", N: n, Portable: port, Run: func(t *core.T, i int64) {
					b := []byte(mulC(g.gen, ks[8]).enc())
					b[i/8] ^= 1 << uint(i%8)
					s.objBytes(t, pub, b)
				}})
			}
		}
		return sp
	})
}

// wreck changes a point in place.
func wreck(x interface{}) {
	switch p := x.(type) {
	case *bls.G1Affine:
		p.NegAssign()
		p.SetRawBytes([96]byte{95: 7})
	case *bls.G2Affine:
		p.NegAssign()
		_ = p.SetRawBytes([192]byte{191: 7})
	case *bls.G1Projective:
		p.NegAssign()
		*p = *J1(ref.G1, bi(77))
	case *bls.G2Projective:
		*p = *J2(ref.G2, ref.Int2(7, 7))
	default:
		panic(fmt.Sprintf("wreck %T", x))
	}
}
