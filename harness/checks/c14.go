package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"verifharness/core"
)

func sigKeys(tier string) []*big.Int {
	v := []*big.Int{bi(0), bi(1), bi(2), bi(3), sub(br, one), new(big.Int).Rsh(br, 1), pow2(64), sub(pow2(128), one), pow2(254), new(big.Int).Mod(genZ(41), br)}
	if tier == "thorough" {
		v = append(v, nearList(1, pow2(32), pow2(63), pow2(64), pow2(127), pow2(192), pow2(253))...)
		v = append(v, sub(br, bi(2)), new(big.Int).Mod(genZ(42), br), new(big.Int).Mod(genZ(43), br))
		for k := uint(1); k < 254; k += 9 {
			v = append(v, pow2(k))
		}
	}
	return dedup(v)
}

func sigMsgs(tier string) [][]byte {
	v := [][]byte{{}, {0}, {0, 0}, {1}, []byte("abc"), []byte("abcd"), pattern(1, 31), pattern(0, 32), pattern(2, 33), pattern(2, 64), pattern(2, 1000)}
	if tier == "thorough" {
		for k := 1; k < 140; k += 3 {
			v = append(v, pattern(3, k))
		}
	}
	return v
}

func sigDigests() [][32]byte {
	var a, b, c, d [32]byte
	b[31] = 1
	copy(c[:], pattern(2, 32))
	copy(d[:], pattern(1, 32))
	return [][32]byte{a, b, c, d}
}

func sigDomains() [][8]byte {
	return [][8]byte{{}, {0, 0, 0, 0, 0, 0, 0, 1}, {1}, {255, 255, 255, 255, 255, 255, 255, 255}}
}

// verdict runs one verification and compares it with the model equation.
func (s *scheme) verdict(t *core.T, what string, m []byte, pub, sig interface{}, want bool) {
	p0, g0 := s.pubStr(pub)+string(s.pubBytes(pub)), s.sigStr(sig)+string(s.sigBytes(sig))
	buf := make([]byte, len(m)+40)
	for i := range buf {
		buf[i] = 0x5a
	}
	copy(buf[4:], m)
	whole := append([]byte{}, buf...)
	if t.WantSample() {
		t.Sample("%s %s: expect %v", s.name, what, want)
	}
	t.Eval(true)
	if got := s.verify(buf[4:4+len(m)], pub, sig); got != want {
		t.Failf("%s: verification of %s gives %v", s.name, what, got)
	}
	if !bytes.Equal(buf, whole) {
		t.Failf("%s: verification of %s changed the message buffer", s.name, what)
	}
	if s.pubStr(pub)+string(s.pubBytes(pub)) != p0 || s.sigStr(sig)+string(s.sigBytes(sig)) != g0 {
		t.Failf("%s: verification of %s changed the key or the signature", s.name, what)
	}
}

func (s *scheme) verdictD(t *core.T, what string, m [32]byte, d [8]byte, pub, sig interface{}, want bool) {
	p0, g0 := s.pubStr(pub)+string(s.pubBytes(pub)), s.sigStr(sig)+string(s.sigBytes(sig))
	t.Eval(true)
	if got := s.verifyD(m, pub, sig, d); got != want {
		t.Failf("%s: verification of %s gives %v", s.name, what, got)
	}
	if s.pubStr(pub)+string(s.pubBytes(pub)) != p0 || s.sigStr(sig)+string(s.sigBytes(sig)) != g0 {
		t.Failf("%s: verification of %s changed the key or the signature", s.name, what)
	}
}

// honest signs and verifies one message under one key.
func (s *scheme) honest(t *core.T, k *big.Int, m []byte, way int) {
	what := fmt.Sprintf("key %v, message %x", hexs(k), m)
	sk := s.sk(k)
	kb, ks := s.skBytes(sk), s.skStr(sk)
	pub := s.pub(sk)
	t.Eval(true)
	if !s.pubIs(pub, mulC(s.pg.gen, k)) {
		t.Failf("%s: public key of %v is %x", s.name, hexs(k), s.pubBytes(pub))
	}
	buf := append(append([]byte{}, m...), pattern(1, 48)...)
	sig := s.sign(buf[:len(m)], sk)
	if !bytes.Equal(buf[:len(m)], m) || !bytes.Equal(buf[len(m):], pattern(1, 48)) {
		t.Failf("%s: signing with %s changed the message buffer", s.name, what)
	}
	want := mulC(s.h(m), k)
	t.Eval(true)
	if !s.sigIs(sig, want) {
		t.Failf("%s: signature with %s is %x, not %x", s.name, what, s.sigBytes(sig), want.enc())
	}
	again := s.sign(append([]byte{}, m...), sk)
	if !bytes.Equal(s.sigBytes(again), s.sigBytes(sig)) {
		t.Failf("%s: signing twice with %s gives different signatures", s.name, what)
	}
	if s.skBytes(sk) != kb || s.skStr(sk) != ks || ofFR(s.skFR(sk)).Cmp(k) != 0 {
		t.Failf("%s: signing with %s changed the key", s.name, what)
	}
	s.verdict(t, "own signature, "+what, m, pub, sig, true)
	s.verdict(t, fmt.Sprintf("own signature rebuilt (%d), %s", way, what), m, s.pubFor(k, way), s.sigFor(want, way/5), true)
}

func (s *scheme) honestD(t *core.T, k *big.Int, m [32]byte, d [8]byte, way int) {
	what := fmt.Sprintf("key %v, digest %x, domain %x", hexs(k), m, d)
	sk := s.sk(k)
	kb := s.skBytes(sk)
	sig := s.signD(m, sk, d)
	want := mulC(s.hd(m, d), k)
	t.Eval(true)
	if !s.sigIs(sig, want) {
		t.Failf("%s: signature with %s is %x, not %x", s.name, what, s.sigBytes(sig), want.enc())
	}
	if s.skBytes(sk) != kb {
		t.Failf("%s: signing with %s changed the key", s.name, what)
	}
	s.verdictD(t, "own signature, "+what, m, d, s.pub(sk), sig, true)
	s.verdictD(t, "own signature rebuilt, "+what, m, d, s.pubFor(k, way), s.sigFor(want, way/5), true)
}

func init() {
	core.Register("C14", func(tier string) []core.Space {
		thorough := tier == "thorough"
		var sp []core.Space
		add := func(x core.Space) { sp = append(sp, x) }
		keys, msgs := sigKeys(tier), sigMsgs(tier)
		nk, nm := int64(len(keys)), int64(len(msgs))
		digs, doms := sigDigests(), sigDomains()
		few := []*big.Int{bi(2), sub(br, bi(2)), new(big.Int).Mod(genZ(41), br)}
		for _, s := range schemes {
			s := s
			add(core.Space{Name: s.name + " honest", N: nk * nm, Portable: 4, Run: func(t *core.T, i int64) {
				s.honest(t, keys[i%nk], msgs[i/nk], int(i))
			}})
			// signatures of one pair under another pair
			ms := msgs[:8]
			n := int64(len(few) * len(ms))
			add(core.Space{Name: s.name + " other key or message", N: n * n, Portable: 4, Run: func(t *core.T, i int64) {
				a, b := i%n, i/n
				k1, m1 := few[a%3], ms[a/3]
				k2, m2 := few[b%3], ms[b/3]
				if !thorough && k1.Cmp(k2) != 0 && (a/3)%2 != (b/3)%2 {
					return
				}
				p := mulC(s.h(m1), k1)
				want := p.eq(mulC(s.h(m2), k2))
				s.verdict(t, fmt.Sprintf("signature by %v on %x under %v and %x", hexs(k1), m1, hexs(k2), m2), m2, s.pubFor(k2, int(i)), s.sigFor(p, int(i/7)), want)
			}})
			// linear combinations of signatures
			k0, k1 := few[2], few[0]
			h0, h1 := []byte("abc"), []byte{}
			cs := []*big.Int{bi(0), k0, sub(br, k0), new(big.Int).Mod(new(big.Int).Add(k0, k1), br), new(big.Int).Add(k0, one), bi(1), k1}
			nc := int64(len(cs))
			es := []*big.Int{bi(0), bi(1), sub(br, one)}
			pubs := []*big.Int{k0, bi(0), k1, sub(br, k0)}
			add(core.Space{Name: s.name + " linear combinations", N: nc * nc * 3 * 4, Portable: 4, Run: func(t *core.T, i int64) {
				c0, c1, e, pk := cs[i%nc], cs[i/nc%nc], es[i/nc/nc%3], pubs[i/nc/nc/3]
				p := mulC(s.h(h0), c0).add(mulC(s.h(h1), c1)).add(mulC(s.sg.gen, e))
				want := p.eq(mulC(s.h(h0), pk))
				s.verdict(t, fmt.Sprintf("%v h(abc) + %v h() + %v G under key %v and abc", c0, c1, e, pk), h0, s.pubFor(pk, int(i)), s.sigFor(p, int(i/5)), want)
			}})
			// the same message with one bit changed, a byte added or removed
			base := pattern(2, 40)
			add(core.Space{Name: s.name + " changed message", N: 320 + 4, Portable: 8, Run: func(t *core.T, i int64) {
				m := append([]byte{}, base...)
				switch {
				case i < 320:
					m[i/8] ^= 1 << uint(i%8)
				case i == 320:
					m = append(m, 0)
				case i == 321:
					m = append([]byte{0}, m...)
				case i == 322:
					m = m[:39]
				case i == 323:
					m = m[1:]
				}
				p := mulC(s.h(base), k0)
				s.verdict(t, fmt.Sprintf("signature on %x for %x", base, m), m, s.pubFor(k0, 4), s.sigFor(p, 0), false)
			}})
			// histories: every ordered pair of calls on look-alike arguments
			tm, tk := twoMsgs(), append(twoKeys(), sameHashKeys(s.pg.id)...)
			add(core.Space{Name: s.name + " histories on two messages", N: int64(len(tm)) * 2, Portable: 8, Run: func(t *core.T, i int64) {
				s.signHistory(t, tm[i/2], [2]*big.Int{k0, k1}, i%2 == 1, thorough)
			}})
			add(core.Space{Name: s.name + " histories on two keys", N: int64(len(tk)) * 2, Portable: 8, Run: func(t *core.T, i int64) {
				s.signHistory(t, [2][]byte{pattern(2, 40), {}}, tk[i/2], i%2 == 1, true)
			}})
			add(core.Space{Name: s.name + " coming back to earlier messages", N: 1, Run: func(t *core.T, i int64) {
				s.remember14(t, 80)
			}})
			if !s.domain {
				continue
			}
			td, to := twoDigests(), twoDomains()
			no := int64(2)
			if thorough {
				no = int64(len(to))
			}
			add(core.Space{Name: s.name + " histories with domain", N: int64(len(td)) * no, Portable: 16, Run: func(t *core.T, i int64) {
				n := int64(len(td))
				s.domainHistory(t, td[i%n], to[(i/n+i%n*no)%int64(len(to))], k0)
			}})
			nd := int64(len(digs) * len(doms))
			add(core.Space{Name: s.name + " honest with domain", N: nk * nd, Portable: 6, Run: func(t *core.T, i int64) {
				j := i / nk
				s.honestD(t, keys[i%nk], digs[j%4], doms[j/4], int(i))
			}})
			add(core.Space{Name: s.name + " other digest or domain", N: nd * nd * 2, Portable: 6, Run: func(t *core.T, i int64) {
				a, b, same := i%nd, i/nd%nd, i/nd/nd == 0
				kb := k0
				if !same {
					kb = k1
				}
				p := mulC(s.hd(digs[a%4], doms[a/4]), k0)
				want := p.eq(mulC(s.hd(digs[b%4], doms[b/4]), kb))
				s.verdictD(t, fmt.Sprintf("signature on digest %d domain %d under digest %d domain %d, same key %v", a%4, a/4, b%4, b/4, same), digs[b%4], doms[b/4], s.pubFor(kb, int(i)), s.sigFor(p, int(i/7)), want)
			}})
			add(core.Space{Name: s.name + " changed digest or domain", N: 320, Portable: 8, Run: func(t *core.T, i int64) {
				m, d := digs[2], doms[3]
				if i < 256 {
					m[i/8] ^= 1 << uint(i%8)
				} else {
					d[(i-256)/8] ^= 1 << uint(i%8)
				}
				p := mulC(s.hd(digs[2], doms[3]), k0)
				s.verdictD(t, fmt.Sprintf("signature with bit %d of digest or domain changed", i), m, d, s.pubFor(k0, 4), s.sigFor(p, 0), false)
			}})
			add(core.Space{Name: s.name + " combinations with domain", N: nc * nc * 4, Portable: 4, Run: func(t *core.T, i int64) {
				c0, c1, pk := cs[i%nc], cs[i/nc%nc], pubs[i/nc/nc]
				m, d := digs[2], doms[1]
				p := mulC(s.hd(m, d), c0).add(mulC(s.h(m[:]), c1))
				want := p.eq(mulC(s.hd(m, d), pk))
				s.verdictD(t, fmt.Sprintf("%v h(m,d) + %v h(m) under key %v", c0, c1, pk), m, d, s.pubFor(pk, int(i)), s.sigFor(p, int(i/5)), want)
			}})
		}
		return sp
	})
}
