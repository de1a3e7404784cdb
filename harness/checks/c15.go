package checks

import (
	"bytes"
	"math/big"

	"verifharness/core"
	"verifharness/ref"
)

// member is one entry of an aggregate: key index and message index.
type member struct{ k, m int }

// agg is an alphabet of keys and messages.
type agg struct {
	s    *scheme
	keys []*big.Int
	msgs [][]byte
	digs [][32]byte
	dom  [8]byte
}

func newAgg(s *scheme) *agg {
	k := new(big.Int).Mod(genZ(51), br)
	return &agg{
		s:    s,
		keys: []*big.Int{bi(3), k, sub(br, k), bi(0)},
		// empty, prefixes of each other, and sorting by length or by content
		msgs: [][]byte{{}, {2}, {1, 1}, {2, 0}, {0xff}, pattern(0, 40)},
		digs: sigDigests(),
		dom:  [8]byte{3, 0, 0, 0, 0, 0, 0, 9},
	}
}

// copies of lists given to the library, compared after the call
func cloneMsgs(m [][]byte) [][]byte {
	out := make([][]byte, len(m))
	for i := range m {
		b := make([]byte, len(m[i]), len(m[i])+8)
		copy(b, m[i])
		out[i] = b
	}
	return out
}

func (a *agg) fingerprint(sig interface{}, pubs []interface{}) string {
	f := a.s.sigStr(sig)
	for _, p := range pubs {
		f += "|" + a.s.pubStr(p)
	}
	return f
}

// sum is the model's aggregate signature.
func (a *agg) sum(l []member, skip int) pt {
	p := a.s.sg.inf
	for i, x := range l {
		if i != skip {
			p = p.add(mulC(a.s.h(a.msgs[x.m]), a.keys[x.k]))
		}
	}
	return p
}

func (a *agg) sumD(l []member, skip int) pt {
	p := a.s.sg.inf
	for i, x := range l {
		if i != skip {
			p = p.add(mulC(a.s.hd(a.digs[x.m], a.dom), a.keys[x.k]))
		}
	}
	return p
}

// check verifies a list with a given signature point.
func (a *agg) check(t *core.T, l []member, sp pt, way int) {
	distinct := true
	for i := range l {
		for j := 0; j < i; j++ {
			if bytes.Equal(a.msgs[l[i].m], a.msgs[l[j].m]) {
				distinct = false
			}
		}
	}
	want := distinct && sp.eq(a.sum(l, -1))
	var pubs []interface{}
	var msgs [][]byte
	for i, x := range l {
		pubs = append(pubs, a.s.pubFor(a.keys[x.k], way+i))
		msgs = append(msgs, a.msgs[x.m])
	}
	sig := a.s.sigFor(sp, way/3)
	f := a.fingerprint(sig, pubs)
	given := cloneMsgs(msgs)
	t.Eval(true)
	if t.WantSample() {
		t.Sample("%s aggregate over (key,message) %v: expect %v", a.s.name, l, want)
	}
	if got := a.s.vAgg(sig, pubs, given); got != want {
		t.Failf("%s: aggregate verification over (key,message) %v, all distinct %v, signature right %v, gives %v", a.s.name, l, distinct, sp.eq(a.sum(l, -1)), got)
	}
	for i := range msgs {
		if !bytes.Equal(given[i], msgs[i]) {
			t.Failf("%s: aggregate verification over %v changed or reordered the messages", a.s.name, l)
		}
	}
	if a.fingerprint(sig, pubs) != f {
		t.Failf("%s: aggregate verification over %v changed a key or the signature", a.s.name, l)
	}
}

func (a *agg) checkD(t *core.T, l []member, sp pt, way int) {
	want := sp.eq(a.sumD(l, -1))
	var pubs []interface{}
	var msgs [][32]byte
	for i, x := range l {
		pubs = append(pubs, a.s.pubFor(a.keys[x.k], way+i))
		msgs = append(msgs, a.digs[x.m])
	}
	sig := a.s.sigFor(sp, way/3)
	f := a.fingerprint(sig, pubs)
	given := append([][32]byte{}, msgs...)
	t.Eval(true)
	if got := a.s.vAggD(sig, pubs, given, a.dom); got != want {
		t.Failf("%s: aggregate verification with domain over (key,digest) %v gives %v, not %v", a.s.name, l, got, want)
	}
	for i := range msgs {
		if given[i] != msgs[i] {
			t.Failf("%s: aggregate verification with domain over %v changed the digests", a.s.name, l)
		}
	}
	if a.fingerprint(sig, pubs) != f {
		t.Failf("%s: aggregate verification with domain over %v changed a key or the signature", a.s.name, l)
	}
}

func (a *agg) common(t *core.T, keys []int, mi int, off int, way int, withD bool) {
	k := bi(0)
	var pubs []interface{}
	for i, x := range keys {
		k = add(k, a.keys[x])
		pubs = append(pubs, a.s.pubFor(a.keys[x], way+i))
	}
	var h pt
	if withD {
		h = a.s.hd(a.digs[mi], a.dom)
	} else {
		h = a.s.h(a.msgs[mi])
	}
	sp := mulC(h, k)
	switch off {
	case 1: // one signature too many or too few
		sp = sp.add(mulC(h, a.keys[0]).neg())
	case 2:
		sp = a.s.sg.inf
	}
	want := sp.eq(mulC(h, k))
	sig := a.s.sigFor(sp, way/3)
	f := a.fingerprint(sig, pubs)
	t.Eval(true)
	var got bool
	if withD {
		got = a.s.vCommonD(sig, pubs, a.digs[mi], a.dom)
	} else {
		got = a.s.vCommon(sig, pubs, append([]byte{}, a.msgs[mi]...))
	}
	if got != want {
		t.Failf("%s: common-message verification under keys %v, message %d, alteration %d gives %v", a.s.name, keys, mi, off, got)
	}
	if a.fingerprint(sig, pubs) != f {
		t.Failf("%s: common-message verification under keys %v changed a key or the signature", a.s.name, keys)
	}
}

// lists enumerates all words up to a length.
func words(n, depth int) (out [][]int) {
	var gen func(w []int)
	gen = func(w []int) {
		out = append(out, append([]int{}, w...))
		if len(w) == depth {
			return
		}
		for k := 0; k < n; k++ {
			gen(append(append([]int{}, w...), k))
		}
	}
	gen(nil)
	return
}

// regs is a pair of aggregates; the model knows them as small multiples of
// the generator.
func (s *scheme) aggSeq(t *core.T, first []int, depth int, pubs bool) {
	g := s.sg
	if pubs {
		g = s.pg
	}
	mk := func(k int64) interface{} {
		p := mulC(g.gen, new(big.Int).Mod(bi(k), br))
		if pubs {
			return s.newPub(s.pg.a(p))
		}
		return s.newSig(s.sg.a(p))
	}
	enc := func(x interface{}) string {
		if pubs {
			return string(s.pubBytes(x))
		}
		return string(s.sigBytes(x))
	}
	want := func(k int64) string { return smallMul(g, k).enc() }
	plus := func(x, y interface{}) {
		if pubs {
			s.pubAgg(x, y)
		} else {
			s.sigAgg(x, y)
		}
	}
	cp := func(x interface{}) interface{} {
		if pubs {
			return s.pubCopy(x)
		}
		return s.sigCopy(x)
	}
	all := func(l ...interface{}) interface{} {
		if pubs {
			return s.aggPubs(l)
		}
		return s.aggSigs(l)
	}
	blank := func() interface{} {
		if pubs {
			return s.emptyPub()
		}
		return s.emptySig()
	}
	type st struct {
		x, y   interface{}
		kx, ky int64
	}
	fixed, fk := mk(-2), int64(-2)
	names := []string{"X+=Y", "Y+=X", "X+=X", "X+=C", "Y=copy X", "X=sum(X,Y,X)", "Y=blank", "swap", "X=sum()", "Y+=Y"}
	apply := func(v st, op int) st {
		switch op {
		case 0:
			plus(v.x, v.y)
			v.kx += v.ky
		case 1:
			plus(v.y, v.x)
			v.ky += v.kx
		case 2:
			plus(v.x, v.x)
			v.kx *= 2
		case 3:
			plus(v.x, fixed)
			v.kx += fk
		case 4:
			v.y, v.ky = cp(v.x), v.kx
		case 5:
			v.x = all(v.x, v.y, v.x)
			v.kx = 2*v.kx + v.ky
		case 6:
			v.y, v.ky = blank(), 0
		case 7:
			v.x, v.y, v.kx, v.ky = v.y, v.x, v.ky, v.kx
		case 8:
			v.x, v.kx = all(), 0
		case 9:
			plus(v.y, v.y)
			v.ky *= 2
		}
		return v
	}
	var path []int
	var rec func(v st, left int)
	run := func(w []int) {
		// replay from the start, so that objects are never shared between branches
		v := st{mk(1), mk(-1), 1, -1}
		for i, op := range w {
			v = apply(v, op)
			if i < len(w)-1 {
				continue
			}
			t.Eval(true)
			t.Trans(1)
			if enc(v.x) != want(v.kx) || enc(v.y) != want(v.ky) || enc(fixed) != want(fk) {
				var tr []string
				for _, o := range w {
					tr = append(tr, names[o])
				}
				t.Failf("%s: after %v (public keys %v) X=%x (want %d G = %x), Y=%x (want %d G = %x), C=%x", s.name, tr, pubs, enc(v.x), v.kx, want(v.kx), enc(v.y), v.ky, want(v.ky), enc(fixed))
			}
		}
		t.Trace(1)
	}
	rec = func(v st, left int) {
		t.State(1)
		run(path)
		if left == 0 {
			return
		}
		for op := range names {
			path = append(path, op)
			rec(v, left-1)
			path = path[:len(path)-1]
		}
	}
	path = append(path, first...)
	rec(st{}, depth-len(first))
}

// smallMul is a model multiple with a small coefficient.
func smallMul(g *grp, k int64) pt { return mulC(g.gen, new(big.Int).Mod(bi(k), ref.R)) }

func init() {
	core.Register("C15", func(tier string) []core.Space {
		thorough := tier == "thorough"
		var sp []core.Space
		put := func(x core.Space) { sp = append(sp, x) }
		depth := 3
		port := int64(4)
		if thorough {
			depth = 4
		}
		for _, s := range schemes {
			a := newAgg(s)
			s := s
			// members: keys 0,1 with messages 0..2, a negated key, a key at infinity
			mem := []member{{0, 0}, {0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 2}}
			ws := words(len(mem), depth)
			list := func(w []int) (l []member) {
				for _, x := range w {
					l = append(l, mem[x])
				}
				return
			}
			put(core.Space{Name: s.name + " lists with the right sum", N: int64(len(ws)), Portable: port, Run: func(t *core.T, i int64) {
				l := list(ws[i])
				a.check(t, l, a.sum(l, -1), int(i))
			}})
			put(core.Space{Name: s.name + " lists with another sum", N: int64(len(ws)), Portable: port, Run: func(t *core.T, i int64) {
				l := list(ws[i])
				g := s.sg.gen
				a.check(t, l, a.sum(l, -1).add(g), int(i)) // something extra
				if len(l) == 0 || (len(l) > 2 && !thorough) {
					return
				}
				a.check(t, l, a.sum(l, int(i)%len(l)), int(i)) // a member missing
				a.check(t, l, s.sg.inf, int(i))
				a.check(t, l, a.sum(l, -1).neg(), int(i))
			}})
			// permuted or replaced: the signature belongs to another list
			var ws2 [][]int
			for _, w := range words(len(mem), 2) {
				if len(w) == 2 || thorough {
					ws2 = append(ws2, w)
				}
			}
			put(core.Space{Name: s.name + " signature of another list", N: int64(len(ws2) * len(ws2)), Portable: 16, Run: func(t *core.T, i int64) {
				l1, l2 := list(ws2[i%int64(len(ws2))]), list(ws2[i/int64(len(ws2))])
				a.check(t, l1, a.sum(l2, -1), int(i))
			}})
			// duplicates wherever they stand, the rest distinct
			type dupCase struct{ n, i, j int }
			var dups []dupCase
			for n := 2; n <= 6; n++ {
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						dups = append(dups, dupCase{n, i, j})
					}
				}
			}
			put(core.Space{Name: s.name + " duplicate positions", N: int64(len(dups) * 6), Portable: 2, Run: func(t *core.T, i int64) {
				d := dups[i/6]
				l := make([]member, d.n)
				for k := range l {
					l[k] = member{k % 2, (k + int(i)) % 6}
				}
				l[d.j].m = l[d.i].m
				a.check(t, l, a.sum(l, -1), int(i))
			}})
			// all words of length 4 and 5 over three messages: mostly duplicates
			ww := words(4, 5)
			put(core.Space{Name: s.name + " message words", N: int64(len(ww)), Portable: 4, Run: func(t *core.T, i int64) {
				w := ww[i]
				if len(w) < 4 {
					return
				}
				var l []member
				for k, x := range w {
					l = append(l, member{k % 2, x})
				}
				a.check(t, l, a.sum(l, -1), int(i))
			}})
			// every order of a list of four
			put(core.Space{Name: s.name + " orders", N: 24 * 2, Portable: 4, Run: func(t *core.T, i int64) {
				l := []member{{0, 0}, {1, 1}, {0, 3}, {1, 4}}
				p := a.sum(l, -1)
				if i >= 24 {
					p = p.add(s.sg.gen)
				}
				var r []member
				k := int(i % 24)
				rest := append([]member{}, l...)
				for n := 4; n > 0; n-- {
					r = append(r, rest[k%n])
					rest = append(rest[:k%n:k%n], rest[k%n+1:]...)
					k /= n
				}
				a.check(t, r, p, int(i))
			}})
			// many members
			longs := []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 63, 64, 65}
			if thorough {
				longs = append(longs, 100, 127, 128, 129, 200, 255, 256, 257)
			}
			put(core.Space{Name: s.name + " long lists", N: int64(len(longs)), Portable: 6, Run: func(t *core.T, i int64) {
				b := newAgg(s)
				b.msgs = nil
				n := longs[i]
				var l []member
				for k := 0; k < n; k++ {
					b.msgs = append(b.msgs, pattern(2, n-k))
					l = append(l, member{k % 3, k})
				}
				b.check(t, l, b.sum(l, -1), 4)
				// the sum without one member, for the last and a middle one
				b.check(t, l, b.sum(l, n-1), 4)
				b.check(t, l, b.sum(l, n/2), 4)
				l[n-1].m = l[0].m
				b.check(t, l, b.sum(l, -1), 4)
			}})
			// the same message at any two places of a list of 13 and more
			put(core.Space{Name: s.name + " duplicates in long lists", N: 13*12/2 + 5, Portable: 6, Run: func(t *core.T, i int64) {
				n, x, y := 13, 0, 0
				if j := i - 13*12/2; j >= 0 {
					n = []int{16, 17, 33, 65, 70}[j]
					x, y = int(j)*3, n-1-int(j)
				} else {
					for y = 1; i >= int64(y); y++ {
						i -= int64(y)
					}
					x = int(i)
				}
				b := newAgg(s)
				b.msgs = nil
				var l []member
				for k := 0; k < n; k++ {
					b.msgs = append(b.msgs, pattern(2, 1+(k*5+n)%n))
					l = append(l, member{k % 3, k})
				}
				b.msgs[y] = append([]byte{}, b.msgs[x]...)
				b.check(t, l, b.sum(l, -1), 4)
			}})
			// a common message and many keys
			put(core.Space{Name: s.name + " common message, many keys", N: int64(len(longs)), Portable: 6, Run: func(t *core.T, i int64) {
				var w []int
				for k := 0; k < longs[i]; k++ {
					w = append(w, k%3)
				}
				a.common(t, w, 1+int(i%5), 0, int(i), false)
				a.common(t, w, 1+int(i%5), 1, int(i), false)
				if s.vCommonD != nil {
					a.common(t, w, int(i%4), 0, int(i), true)
					a.common(t, w, int(i%4), 1, int(i), true)
				}
			}})
			put(core.Space{Name: s.name + " coming back to earlier lists", N: 1, Run: func(t *core.T, i int64) {
				s.remember15(t, 36)
			}})
			// look-alike messages
			tm := twoMsgs()
			put(core.Space{Name: s.name + " histories on two messages", N: int64(len(tm)), Portable: 12, Run: func(t *core.T, i int64) {
				s.aggHistory(t, tm[i], [2]*big.Int{a.keys[1], a.keys[0]})
			}})
			// lists of different lengths
			put(core.Space{Name: s.name + " length mismatch", N: 25, Run: func(t *core.T, i int64) {
				n, m := int(i%5), int(i/5)
				if n == m {
					return
				}
				l := []member{{0, 0}, {1, 1}, {0, 2}, {1, 3}}
				var pubs []interface{}
				var msgs [][]byte
				var digs [][32]byte
				for k := 0; k < n; k++ {
					pubs = append(pubs, s.pubFor(a.keys[l[k].k], k))
				}
				for k := 0; k < m; k++ {
					msgs = append(msgs, a.msgs[l[k].m])
					digs = append(digs, a.digs[l[k].m])
				}
				least := n
				if m < n {
					least = m
				}
				for _, p := range []pt{s.sg.inf, a.sum(l[:least], -1), a.sum(l[:n], -1), a.sum(l[:m], -1)} {
					t.Eval(true)
					if s.vAgg(s.sigFor(p, 0), pubs, msgs) {
						t.Failf("%s: aggregate of %d keys and %d messages accepted", s.name, n, m)
					}
					if s.domain && s.vAggD(s.sigFor(p, 0), pubs, digs, a.dom) {
						t.Failf("%s: aggregate with domain of %d keys and %d digests accepted", s.name, n, m)
					}
				}
			}})
			cw := words(4, 3)
			put(core.Space{Name: s.name + " common message", N: int64(len(cw) * 3), Portable: 4, Run: func(t *core.T, i int64) {
				a.common(t, cw[i/3], int(i)%len(a.msgs), int(i%3), int(i), false)
			}})
			if s.domain {
				wd := words(4, 2)
				if thorough {
					wd = words(4, 4)
				}
				dm := []member{{0, 0}, {0, 1}, {1, 0}, {3, 1}}
				put(core.Space{Name: s.name + " lists with domain", N: int64(len(wd) * 3), Portable: 4, Run: func(t *core.T, i int64) {
					var l []member
					for _, x := range wd[i/3] {
						l = append(l, dm[x])
					}
					switch i % 3 {
					case 0:
						a.checkD(t, l, a.sumD(l, -1), int(i))
					case 1:
						a.checkD(t, l, a.sumD(l, -1).add(s.sg.gen), int(i))
					case 2:
						if len(l) > 0 {
							a.checkD(t, l, a.sumD(l, len(l)-1), int(i))
						}
					}
				}})
				put(core.Space{Name: s.name + " longer lists with domain", N: 8 + int64(len(longs)), Portable: 4, Run: func(t *core.T, i int64) {
					var l []member
					n := 3 + i/2
					if i >= 8 {
						n = int64(longs[i-8])
					}
					for k := int64(0); k < n; k++ {
						l = append(l, member{int(k % 3), int((k + i) % 4)})
					}
					a.checkD(t, l, a.sumD(l, -1), int(i))
					a.checkD(t, l, a.sumD(l, 0), int(i))
				}})
				put(core.Space{Name: s.name + " common message with domain", N: int64(len(cw) * 3), Portable: 4, Run: func(t *core.T, i int64) {
					if len(cw[i/3]) == 3 && (i/3)%3 != 0 && !thorough {
						return
					}
					a.common(t, cw[i/3], int(i)%len(a.digs), int(i%3), int(i), true)
				}})
			}
			// aggregation histories
			sd := 5
			if thorough {
				sd = 6
			}
			for _, pubs := range []bool{false, true} {
				pubs := pubs
				name := s.name + " signature sums"
				if pubs {
					name = s.name + " key sums"
				}
				put(core.Space{Name: name, N: 100, Portable: 5, Run: func(t *core.T, i int64) {
					d := sd
					if g := s.sg; (pubs && s.pg.id == 2) || (!pubs && g.id == 2) {
						d--
					}
					s.aggSeq(t, []int{int(i / 10), int(i % 10)}, d, pubs)
				}})
			}
			// aggregates of lists of every length
			put(core.Space{Name: s.name + " sums of lists", N: 12, Run: func(t *core.T, i int64) {
				var ss, ps []interface{}
				k := int64(0)
				for j := int64(0); j < i; j++ {
					c := (j*j+3*j)%7 - 3
					k += c
					ss = append(ss, s.sigFor(smallMul(s.sg, c), int(j)))
					ps = append(ps, s.pubFor(new(big.Int).Mod(bi(c), br), int(j)))
					if j%3 == 2 { // an object twice in the list
						ss = append(ss, ss[0])
						ps = append(ps, ps[0])
						k += -3
					}
				}
				f := ""
				for j := range ss {
					f += s.sigStr(ss[j]) + s.pubStr(ps[j])
				}
				t.Eval(true)
				if x := s.aggSigs(ss); !s.sigIs(x, smallMul(s.sg, k)) {
					t.Failf("%s: sum of %d signatures is %x, not %d G", s.name, len(ss), s.sigBytes(x), k)
				}
				if x := s.aggPubs(ps); !s.pubIs(x, smallMul(s.pg, k)) {
					t.Failf("%s: sum of %d keys is %x, not %d G", s.name, len(ps), s.pubBytes(x), k)
				}
				g := ""
				for j := range ss {
					g += s.sigStr(ss[j]) + s.pubStr(ps[j])
				}
				if f != g {
					t.Failf("%s: adding up %d members changed one", s.name, len(ss))
				}
			}})
		}
		return sp
	})
}
