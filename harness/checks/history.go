package checks

import (
	"fmt"
	"math/big"
	"sync"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// allPairs is a walk over 0..n-1 that takes every ordered pair of neighbours,
// a value after itself included, exactly once: n*n+1 entries.
func allPairs(n int) (w []int) {
	// an Eulerian circuit, by Hierholzer
	next := make([]int, n)
	st := []int{0}
	for len(st) > 0 {
		v := st[len(st)-1]
		if next[v] < n {
			st = append(st, next[v])
			next[v]++
			continue
		}
		w = append(w, v)
		st = st[:len(st)-1]
	}
	for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
		w[i], w[j] = w[j], w[i]
	}
	return
}

// twoMsgs are pairs of messages that a store keyed by part of a message, or by
// something shorter than it, would take for one another.
func twoMsgs() (out [][2][]byte) {
	set := func(n int, at ...int) [2][]byte {
		a := pattern(2, n)
		b := append([]byte{}, a...)
		for _, k := range at {
			b[k] ^= 1
		}
		return [2][]byte{a, b}
	}
	out = append(out, [2][]byte{{}, {0}}, [2][]byte{{0}, {0, 0}}, [2][]byte{{0}, {1}}, [2][]byte{{1, 2}, {2, 1}}, [2][]byte{{0xff}, {0x7f}})
	for _, n := range []int{8, 16, 20, 32, 33, 40, 48, 64, 65, 96, 100, 128, 136, 200, 256, 1000} {
		out = append(out, set(n, 0), set(n, n-1), set(n, n/2))
		if n > 32 {
			out = append(out, set(n, 32), set(n, 31))
		}
		if n > 64 {
			out = append(out, set(n, 64), set(n, 63))
		}
	}
	// the same bytes in another order, shorter and longer by one, doubled, and
	// with two differences that cancel in a sum or exclusive or
	for _, n := range []int{32, 64, 100} {
		a := pattern(2, n)
		r := make([]byte, n)
		for i := range a {
			r[n-1-i] = a[i]
		}
		out = append(out, [2][]byte{a, r}, [2][]byte{a, a[:n-1]}, [2][]byte{a, append(append([]byte{}, a...), 0)}, [2][]byte{a, append(append([]byte{}, a...), a...)}, [2][]byte{a, append([]byte{0}, a...)})
		out = append(out, set(n, 1, n-2), set(n, 8, 16))
		s := append([]byte{}, a...)
		s[3], s[4] = s[3]+1, s[4]-1
		out = append(out, [2][]byte{a, s})
	}
	return append(out, sameHash()...)
}

func twoDigests() (out [][2][32]byte) {
	var base [32]byte
	copy(base[:], pattern(2, 32))
	for _, k := range []int{0, 7, 8, 15, 16, 31} {
		d := base
		d[k] ^= 1
		out = append(out, [2][32]byte{base, d})
	}
	d := base
	d[0], d[31] = d[31], d[0]
	out = append(out, [2][32]byte{base, d}, [2][32]byte{{}, base}, [2][32]byte{{}, {31: 1}})
	return append(out, sameHashDigests()...)
}

func twoDomains() (out [][2][8]byte) {
	for _, k := range []int{0, 3, 4, 7} {
		var d [8]byte
		d[k] = 1
		out = append(out, [2][8]byte{{}, d})
	}
	return append(out, [2][8]byte{{1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1}}, [2][8]byte{{1}, {0, 1}})
}

func twoKeys() [][2]*big.Int {
	k := new(big.Int).Mod(genZ(61), br)
	mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, br) }
	return [][2]*big.Int{{k, mod(add(k, one))}, {k, sub(br, k)}, {bi(1), bi(0)}, {k, mod(add(k, pow2(64)))}, {k, mod(add(k, pow2(192)))}, {bi(1), bi(2)}, {k, mod(add(k, k))}, {sub(br, one), one}}
}

// signHistory walks over all ordered pairs of calls on two messages, two keys
// and four signatures. With own, the objects live through the walk and the
// messages share one buffer; otherwise every call gets its own.
func (s *scheme) signHistory(t *core.T, ms [2][]byte, ks [2]*big.Int, own, full bool) {
	type node struct{ op, m, k, s int }
	var nodes []node
	for m := 0; m < 2; m++ {
		if !full {
			// one key: sign, and verify either signature
			nodes = append(nodes, node{0, m, 0, 0}, node{1, m, 0, 0}, node{1, m, 0, 2})
			continue
		}
		for k := 0; k < 2; k++ {
			nodes = append(nodes, node{0, m, k, 0})
			for x := 0; x < 2; x++ {
				nodes = append(nodes, node{1, m, k, x}) // a signature by the first or the second key on this message
			}
			nodes = append(nodes, node{1, m, k, 2}) // on the other message by this key
		}
	}
	if full {
		nodes = append(nodes, node{2, 0, 0, 0}, node{2, 0, 1, 0})
	}
	var sig [2][2]pt
	var pub [2]pt
	var sks, pks [2]interface{}
	var sgs [2][2]interface{}
	for k := 0; k < 2; k++ {
		pub[k] = mulC(s.pg.gen, ks[k])
		sks[k] = s.sk(ks[k])
		pks[k] = s.pub(sks[k])
		for m := 0; m < 2; m++ {
			sig[m][k] = mulC(s.h(ms[m]), ks[k])
			sgs[m][k] = s.newSig(s.sg.a(sig[m][k]))
		}
	}
	buf := make([]byte, 2100)
	w := allPairs(len(nodes))
	for step, x := range w {
		n := nodes[x]
		m, msg := n.m, ms[n.m]
		if own {
			msg = buf[:copy(buf, msg)]
		} else {
			msg = append([]byte{}, msg...)
			sks[n.k] = s.sk(ks[n.k])
		}
		was := func() string {
			if step == 0 {
				return "first"
			}
			p := nodes[w[step-1]]
			return fmt.Sprintf("after op %d (message %d, key %d, signature %d)", p.op, p.m, p.k, p.s)
		}
		switch n.op {
		case 0:
			g := s.sign(msg, sks[n.k])
			if !s.sg.ofJ(s.sigPoint(g)).eq(sig[m][n.k]) {
				t.Failf("%s: messages %x and %x, keys %v and %v: signing message %d with key %d, %s, gives a wrong signature", s.name, ms[0], ms[1], hexs(ks[0]), hexs(ks[1]), m, n.k, was())
			}
			if own {
				sgs[m][n.k] = g
			}
		case 1:
			sm, sk := m, n.s
			if n.s == 2 {
				sm, sk = 1-m, n.k
			}
			p, g := pks[n.k], sgs[sm][sk]
			if !own {
				p, g = s.newPub(s.pg.a(pub[n.k])), s.newSig(s.sg.a(sig[sm][sk]))
			}
			want := sig[sm][sk].eq(sig[m][n.k])
			if got := s.verify(msg, p, g); got != want {
				t.Failf("%s: messages %x and %x, keys %v and %v: the signature by key %d on message %d, for message %d under key %d, %s, verifies as %v", s.name, ms[0], ms[1], hexs(ks[0]), hexs(ks[1]), sk, sm, m, n.k, was(), got)
			}
		case 2:
			p := s.pub(sks[n.k])
			if !s.pg.ofJ(s.pubPoint(p)).eq(pub[n.k]) {
				t.Failf("%s: keys %v and %v: public key %d, %s, is wrong", s.name, hexs(ks[0]), hexs(ks[1]), n.k, was())
			}
		}
		t.Eval(true)
		t.State(1)
		t.Trans(1)
	}
	t.Trace(1)
}

// domainHistory does the same with digests and domains.
func (s *scheme) domainHistory(t *core.T, ms [2][32]byte, ds [2][8]byte, k *big.Int) {
	sk := s.sk(k)
	pk := s.pub(sk)
	var sig [4]pt
	var sgs [4]interface{}
	for i := range sig {
		sig[i] = mulC(s.hd(ms[i%2], ds[i/2]), k)
		sgs[i] = s.newSig(s.sg.a(sig[i]))
	}
	// signing, and verifying signature j for i
	w := allPairs(4 + 16)
	for step, x := range w {
		if x < 4 {
			g := s.signD(ms[x%2], sk, ds[x/2])
			if !s.sg.ofJ(s.sigPoint(g)).eq(sig[x]) {
				t.Failf("%s: digests %x and %x, domains %x and %x: signing %d gives a wrong signature (step %d)", s.name, ms[0], ms[1], ds[0], ds[1], x, step)
			}
		} else {
			i, j := (x-4)%4, (x-4)/4
			if got, want := s.verifyD(ms[i%2], pk, sgs[j], ds[i/2]), sig[i].eq(sig[j]); got != want {
				t.Failf("%s: digests %x and %x, domains %x and %x: signature %d for %d verifies as %v (step %d, after %d)", s.name, ms[0], ms[1], ds[0], ds[1], j, i, got, step, w[step-1])
			}
		}
		t.Eval(true)
		t.State(1)
		t.Trans(1)
	}
	t.Trace(1)
}

// Lives of one public key or signature. Every object is a multiple of the
// generator or of the hash of one message, so the model is one scalar.
const lifeOps = 8

var lifeNames = [lifeOps]string{"serialise", "aggregate another", "aggregate its negative's neighbour", "go on with a copy", "go on with the deserialised bytes", "aggregate it onto another", "take its point and change that", "use it"}

func (s *scheme) life(t *core.T, pub bool, word []int, k0 *big.Int, way int) {
	msg := []byte("life")
	base, kind := s.h(msg), "signature"
	if pub {
		base, kind = s.pg.gen, "public key"
	}
	mk := func(k *big.Int, way int) interface{} {
		if pub {
			return s.pubFor(k, way)
		}
		return s.sigFor(mulC(base, k), way)
	}
	is := func(x interface{}, k *big.Int, what string) {
		p := mulC(base, k)
		var b []byte
		var q pt
		if pub {
			b, q = s.pubBytes(x), s.pg.ofJ(s.pubPoint(x))
		} else {
			b, q = s.sigBytes(x), s.sg.ofJ(s.sigPoint(x))
		}
		if string(b) != p.enc() || !q.eq(p) {
			var names []string
			for _, o := range word {
				names = append(names, lifeNames[o])
			}
			t.Failf("%s: %s of %v (way %d) after %q: %s serialises as %x and has the point %v, expected %x", s.name, kind, hexs(k0), way, names, what, b, q, p.enc())
		}
	}
	agg := func(x, y interface{}) {
		if pub {
			s.pubAgg(x, y)
		} else {
			s.sigAgg(x, y)
		}
	}
	type held struct {
		x interface{}
		k *big.Int
	}
	mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, br) }
	var olds []held
	x, k := mk(k0, way), k0
	for n, o := range word {
		switch o {
		case 0:
			var b []byte
			if pub {
				b = s.pubBytes(x)
			} else {
				b = s.sigBytes(x)
			}
			if string(b) != mulC(base, k).enc() {
				is(x, k, fmt.Sprintf("step %d", n))
			}
		case 1:
			y := mk(bi(3), n)
			agg(x, y)
			k = mod(add(k, bi(3)))
			olds = append(olds, held{y, bi(3)})
		case 2:
			// reaches zero and one when repeated
			c := mod(sub(one, k))
			if k.Cmp(one) == 0 {
				c = sub(br, one)
			}
			y := mk(c, 0)
			agg(x, y)
			k = mod(add(k, c))
			olds = append(olds, held{y, c})
		case 3:
			olds = append(olds, held{x, k})
			if pub {
				x = s.pubCopy(x)
			} else {
				x = s.sigCopy(x)
			}
		case 4:
			olds = append(olds, held{x, k})
			var err error
			if pub {
				x, err = s.pubOf(s.pubBytes(x))
			} else {
				x, err = s.sigOf(s.sigBytes(x))
			}
			if err != nil {
				t.Failf("%s: %s of %v after %v does not deserialise: %v", s.name, kind, hexs(k0), word[:n+1], err)
			}
		case 5:
			y := mk(bi(2), 0)
			agg(y, x)
			olds = append(olds, held{y, mod(add(k, bi(2)))})
		case 6:
			if pub {
				wreck(s.pubPoint(x))
			} else {
				wreck(s.sigPoint(x))
			}
		case 7:
			if pub {
				y := s.pubFor(k, 4)
				if !s.pubEq(x, y) || !s.pubEq(y, x) || s.pubEq(x, s.pubFor(mod(add(k, one)), 4)) {
					t.Failf("%s: public key of %v after %v: wrong equality", s.name, hexs(k0), word[:n+1])
				}
			} else {
				p := s.newPub(s.pg.a(mulC(s.pg.gen, k)))
				if !s.verify(msg, p, x) {
					t.Failf("%s: signature by %v after %v does not verify", s.name, hexs(k0), word[:n+1])
				}
			}
		}
		t.Trans(1)
		t.State(1)
	}
	t.Eval(true)
	t.Trace(1)
	is(x, k, "the object")
	for n, o := range olds {
		is(o.x, o.k, fmt.Sprintf("object %d left behind", n))
	}
}

// keyLife: lives of a secret key.
func (s *scheme) keyLife(t *core.T, word []int, k0 *big.Int) {
	k := k0
	sk := s.sk(k)
	for n, o := range word {
		bad := func(what string, got interface{}) {
			t.Failf("%s: secret key %v after %v: %s gives %x", s.name, hexs(k0), word[:n+1], what, got)
		}
		switch o {
		case 0:
			if b := s.skBytes(sk); b != be32(k) {
				bad("serialising", b[:])
			}
		case 1:
			sk = s.skOf(s.skBytes(sk))
		case 2:
			if p := s.pub(sk); !s.pg.ofJ(s.pubPoint(p)).eq(mulC(s.pg.gen, k)) {
				bad("the public key", s.pubBytes(p))
			}
		case 3:
			if g := s.sign([]byte("life"), sk); !s.sg.ofJ(s.sigPoint(g)).eq(mulC(s.h([]byte("life")), k)) {
				bad("signing", s.sigBytes(g))
			}
		case 4:
			// another key in the meantime
			o := s.sk(bi(5))
			if p := s.pub(o); !s.pg.ofJ(s.pubPoint(p)).eq(mulC(s.pg.gen, bi(5))) {
				bad("another public key", s.pubBytes(p))
			}
			if b := s.skBytes(o); b != be32(bi(5)) {
				bad("another key's bytes", b[:])
			}
		case 5:
			// the element belongs to the caller: a changed copy of it makes
			// another key
			f := s.skFR(sk).Copy()
			f.AddAssign(FR(one))
			k = new(big.Int).Mod(add(k, one), br)
			sk = s.sk(k)
			if ofFR(f).Cmp(k) != 0 {
				bad("adding one to a copy of the element", f.Bytes())
			}
		}
		t.Trans(1)
		t.State(1)
	}
	t.Eval(true)
	t.Trace(1)
	if b := s.skBytes(sk); b != be32(k) || ofFR(s.skFR(sk)).Cmp(k) != 0 {
		t.Failf("%s: secret key %v after %v is %x", s.name, hexs(k0), word, b)
	}
}

// wordOf is the i-th word of the given length.
func wordOf(i int64, ops, length int) []int {
	w := make([]int, length)
	for k := range w {
		w[k] = int(i % int64(ops))
		i /= int64(ops)
	}
	return w
}

// aggHistory: aggregates over two messages and two keys, in every order of two
// calls.
func (s *scheme) aggHistory(t *core.T, ms [2][]byte, ks [2]*big.Int) {
	var pks [2]interface{}
	var h [2]pt
	for i := range ks {
		pks[i] = s.newPub(s.pg.a(mulC(s.pg.gen, ks[i])))
		h[i] = s.h(ms[i])
	}
	sum := func(a, b int) pt { return mulC(h[a], ks[0]).add(mulC(h[b], ks[1])) }
	type call struct {
		name   string
		common bool
		sig    pt
		m      []int
		want   bool
	}
	one2 := mulC(h[0], ks[0])
	calls := []call{
		{"the list", false, sum(0, 1), []int{0, 1}, true},
		{"the list with the messages exchanged", false, sum(0, 1), []int{1, 0}, sum(0, 1).eq(sum(1, 0))},
		{"the other list", false, sum(1, 0), []int{1, 0}, true},
		{"one message for both", false, sum(0, 0), []int{0, 0}, false},
		{"a common message", true, sum(0, 0), []int{0}, true},
		{"the other common message", true, sum(0, 0), []int{1}, sum(0, 0).eq(sum(1, 1))},
		{"a list of one", false, one2, []int{0}, true},
		{"a list of one, other message", false, one2, []int{1}, one2.eq(mulC(h[1], ks[0]))},
	}
	var sigs []interface{}
	for _, c := range calls {
		sigs = append(sigs, s.newSig(s.sg.a(c.sig)))
	}
	w := allPairs(len(calls))
	for step, x := range w {
		c := calls[x]
		var got bool
		var l [][]byte
		for _, m := range c.m {
			l = append(l, append([]byte{}, ms[m]...))
		}
		if c.common {
			got = s.vCommon(sigs[x], pks[:], l[0])
		} else {
			got = s.vAgg(sigs[x], pks[:len(l)], l)
		}
		t.Eval(true)
		t.State(1)
		t.Trans(1)
		if got != c.want {
			before := "nothing"
			if step > 0 {
				before = calls[w[step-1]].name
			}
			t.Failf("%s: messages %x and %x, keys %v and %v: %s, after %s, gives %v", s.name, ms[0], ms[1], hexs(ks[0]), hexs(ks[1]), c.name, before, got)
		}
	}
	t.Trace(1)
}

// hashHistory: both hashes of two messages, in every order of two calls.
func hashHistory(t *core.T, ms [2][]byte) {
	buf := make([]byte, 2100)
	w := allPairs(6)
	for step, x := range w {
		m := ms[x%2]
		if step%2 == 0 {
			m = buf[:copy(buf, m)]
		}
		var ok bool
		switch x / 2 {
		case 0:
			p := bls.HashG1(m)
			ok = g1g.ofA(p).eq(hashPt(1, m))
			wreck(p)
		case 1:
			p := bls.HashG2(m)
			ok = g2g.ofA(p).eq(hashPt(2, m))
			wreck(p)
		case 2:
			var d [32]byte
			copy(d[:], m)
			p := bls.HashG2WithDomain(d, [8]byte{byte(len(m))})
			ok = g2g.ofJ(p).eq(hashPtD(d, [8]byte{byte(len(m))}))
			wreck(p)
		}
		t.Eval(true)
		t.State(1)
		t.Trans(1)
		if !ok {
			t.Failf("messages %x and %x: hash %d of message %d is wrong at step %d of %v", ms[0], ms[1], x/2, x%2, step, w)
		}
	}
	t.Trace(1)
}

// revisit calls f for 0..n-1 in orders that come back to old values after few
// and after many others: forwards twice, backwards, in strides, and each
// together with its neighbour.
func revisit(t *core.T, n int, f func(step string, k int)) {
	if core.Portable() {
		n = n/3 + 1
	}
	go1 := func(order string, k int) {
		f(order, k)
		t.State(1)
		t.Trans(1)
	}
	for k := 0; k < n; k++ {
		go1("forwards", k)
	}
	for k := 0; k < n; k++ {
		go1("forwards again", k)
	}
	for k := n - 1; k >= 0; k-- {
		go1("backwards", k)
	}
	for k := 0; k < n; k++ {
		go1("in strides", k*37%n)
		if k%3 == 0 {
			go1("in strides, the first again", 0)
		}
	}
	t.Eval(true)
	t.Trace(1)
}

// many are points of the subgroup, with their negatives, and some outside.
func (g *grp) many(n int) (out []pt) {
	p := g.gen
	tor := g.torsion(map[int]int64{1: 11, 2: 13}[g.id])
	for len(out) < n {
		out = append(out, p, p.neg())
		if len(out)%10 == 0 {
			out = append(out, p.add(tor[1+len(out)%7]))
		}
		p = p.add(g.gen)
	}
	out = out[:n]
	// the last ones share short hashes of their encodings
	for i, k := range sameHashKeys(g.id) {
		out[n-1-2*i], out[n-2-2*i] = g.gen.mul(k[0]), g.gen.mul(k[1])
	}
	return
}

// remember9: scalar multiplication, cofactor and membership, coming back to
// earlier points and scalars. op selects the entry point.
func (g *grp) remember9(t *core.T, op int) {
	ks := []*big.Int{bi(3), sub(br, one), new(big.Int).Mod(genZ(71), br), pow2(200)}
	ps := g.many(70)
	names := []string{"affine Mul", "affine MulFR", "projective Mul", "projective MulFR", "ScaleByCofactor", "membership"}
	revisit(t, len(ps)*len(ks), func(step string, i int) {
		p, k := ps[i/len(ks)], ks[i%len(ks)]
		var x interface{}
		switch op {
		case 0:
			x = g.mulA(g.a(p), Q6(k))
		case 1:
			x = g.frA(g.a(p), R4(k))
		case 2:
			x = g.mulJ(g.j(p, i), Q6(k))
		case 3:
			x = g.frJ(g.j(p, i), R4(k))
		case 4:
			k = g.h
			x = g.scale(g.a(p))
		case 5:
			if got, want := g.inSub(g.a(p)), mulRaw(p, br).inf(); got != want {
				t.Failf("G%d: %s, %s, of %v gives %v", g.id, names[op], step, p, got)
			}
			return
		}
		if got := g.ofJ(x); !got.eq(mulRaw(p, k)) {
			t.Failf("G%d: %s, %s, of %v by %v gives %v", g.id, names[op], step, p, hexs(k), got)
		}
	})
}

var rawCache sync.Map

// mulRaw is a cached model multiplication of a point of any order.
func mulRaw(p pt, k *big.Int) pt {
	key := fmt.Sprintf("%d %s %s", p.g, p.enc(), k)
	if v, ok := rawCache.Load(key); ok {
		return v.(pt)
	}
	q := p.mul(k)
	rawCache.Store(key, q)
	return q
}

// remember10: decoding, coming back to earlier encodings.
func (g *grp) remember10(t *core.T, checked bool) {
	ps := g.many(240)
	revisit(t, len(ps), func(step string, i int) {
		b := []byte(ps[i].enc())
		if i%9 == 8 {
			// not an encoding: a flag missing or changed
			b = []byte(ps[i-7].enc())
			b[0] ^= []byte{0x80, 0x40, 0xc0}[i/9%3]
		}
		p, ok := g.rdecomp(b)
		if ok && checked {
			ok = mulRaw(p, br).inf()
		}
		x, err := g.decompress(b, checked)
		if (err == nil) != ok {
			t.Failf("G%d: decoding %x, %s: %v, expected valid %v", g.id, b, step, err, ok)
		}
		if !ok {
			return
		}
		if !g.ofA(x).eq(p) {
			t.Failf("G%d: decoding %x, %s, gives %v", g.id, b, step, g.ofA(x))
		}
		if c := g.compress(x); string(c) != string(b) {
			t.Failf("G%d: encoding %v, %s, gives %x", g.id, p, step, c)
		}
		wreck(x)
	})
}

// remember12: pairings, coming back to earlier points.
func remember12(t *core.T, prepared bool) {
	revisit(t, 100, func(step string, i int) {
		a, b := bi(int64(i%10+1)), bi(int64(i/10+1))
		if i%3 == 0 {
			a = sub(br, a)
		}
		if i%7 == 0 {
			b = sub(br, b)
		}
		if i >= 84 {
			// points that share short hashes of their encodings
			j := i - 84
			a, b = sameHashKeys(1)[j/4][j%2], sameHashKeys(2)[j/4][j/2%2]
		}
		p, q := mulC(g1g.gen, a), mulC(g2g.gen, b)
		var x *bls.FQ12
		if prepared {
			x = bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{{P: g1g.a(p).(*bls.G1Affine), Q: bls.G2AffineToPrepared(g2g.a(q).(*bls.G2Affine))}}))
		} else {
			x = bls.Pairing(g1g.j(p, i).(*bls.G1Projective), g2g.j(q, i/2).(*bls.G2Projective))
		}
		is12(t, fmt.Sprintf("pairing of %v G1 and %v G2, %s", a, b, step), x, pairExp(mul(a, b)))
	})
}

// remember13: hashes, coming back to earlier messages.
func remember13(t *core.T, which int) {
	revisit(t, 280, func(step string, i int) {
		m := append(pattern(2, 7*(i%9)), byte(i), byte(i>>8))
		var ok bool
		switch which {
		case 0:
			ok = g1g.ofA(bls.HashG1(m)).eq(hashPt(1, m))
		case 1:
			ok = g2g.ofA(bls.HashG2(m)).eq(hashPt(2, m))
		case 2:
			var d [32]byte
			copy(d[:], pattern(2, 32))
			d[i%32] ^= byte(i / 8 % 8)
			dom := [8]byte{byte(i % 8)}
			if l := sameHashDigests(); i >= 260 && i < 260+2*len(l) {
				d = l[(i-260)/2][i%2]
			}
			ok = g2g.ofJ(bls.HashG2WithDomain(d, dom)).eq(hashPtD(d, dom))
		}
		if !ok {
			t.Failf("hash %d of %x (message %d), %s, is wrong", which, m, i, step)
		}
	})
}

// remember14: signing and verifying, coming back to earlier messages and keys.
func (s *scheme) remember14(t *core.T, n int) {
	revisit(t, n, func(step string, i int) {
		m := append(pattern(2, 5*(i%11)), byte(i))
		k := bi(int64(i%5 + 2))
		if i%2 == 1 {
			k = sub(br, k)
		}
		want := mulC(s.h(m), k)
		p, g := s.newPub(s.pg.a(mulC(s.pg.gen, k))), s.newSig(s.sg.a(want))
		if !s.verify(m, p, g) {
			t.Failf("%s: message %x, key %v: own signature is rejected, %s", s.name, m, hexs(k), step)
		}
		if s.verify(m, p, s.newSig(s.sg.a(want.neg()))) {
			t.Failf("%s: message %x, key %v: the negated signature is accepted, %s", s.name, m, hexs(k), step)
		}
		if x := s.sign(m, s.sk(k)); !s.sg.ofJ(s.sigPoint(x)).eq(want) {
			t.Failf("%s: message %x, key %v: wrong signature, %s", s.name, m, hexs(k), step)
		}
	})
}

// remember15: aggregates, coming back to earlier lists.
func (s *scheme) remember15(t *core.T, n int) {
	ks := []*big.Int{bi(3), sub(br, bi(3)), bi(7)}
	revisit(t, n, func(step string, i int) {
		var l [][]byte
		var ps []interface{}
		sum, ksum := s.sg.inf, bi(0)
		for j := 0; j < 2+i%2; j++ {
			m := append(pattern(2, 3*((i+j)%7)), byte(i+j))
			k := ks[(i/2+j)%3]
			l = append(l, m)
			ps = append(ps, s.newPub(s.pg.a(mulC(s.pg.gen, k))))
			sum = sum.add(mulC(s.h(m), k))
			ksum = add(ksum, k)
		}
		g := s.newSig(s.sg.a(sum))
		if !s.vAgg(g, ps, l) {
			t.Failf("%s: aggregate %d is rejected, %s", s.name, i, step)
		}
		l[0], l[1] = l[1], l[0]
		if want := ks[i/2%3].Cmp(ks[(i/2+1)%3]) == 0; s.vAgg(g, ps, l) != want {
			t.Failf("%s: aggregate %d with two messages exchanged is not %v, %s", s.name, i, want, step)
		}
		c := mulC(s.h(l[0]), ksum)
		if !s.vCommon(s.newSig(s.sg.a(c)), ps, l[0]) || s.vCommon(s.newSig(s.sg.a(c)), ps, l[1]) != c.inf() {
			t.Failf("%s: common message aggregate %d is wrong, %s", s.name, i, step)
		}
	})
}

// remember16: keys and signatures, coming back to earlier ones.
func (s *scheme) remember16(t *core.T, which int) {
	base := s.h([]byte{3})
	revisit(t, 160, func(step string, i int) {
		k := bi(int64(i/2 + 1))
		if i%2 == 1 {
			k = sub(br, k)
		}
		if j := i - 152; j >= 0 {
			id := s.pg.id
			if which == 1 {
				id = s.sg.id
			}
			k = sameHashKeys(id)[j/2][j%2]
		}
		bad := func(what string, x interface{}) {
			t.Failf("%s: %v: %s, %s: %x", s.name, hexs(k), what, step, x)
		}
		switch which {
		case 0:
			p := mulC(s.pg.gen, k)
			x := s.pub(s.sk(k))
			if b := s.pubBytes(x); string(b) != p.enc() {
				bad("public key", b)
			}
			y, err := s.pubOf([]byte(p.enc()))
			if err != nil || !s.pubEq(x, y) || !s.pubIs(y, p) {
				bad("public key from bytes", p.enc())
			}
			s.pubAgg(y, x)
			s.pubAgg(x, y)
		case 1:
			p := mulC(base, k)
			y, err := s.sigOf([]byte(p.enc()))
			if err != nil || !s.sigIs(y, p) {
				bad("signature from bytes", p.enc())
			}
			s.sigAgg(y, y)
		case 2:
			var b [32]byte
			b[0], b[31] = byte(i), byte(i/3)
			if d := sameHashDigests(); i >= 140 && i < 140+2*len(d) {
				b = d[(i-140)/2][i%2]
			}
			sk := s.skDerive(b)
			if x := s.skBytes(sk); x != be32(ref.HashScalar(b)) {
				bad("derived key", x[:])
			}
			if x := s.skBytes(s.skOf(be32(k))); x != be32(k) {
				bad("secret key from bytes", x[:])
			}
		}
	})
}
