package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// hashMsg hashes one message to both groups and compares with the model; the
// message stands inside a larger buffer with spare capacity.
func hashMsg(t *core.T, msg []byte, groups int) {
	buf := make([]byte, len(msg)+64)
	for i := range buf {
		buf[i] = 0xa5
	}
	copy(buf[8:], msg)
	whole := append([]byte{}, buf...)
	m := buf[8 : 8+len(msg)]
	what := func(g int) string { return fmt.Sprintf("hash to G%d of %d bytes %x", g, len(msg), msg) }
	if t.WantSample() {
		t.Sample("%s", what(groups))
	}
	if groups&1 != 0 {
		got := bls.HashG1(m)
		g1g.isA(t, got, pt{g: 1, p1: ref.Hash1(msg)}, func() string { return what(1) })
		// the same bytes without spare room
		if again := bls.HashG1(append(make([]byte, 0, len(msg)), msg...)); !again.Equals(got) {
			t.Failf("%s depends on the buffer", what(1))
		}
	}
	if groups&2 != 0 {
		got := bls.HashG2(m)
		g2g.isA(t, got, pt{g: 2, p2: ref.Hash2(msg)}, func() string { return what(2) })
	}
	if !bytes.Equal(buf, whole) {
		t.Failf("%s changed the buffer of the message", what(groups))
	}
}

// nilMsg: nil and empty messages are the same message.
func pattern(kind int, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i*7 + 1)
		case 3:
			b[i] = byte(i >> 3 * 29)
		}
	}
	return b
}

func hashDomain(t *core.T, m [32]byte, d [8]byte) {
	got := bls.HashG2WithDomain(m, d)
	g2g.isJ(t, got, pt{g: 2, p2: ref.Hash2Domain(m, d)}, func() string { return fmt.Sprintf("hash of digest %x domain %x", m, d) })
}

func hashScalar(t *core.T, b [32]byte) {
	got := bls.HashSecretKey(b)
	t.Eval(true)
	if want := ref.HashScalar(b); ofFR(got).Cmp(want) != 0 {
		t.Failf("scalar from %x is %v, not %v", b, got, hexs(want))
	}
}

// longSearch[n] is a counter whose digest (big-endian in the first eight
// bytes, zero domain) needs longSearch[n][0] increments of x until a point is
// found; found by a search over many millions of digests.
var longSearch = [][2]int64{{8, 65652}, {9, 131378}, {10, 196661}, {11, 618}, {12, 66041}, {13, 394}, {14, 197612}, {15, 204459}, {16, 245477}, {17, 214847},
	{18, 961190}, {19, 2587007}, {20, 1316347}, {21, 2784360}, {22, 6641301}, {24, 25848008}}

func searchDigest(k int64) (b [32]byte) {
	binary.BigEndian.PutUint64(b[:], uint64(k))
	return
}

func searchLength(b [32]byte) int64 {
	var d8 [8]byte
	x := ref.MakeF2(new(big.Int).SetBytes(sha2(b[:], d8[:], []byte{1})), new(big.Int).SetBytes(sha2(b[:], d8[:], []byte{2})))
	n := int64(0)
	for !ref.RHS2(x).IsSquare() {
		x = x.Add(ref.Int2(1, 0))
		n++
	}
	return n
}

var selOnce sync.Once
var selMsgs [][]byte
var selDigest [][32]byte
var selScalar [][32]byte

func sha2(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// selected searches counters for messages whose intermediate hash values are
// extreme: smallest and largest field elements, shortest and longest searches
// of the try-and-increment construction.
func selected() {
	selOnce.Do(func() {
		type cand struct {
			k uint32
			v [6]*big.Int
		}
		htf := func(base []byte, ctr, i byte, m *big.Int) *big.Int {
			b := append(append([]byte{}, base...), ctr)
			v := append(sha2(b, []byte{i, 1}), sha2(b, []byte{i, 2})...)
			return new(big.Int).Mod(new(big.Int).SetBytes(v), m)
		}
		var all []cand
		for k := uint32(0); k < 3000; k++ {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], k)
			base := sha2([]byte{1}, b[:])
			all = append(all, cand{k, [6]*big.Int{htf(base, 0, 1, bq), htf(base, 0, 2, bq), htf(base, 1, 1, bq), htf(base, 1, 2, bq)}})
		}
		seen := map[uint32]bool{}
		for c := 0; c < 4; c++ {
			sort.Slice(all, func(i, j int) bool { return all[i].v[c].Cmp(all[j].v[c]) < 0 })
			for _, x := range []cand{all[0], all[1], all[len(all)-1]} {
				if !seen[x.k] {
					seen[x.k] = true
					b := make([]byte, 4)
					binary.BigEndian.PutUint32(b, x.k)
					selMsgs = append(selMsgs, b)
				}
			}
		}
		// scalars
		type sc struct {
			b [32]byte
			v *big.Int
		}
		var scs []sc
		for k := uint32(0); k < 3000; k++ {
			var b [32]byte
			binary.BigEndian.PutUint32(b[28:], k)
			scs = append(scs, sc{b, ref.HashScalar(b)})
		}
		sort.Slice(scs, func(i, j int) bool { return scs[i].v.Cmp(scs[j].v) < 0 })
		for _, i := range []int{0, 1, 2, len(scs) - 1, len(scs) - 2} {
			selScalar = append(selScalar, scs[i].b)
		}
		// digests: leading zeros of either hash, and long searches
		type dg struct {
			b      [32]byte
			re, im *big.Int
			n      int
		}
		var ds []dg
		var d8 [8]byte
		for k := uint32(0); k < 1500; k++ {
			var b [32]byte
			binary.BigEndian.PutUint32(b[:], k)
			x := ref.MakeF2(new(big.Int).SetBytes(sha2(b[:], d8[:], []byte{1})), new(big.Int).SetBytes(sha2(b[:], d8[:], []byte{2})))
			n := 0
			y := x
			for !ref.RHS2(y).IsSquare() {
				y = y.Add(ref.Int2(1, 0))
				n++
			}
			ds = append(ds, dg{b, x.A, x.B, n})
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].re.Cmp(ds[j].re) < 0 })
		selDigest = append(selDigest, ds[0].b, ds[1].b, ds[len(ds)-1].b)
		sort.Slice(ds, func(i, j int) bool { return ds[i].im.Cmp(ds[j].im) < 0 })
		selDigest = append(selDigest, ds[0].b, ds[1].b, ds[len(ds)-1].b)
		sort.Slice(ds, func(i, j int) bool { return ds[i].n > ds[j].n })
		selDigest = append(selDigest, ds[0].b, ds[1].b, ds[2].b)
	})
}

// mapInputs are field elements for the maps to curves: small, boundary and
// exceptional ones.
func mapInputs2(tier string) (out []ref.F2) {
	c := []*big.Int{bi(0), bi(1), sub(bq, one), bi(2), new(big.Int).Rsh(bq, 1), add(new(big.Int).Rsh(bq, 1), one), genZ(31)}
	if tier == "thorough" {
		c = append(c, bi(3), sub(bq, bi(2)), pow2(64), pow2(256), genZ(32), genZ(33), genZ(34), rInv384)
	}
	for _, a := range c {
		for _, b := range c {
			out = append(out, ref.F2{A: a, B: b})
		}
	}
	// -1/Z for Z = 1+i, and -(b+1): zero denominators, where they have roots
	z, _ := ref.Int2(1, 1).Inv()
	for _, s := range []ref.F2{z.Neg(), z, ref.Int2(-5, -4), ref.B2.Neg(), ref.Int2(0, -1)} {
		if r, ok := s.Sqrt(); ok {
			out = append(out, r, r.Neg())
		}
	}
	n := int64(24)
	if tier == "thorough" {
		n = 400
	}
	for k := int64(0); k < n; k++ {
		out = append(out, ref.F2{A: genZ(200 + 2*k), B: genZ(201 + 2*k)})
	}
	return
}

func mapInputs1(tier string) (out []*big.Int) {
	out = nearList(3, bi(3), new(big.Int).Rsh(bq, 1), pow2(64), pow2(256), sub(bq, bi(4)))
	n := int64(24)
	if tier == "thorough" {
		n = 400
	}
	for k := int64(0); k < n; k++ {
		out = append(out, genZ(300+k), rootOr(bi(k+2)))
	}
	return below(dedup(out), bq)
}

func rootOr(v *big.Int) *big.Int {
	if r := ref.Sqrt(v); r != nil {
		return r
	}
	return v
}

// message lengths around powers of two and of ten
var longMsgs = []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100001, 1 << 17, 1 << 20}

// internal spaces, present when the package has the functions they call
var internal13 func(tier string) []core.Space

func init() {
	core.Register("C13", func(tier string) []core.Space {
		thorough := tier == "thorough"
		var sp []core.Space
		add := func(s core.Space) { sp = append(sp, s) }
		lens := int64(300)
		if thorough {
			lens = 1100
		}
		add(core.Space{Name: "message lengths", N: lens * 2, Portable: 3, Run: func(t *core.T, i int64) {
			k := []int{2, 0}[i%2]
			if thorough {
				k = []int{2, 1}[i%2]
			}
			hashMsg(t, pattern(k, int(i/2)), 3)
		}})
		add(core.Space{Name: "long messages", N: int64(len(longMsgs)), Portable: 2, Run: func(t *core.T, i int64) {
			hashMsg(t, pattern(3, longMsgs[i]), 3)
		}})
		// every byte of a long message matters
		add(core.Space{Name: "a byte of a long message", N: 208, Portable: 8, Run: func(t *core.T, i int64) {
			m := pattern(2, 208)
			m[i] ^= 1 << uint(i%8)
			hashMsg(t, m, 3)
		}})
		tm := twoMsgs()
		add(core.Space{Name: "histories on two messages", N: int64(len(tm)), Portable: 8, Run: func(t *core.T, i int64) {
			hashHistory(t, tm[i])
		}})
		add(core.Space{Name: "coming back to earlier messages", N: 3, Run: func(t *core.T, i int64) {
			remember13(t, int(i))
		}})
		add(core.Space{Name: "one-byte messages", N: 256, Portable: 4, Run: func(t *core.T, i int64) {
			hashMsg(t, []byte{byte(i)}, 3)
		}})
		add(core.Space{Name: "message counters", N: 8192, Portable: 8, Run: func(t *core.T, i int64) {
			hashMsg(t, []byte{0, byte(i >> 8), byte(i)}, 1+int(i&1))
		}})
		add(core.Space{Name: "two-byte messages", N: 65536, Thorough: true, Run: func(t *core.T, i int64) {
			hashMsg(t, []byte{byte(i >> 8), byte(i)}, 1+int(i&1))
		}})
		add(core.Space{Name: "nil and empty", N: 1, Run: func(t *core.T, i int64) {
			t.Eval(true)
			if !bls.HashG1(nil).Equals(bls.HashG1([]byte{})) || !bls.HashG2(nil).Equals(bls.HashG2([]byte{})) {
				t.Failf("hash of nil differs from hash of an empty message")
			}
			hashMsg(t, nil, 3)
		}})
		add(core.Space{Name: "messages with extreme hash values", N: 12, Run: func(t *core.T, i int64) {
			selected()
			if i < int64(len(selMsgs)) {
				hashMsg(t, selMsgs[i], 3)
			}
		}})
		// every bit of a digest and a domain matters
		add(core.Space{Name: "digest and domain bits", N: 320, Portable: 8, Run: func(t *core.T, i int64) {
			var m [32]byte
			var d [8]byte
			if i < 256 {
				m[i/8] = 1 << uint(i%8)
			} else {
				d[(i-256)/8] = 1 << uint(i%8)
			}
			hashDomain(t, m, d)
		}})
		add(core.Space{Name: "digest and domain patterns", N: 16, Portable: 2, Run: func(t *core.T, i int64) {
			var m [32]byte
			var d [8]byte
			copy(m[:], pattern(int(i%4), 32))
			copy(d[:], pattern(int(i/4), 8))
			hashDomain(t, m, d)
		}})
		add(core.Space{Name: "digests with extreme hash values", N: 9, Run: func(t *core.T, i int64) {
			selected()
			hashDomain(t, selDigest[i], [8]byte{})
		}})
		add(core.Space{Name: "digests with long searches", N: int64(len(longSearch)), Run: func(t *core.T, i int64) {
			b := searchDigest(longSearch[i][1])
			if searchLength(b) != longSearch[i][0] {
				panic("model: not the search length the list says")
			}
			if t.WantSample() {
				t.Sample("digest %x needs %d increments", b, longSearch[i][0])
			}
			hashDomain(t, b, [8]byte{})
		}})
		digests := int64(2048)
		if thorough {
			digests = 65536
		}
		add(core.Space{Name: "digest counters", N: digests, Portable: 8, Run: func(t *core.T, i int64) {
			var m [32]byte
			var d [8]byte
			m[31], m[0], d[7], d[0] = byte(i), byte(i>>4), byte(i>>8), byte(i>>2)
			hashDomain(t, m, d)
		}})
		add(core.Space{Name: "scalars from bytes", N: 256 + 4 + 5 + 65536, Portable: 8, Run: func(t *core.T, i int64) {
			var b [32]byte
			switch {
			case i < 256:
				b[i/8] = 1 << uint(i%8)
			case i < 260:
				copy(b[:], pattern(int(i-256), 32))
			case i < 265:
				selected()
				b = selScalar[i-260]
			default:
				b[31], b[30] = byte(i), byte(i>>8)
			}
			hashScalar(t, b)
		}})
		in2 := mapInputs2(tier)
		add(core.Space{Name: "simplified SWU map to the twist", N: int64(len(in2)), Portable: 2, Run: func(t *core.T, i int64) {
			x := in2[i]
			want := ref.SWU2(x)
			if !ref.OnIso2(want) {
				panic("model")
			}
			arg := FQ2(x)
			got := bls.OptimizedSWU2MapHelper(arg)
			g2g.isA(t, got, pt{g: 2, p2: want}, func() string { return "SWU map of " + s2(x) })
			is2(t, "argument of the SWU map", arg, x)
		}})
		add(core.Space{Name: "Shallue-van de Woestijne encoding", N: int64(len(in2)), Portable: 2, Run: func(t *core.T, i int64) {
			x := in2[i]
			arg := FQ2(x)
			got := bls.SWEncodeG2(arg)
			want := pt{g: 2, p2: ref.SWEncode2(x)}
			g2g.isA(t, got, want, func() string { return "encoding of " + s2(x) })
			t.Eval(true)
			if !got.IsOnCurve() {
				t.Failf("encoding of %s is off the curve", s2(x))
			}
			is2(t, "argument of the encoding", arg, x)
		}})
		ps := g1g.mixed(3)
		add(core.Space{Name: "cofactor clearing", N: int64(len(ps)), Run: func(t *core.T, i int64) {
			p := ps[i]
			a := g1g.a(p).(*bls.G1Affine)
			g1g.isA(t, bls.ClearH(a), p.mul(ref.HEff1), func() string { return "cleared " + p.String() })
			g1g.isA(t, a, p, func() string { return "argument of ClearH" })
		}})
		sp = append(sp, rareSpaces()...)
		if internal13 != nil {
			sp = append(sp, internal13(tier)...)
		}
		return sp
	})
}
