package checks

import (
	"fmt"
	"math/big"

	"verifharness/core"
	"verifharness/ref"
)

// checkBytes compares both decoders with the definition of the encoding.
func (g *grp) checkBytes(t *core.T, b []byte) {
	p, ok := g.rdecomp(b)
	orig := string(b)
	got, err := g.decompress(b, false)
	t.Eval(ok)
	if (err == nil) != ok {
		t.Failf("unchecked decoding of %x: error %v, valid %v", b, err, ok)
	}
	in := false
	if ok {
		g.isA(t, got, p, func() string { return fmt.Sprintf("unchecked decoding of %x", b) })
		if r := g.compress(got); string(r) != orig {
			t.Failf("%x decodes to %v, which encodes as %x", b, p, r)
		}
		in = p.mul(ref.R).inf()
	}
	got, err = g.decompress(b, true)
	t.Eval(ok)
	if (err == nil) != in {
		t.Failf("checked decoding of %x: error %v, on the curve %v, in the subgroup %v", b, err, ok, in)
	}
	if in {
		g.isA(t, got, p, func() string { return fmt.Sprintf("checked decoding of %x", b) })
		if r := g.compress(got); string(r) != orig {
			t.Failf("%x decodes to %v, which encodes as %x", b, p, r)
		}
	}
	if string(b) != orig {
		panic("harness: bytes changed")
	}
}

// checkPoint encodes a point.
func (g *grp) checkPoint(t *core.T, p pt) {
	a := g.a(p)
	b := g.compress(a)
	t.Eval(true)
	if string(b) != p.enc() {
		t.Failf("%v encodes as %x, not %x", p, b, p.enc())
	}
	g.isA(t, a, p, func() string { return "encoded point afterwards" })
	for z := 0; z < 4; z++ {
		if c := g.compress(g.toA(g.j(p, z))); string(c) != p.enc() {
			t.Failf("%v (representative %d) encodes as %x, not %x", p, z, c, p.enc())
		}
	}
	if b[0]&0x80 == 0 || (b[0]&0x40 != 0) != p.inf() {
		t.Failf("%v encodes with flags %x", p, b[0]&0xe0)
	}
	if !p.inf() && (b[0]&0x20 != 0) == (p.neg().enc()[0]&0x20 != 0) {
		panic("model: both signs equal")
	}
	g.checkBytes(t, b)
}

// byteGrid lists byte strings: flag combinations over boundary coordinates,
// stray bytes around infinity.
func (g *grp) byteGrid(l int64) [][]byte {
	// x values for the flag grid; each in every position
	xs := nearList(3, bi(0), bq, new(big.Int).Rsh(bq, 1), pow2(380), sub(pow2(381), bi(4)))
	xs = append(xs, ref.G1.X, add(bq, ref.G1.X), ref.G2.X.A, ref.G2.X.B, g.ofOrderX(l), pow2(64), sub(pow2(320), one))
	xs = dedup(below(xs, pow2(381)))
	xs2 := dedup(append(nearList(2, bi(0), bq, pow2(381), pow2(382), pow2(383), sub(pow2(384), bi(3)), add(bq, ref.G2.X.A)), ref.G2.X.A, ref.G2.X.B, mul(bi(2), bq), mul(bi(3), bq)))
	xs2 = below(xs2, pow2(384))
	var grid [][]byte
	put := func(flags byte, hi, lo *big.Int) {
		b := make([]byte, g.size)
		hi.FillBytes(b[:48])
		if g.size == 96 {
			lo.FillBytes(b[48:])
		}
		b[0] = b[0]&0x1f | flags
		grid = append(grid, b)
	}
	for f := 0; f < 8; f++ {
		for _, x := range xs {
			if g.id == 1 {
				put(byte(f<<5), x, nil)
				continue
			}
			for _, y := range xs2 {
				put(byte(f<<5), x, y)
			}
		}
	}
	if g.id == 2 {
		for f := 4; f < 6; f++ {
			put(byte(f<<5), add(ref.G2.X.B, bq), ref.G2.X.A)
			put(byte(f<<5), ref.G2.X.A, ref.G2.X.B)
			for _, p := range tiePoints() {
				put(byte(f<<5), p.p2.X.B, p.p2.X.A)
			}
		}
	}
	// infinity with one stray byte, and every first byte over a valid tail
	for f := 0; f < 256; f++ {
		b := make([]byte, g.size)
		b[0] = byte(f)
		grid = append(grid, b)
		b = []byte(g.gen.enc())
		b[0] = byte(f)
		grid = append(grid, b)
	}
	for _, f := range []byte{0xc0, 0xe0, 0x80, 0x40} {
		for k := 1; k < g.size; k++ {
			for _, v := range []byte{1, 0x80, 0xff} {
				b := make([]byte, g.size)
				b[0] = f
				b[k] = v
				grid = append(grid, b)
			}
		}
		b := make([]byte, g.size)
		b[0] = f
		for k := 1; k < g.size; k++ {
			b[k] = 0xff
		}
		grid = append(grid, b)
	}
	return grid
}

func encSpaces(g *grp, tier string) []core.Space {
	name := fmt.Sprintf("g%d-", g.id)
	pts := g.mixed(4)
	l := int64(11)
	if g.id == 2 {
		l = 13
	}
	pts = append(append([]pt{}, pts...), g.torsion(l)...)
	for k := int64(5); k < 40; k++ {
		pts = append(pts, g.gen.mul(bi(k*k)))
	}
	grid := g.byteGrid(l)
	var valid []pt
	valid = append(valid, g.gen, g.gen.neg(), g.inf, g.gen.mul(bi(5)), g.ofOrder(l, 1))
	flips := int64(8 * g.size)
	nv := int64(len(valid))
	port, nflip := int64(6), nv
	if g.id == 2 {
		port = 12
		if tier != "thorough" {
			nflip = 3
		}
	}
	// small x: every x from 0 on, with both signs
	nx := int64(200)
	if g.id == 2 {
		nx = 60
	}
	if tier == "thorough" {
		nx *= 20
	}
	out := []core.Space{
		{Name: name + "points", N: int64(len(pts)), Portable: 4, Run: func(t *core.T, i int64) {
			g.checkPoint(t, pts[i])
			if t.WantSample() {
				t.Sample("%v encoded and decoded", pts[i])
			}
		}},
		{Name: name + "flag-grid", N: int64(len(grid)), Portable: port, Run: func(t *core.T, i int64) {
			g.checkBytes(t, append([]byte{}, grid[i]...))
			if t.WantSample() {
				t.Sample("bytes %x", grid[i])
			}
		}},
		{Name: name + "small-x", N: nx, Portable: 4, Run: func(t *core.T, i int64) {
			for f := byte(4); f < 6; f++ {
				b := make([]byte, g.size)
				b[g.size-1] = byte(i)
				b[g.size-2] = byte(i >> 8)
				if g.id == 2 {
					b[47] = byte(i % 5)
				}
				b[0] |= f << 5
				g.checkBytes(t, b)
			}
		}},
		{Name: name + "bit-flips", N: flips * nflip, Portable: port, Run: func(t *core.T, i int64) {
			b := []byte(valid[i/flips].enc())
			k := i % flips
			b[k/8] ^= 1 << uint(k%8)
			g.checkBytes(t, b)
			if t.WantSample() {
				t.Sample("encoding of %v with bit %d flipped", valid[i/flips], k)
			}
		}},
		{Name: name + "byte-changes", N: int64(g.size) * 256, Thorough: true, Run: func(t *core.T, i int64) {
			b := []byte(g.gen.enc())
			b[i/256] = byte(i)
			g.checkBytes(t, b)
		}},
		{Name: name + "two-flips", N: flips * 3, Thorough: true, Run: func(t *core.T, i int64) {
			v := valid[i/flips]
			for k := i%flips + 1; k < flips; k++ {
				if i/flips < 2 && k%16 != i%16 {
					continue
				}
				b := []byte(v.enc())
				b[i%flips/8] ^= 1 << uint(i%8)
				b[k/8] ^= 1 << uint(k%8)
				g.checkBytes(t, b)
				t.State(1)
			}
		}},
		{Name: name + "coming-back", N: 2, Run: func(t *core.T, i int64) {
			g.remember10(t, i == 0)
		}},
		// distinct points have distinct encodings, equal points one encoding
		{Name: name + "injective", N: 1, Run: func(t *core.T, i int64) {
			seen := map[string]int{}
			for k, p := range pts {
				e := string(g.compress(g.a(p)))
				if j, ok := seen[e]; ok && !pts[j].eq(p) {
					t.Failf("%v and %v have the same encoding", pts[j], p)
				}
				seen[e] = k
				t.Eval(true)
			}
			t.State(int64(len(seen)))
		}},
	}
	return out
}

// ofOrderX is the (last component of the) x coordinate of a point of order l.
func (g *grp) ofOrderX(l int64) *big.Int {
	p := g.ofOrder(l, 1)
	if g.id == 1 {
		return p.p1.X
	}
	return p.p2.X.B
}

func init() {
	core.Register("C10", func(tier string) []core.Space {
		return append(encSpaces(g1g, tier), encSpaces(g2g, tier)...)
	})
}
