package checks

import (
	"math/big"
	"strings"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// wide is one of the two fixed-width integers, as seen from outside.
type wide struct {
	name string
	w    uint
	num  func(v *big.Int) interface{}
	val  func(x interface{}) *big.Int
	// in-place operations on a fresh object
	rsh, lsh         func(x interface{}, n uint)
	div2, mul2       func(x interface{})
	add, sub         func(x, y interface{})
	cmp              func(x, y interface{}) int
	eq               func(x, y interface{}) bool
	bit              func(x interface{}, n uint) bool
	bitlen           func(x interface{}) uint
	odd, even, zero  func(x interface{}) bool
	cp               func(x interface{}) interface{}
	bytes            func(x interface{}) []byte
	fromBytes        func(b []byte) interface{}
	str              func(x interface{}) string
	big              func(x interface{}) *big.Int
	fromBig          func(v *big.Int) (interface{}, error)
	fromString       func(s string, b uint) (interface{}, error)
	fromUint         func(n uint64) interface{}
	modulus          *big.Int
	fromBigNilOnFail bool
}

var wideQ = &wide{
	name: "384", w: 384, modulus: ref.Q,
	num:  func(v *big.Int) interface{} { r := Q6(v); return &r },
	val:  func(x interface{}) *big.Int { return ofQ6(*x.(*bls.FQRepr)) },
	rsh:  func(x interface{}, n uint) { x.(*bls.FQRepr).Rsh(n) },
	lsh:  func(x interface{}, n uint) { x.(*bls.FQRepr).Lsh(n) },
	div2: func(x interface{}) { x.(*bls.FQRepr).Div2() },
	mul2: func(x interface{}) { x.(*bls.FQRepr).Mul2() },
	add:  func(x, y interface{}) { x.(*bls.FQRepr).AddNoCarry(*y.(*bls.FQRepr)) },
	sub:  func(x, y interface{}) { x.(*bls.FQRepr).SubNoBorrow(*y.(*bls.FQRepr)) },
	cmp:  func(x, y interface{}) int { return x.(*bls.FQRepr).Cmp(*y.(*bls.FQRepr)) },
	eq:   func(x, y interface{}) bool { return x.(*bls.FQRepr).Equals(*y.(*bls.FQRepr)) },
	bit:  func(x interface{}, n uint) bool { return x.(*bls.FQRepr).Bit(n) },
	bitlen: func(x interface{}) uint {
		return x.(*bls.FQRepr).BitLen()
	},
	odd:  func(x interface{}) bool { return x.(*bls.FQRepr).IsOdd() },
	even: func(x interface{}) bool { return x.(*bls.FQRepr).IsEven() },
	zero: func(x interface{}) bool { return x.(*bls.FQRepr).IsZero() },
	cp:   func(x interface{}) interface{} { c := x.(*bls.FQRepr).Copy(); return &c },
	bytes: func(x interface{}) []byte {
		b := x.(*bls.FQRepr).Bytes()
		return b[:]
	},
	fromBytes: func(b []byte) interface{} {
		var a [48]byte
		copy(a[:], b)
		r := bls.FQReprFromBytes(a)
		return &r
	},
	str:     func(x interface{}) string { return x.(*bls.FQRepr).String() },
	big:     func(x interface{}) *big.Int { return x.(*bls.FQRepr).ToBig() },
	fromBig: func(v *big.Int) (interface{}, error) { r, e := bls.FQReprFromBigInt(v); return &r, e },
	fromString: func(s string, b uint) (interface{}, error) {
		r, e := bls.FQReprFromString(s, b)
		return &r, e
	},
	fromUint: func(n uint64) interface{} { r := bls.NewFQRepr(n); return &r },
}

var wideR = &wide{
	name: "256", w: 256, modulus: ref.R,
	num:  func(v *big.Int) interface{} { return R4(v) },
	val:  func(x interface{}) *big.Int { return ofR4(x.(*bls.FRRepr)) },
	rsh:  func(x interface{}, n uint) { x.(*bls.FRRepr).Rsh(n) },
	lsh:  func(x interface{}, n uint) { x.(*bls.FRRepr).Lsh(n) },
	div2: func(x interface{}) { x.(*bls.FRRepr).Div2() },
	mul2: func(x interface{}) { x.(*bls.FRRepr).Mul2() },
	add:  func(x, y interface{}) { x.(*bls.FRRepr).AddNoCarry(y.(*bls.FRRepr)) },
	sub:  func(x, y interface{}) { x.(*bls.FRRepr).SubNoBorrow(y.(*bls.FRRepr)) },
	cmp:  func(x, y interface{}) int { return x.(*bls.FRRepr).Cmp(y.(*bls.FRRepr)) },
	eq:   func(x, y interface{}) bool { return x.(*bls.FRRepr).Equals(y.(*bls.FRRepr)) },
	bit:  func(x interface{}, n uint) bool { return x.(*bls.FRRepr).Bit(n) },
	bitlen: func(x interface{}) uint {
		return x.(*bls.FRRepr).BitLen()
	},
	odd:  func(x interface{}) bool { return x.(*bls.FRRepr).IsOdd() },
	even: func(x interface{}) bool { return x.(*bls.FRRepr).IsEven() },
	zero: func(x interface{}) bool { return x.(*bls.FRRepr).IsZero() },
	cp:   func(x interface{}) interface{} { return x.(*bls.FRRepr).Copy() },
	bytes: func(x interface{}) []byte {
		b := x.(*bls.FRRepr).Bytes()
		return b[:]
	},
	fromBytes: func(b []byte) interface{} {
		var a [32]byte
		copy(a[:], b)
		return bls.FRReprFromBytes(a)
	},
	str:     func(x interface{}) string { return x.(*bls.FRRepr).String() },
	big:     func(x interface{}) *big.Int { return x.(*bls.FRRepr).ToBig() },
	fromBig: func(v *big.Int) (interface{}, error) { r, e := bls.FRReprFromBigInt(v); return r, e },
	fromString: func(s string, b uint) (interface{}, error) {
		r, e := bls.FRReprFromString(s, b)
		return r, e
	},
	fromUint: func(n uint64) interface{} { return bls.NewFRRepr(n) },
}

func (d *wide) trunc(v *big.Int) *big.Int { return new(big.Int).Mod(v, pow2(d.w)) }

func (d *wide) grid(set []uint64) []*big.Int {
	sets := make([][]uint64, d.w/64)
	for i := range sets {
		sets[i] = set
	}
	return limbGrid(sets...)
}

// values: all limb grids over a small set, single bits, runs of ones and the
// neighbourhood of the moduli.
func (d *wide) values(set []uint64) []*big.Int {
	v := d.grid(set)
	v = append(v, nearList(2, bi(0), ref.Q, ref.R, pow2(d.w))...)
	for k := uint(0); k < d.w; k++ {
		v = append(v, pow2(k), sub(pow2(k), one), sub(pow2(d.w), pow2(k)))
	}
	return dedup(below(v, pow2(d.w)))
}

func (d *wide) same(t *core.T, what string, got interface{}, want *big.Int) {
	if g := d.val(got); g.Cmp(want) != 0 {
		t.Failf("%s-bit %s is %s, not %s", d.name, what, hexs(g), hexs(want))
	}
}

func (d *wide) unary(t *core.T, v *big.Int) {
	x := d.num(v)
	if d.odd(x) != (v.Bit(0) == 1) || d.even(x) != (v.Bit(0) == 0) {
		t.Failf("parity of %s: odd=%v even=%v", hexs(v), d.odd(x), d.even(x))
	}
	if d.zero(x) != (v.Sign() == 0) {
		t.Failf("zero test of %s gives %v", hexs(v), d.zero(x))
	}
	if d.bitlen(x) != uint(v.BitLen()) {
		t.Failf("bit length of %s is %d", hexs(v), d.bitlen(x))
	}
	for n := uint(0); n < d.w; n++ {
		if d.bit(x, n) != (v.Bit(int(n)) == 1) {
			t.Failf("bit %d of %s is %v", n, hexs(v), d.bit(x, n))
		}
	}
	y := d.cp(x)
	d.div2(y)
	d.same(t, "half of "+hexs(v), y, new(big.Int).Rsh(v, 1))
	y = d.cp(x)
	d.mul2(y)
	d.same(t, "double of "+hexs(v), y, d.trunc(new(big.Int).Lsh(v, 1)))
	d.same(t, "original after changing copies", x, v)
	y = d.cp(x)
	d.add(y, y)
	d.same(t, "sum with itself of "+hexs(v), y, d.trunc(add(v, v)))
	y = d.cp(x)
	d.sub(y, y)
	d.same(t, "difference with itself of "+hexs(v), y, bi(0))
	b := d.bytes(x)
	want := make([]byte, d.w/8)
	v.FillBytes(want)
	if string(b) != string(want) {
		t.Failf("bytes of %s are %x", hexs(v), b)
	}
	d.same(t, "number from bytes", d.fromBytes(b), v)
	if g := d.big(x); g.Cmp(v) != 0 {
		t.Failf("big integer of %s is %s", hexs(v), hexs(g))
	} else {
		// the result is the caller's to change
		g.Add(g, one)
	}
	d.same(t, "original after changing its big integer", x, v)
	arg := new(big.Int).Set(v)
	y, err := d.fromBig(arg)
	if err != nil {
		t.Failf("%s rejected: %v", hexs(v), err)
	}
	d.same(t, "number from big integer", y, v)
	if arg.Cmp(v) != 0 {
		t.Failf("conversion changed its argument %s to %s", hexs(v), hexs(arg))
	}
	y, err = d.fromString(d.str(x), 16)
	if err != nil {
		t.Failf("own text %q of %s rejected: %v", d.str(x), hexs(v), err)
	}
	d.same(t, "number from its own text "+d.str(x), y, v)
	for _, base := range []uint{2, 8, 10, 16, 36} {
		for _, s := range []string{v.Text(int(base)), "000" + v.Text(int(base)), strings.ToUpper(v.Text(int(base)))} {
			y, err = d.fromString(s, base)
			if err != nil {
				t.Failf("text %q in base %d rejected: %v", s, base, err)
			}
			d.same(t, "number from text "+s, y, v)
		}
	}
	if v.IsUint64() {
		d.same(t, "number from word", d.fromUint(v.Uint64()), v)
	}
	if d == wideR {
		f := x.(*bls.FRRepr).ToFQ()
		if ofQ6(f).Cmp(v) != 0 {
			t.Failf("widening %s gives %s", hexs(v), hexs(ofQ6(f)))
		}
	}
	t.EvalN(int64(d.w) + 30)
}

func (d *wide) shifts(t *core.T, v *big.Int) {
	counts := make([]uint, 0, 600)
	for n := uint(0); n <= d.w+70; n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 512, 1<<16, 1<<31, ^uint(0), ^uint(0)-63, ^uint(0)-d.w+1)
	for _, n := range counts {
		l, r := new(big.Int), new(big.Int)
		if n <= d.w+70 {
			l = d.trunc(l.Lsh(v, n))
			r.Rsh(v, n)
		}
		y := d.num(v)
		d.rsh(y, n)
		if d.val(y).Cmp(r) != 0 {
			t.Failf("%s >> %d is %s", hexs(v), n, hexs(d.val(y)))
		}
		y = d.num(v)
		d.lsh(y, n)
		if d.val(y).Cmp(l) != 0 {
			t.Failf("%s << %d is %s", hexs(v), n, hexs(d.val(y)))
		}
	}
	t.EvalN(2 * int64(len(counts)))
}

func (d *wide) pair(t *core.T, a, b *big.Int, y interface{}) {
	x := d.num(a)
	if c := d.cmp(x, y); c != a.Cmp(b) {
		t.Failf("%s-bit comparison of %s with %s gives %d", d.name, hexs(a), hexs(b), c)
	}
	if e := d.eq(x, y); e != (a.Cmp(b) == 0) {
		t.Failf("%s-bit equality of %s and %s gives %v", d.name, hexs(a), hexs(b), e)
	}
	d.add(x, y)
	if g := d.val(x); g.Cmp(d.trunc(add(a, b))) != 0 {
		t.Failf("%s-bit %s + %s is %s", d.name, hexs(a), hexs(b), hexs(g))
	}
	// from the sum back again
	d.sub(x, y)
	if g := d.val(x); g.Cmp(a) != 0 {
		t.Failf("%s-bit %s + %s - %s is %s", d.name, hexs(a), hexs(b), hexs(b), hexs(g))
	}
	d.sub(x, y)
	if g := d.val(x); g.Cmp(d.trunc(sub(a, b))) != 0 {
		t.Failf("%s-bit %s - %s is %s", d.name, hexs(a), hexs(b), hexs(g))
	}
	if d.val(y).Cmp(b) != 0 {
		t.Failf("operand %s changed to %s", hexs(b), hexs(d.val(y)))
	}
	t.EvalN(5)
}

// seq runs all sequences of in-place operations of the given depth.
func (d *wide) seq(t *core.T, start *big.Int, other *big.Int, depth int) {
	type op struct {
		name string
		do   func(x, y interface{})
		mod  func(v *big.Int) *big.Int
	}
	var ops []op
	for _, n := range []uint{0, 1, 63, 64, 65, 127, 128, 191, 192, 255, 256, 383, 384} {
		n := n
		ops = append(ops,
			op{"rsh", func(x, y interface{}) { d.rsh(x, n) }, func(v *big.Int) *big.Int { return new(big.Int).Rsh(v, n) }},
			op{"lsh", func(x, y interface{}) { d.lsh(x, n) }, func(v *big.Int) *big.Int { return d.trunc(new(big.Int).Lsh(v, n)) }})
	}
	ops = append(ops,
		op{"div2", func(x, y interface{}) { d.div2(x) }, func(v *big.Int) *big.Int { return new(big.Int).Rsh(v, 1) }},
		op{"mul2", func(x, y interface{}) { d.mul2(x) }, func(v *big.Int) *big.Int { return d.trunc(new(big.Int).Lsh(v, 1)) }},
		op{"add", func(x, y interface{}) { d.add(x, y) }, func(v *big.Int) *big.Int { return d.trunc(add(v, other)) }},
		op{"sub", func(x, y interface{}) { d.sub(x, y) }, func(v *big.Int) *big.Int { return d.trunc(sub(v, other)) }},
		op{"self-add", func(x, y interface{}) { d.add(x, x) }, func(v *big.Int) *big.Int { return d.trunc(add(v, v)) }},
		op{"self-sub", func(x, y interface{}) { d.sub(x, x) }, func(v *big.Int) *big.Int { return bi(0) }},
		op{"bytes", func(x, y interface{}) {
			switch p := x.(type) {
			case *bls.FQRepr:
				*p = bls.FQReprFromBytes(p.Bytes())
			case *bls.FRRepr:
				*p = *bls.FRReprFromBytes(p.Bytes())
			}
		}, func(v *big.Int) *big.Int { return v }})
	// breadth first over model states: a state reached again is not expanded again
	type node struct {
		v    *big.Int
		path string
	}
	y := d.num(other)
	seen := map[string]bool{start.String(): true}
	level := []node{{start, ""}}
	states, trans := int64(1), int64(0)
	for k := 0; k < depth; k++ {
		var next []node
		for _, n := range level {
			for _, o := range ops {
				x := d.num(n.v)
				o.do(x, y)
				w := o.mod(n.v)
				trans++
				if g := d.val(x); g.Cmp(w) != 0 {
					t.Failf("%s-bit %s%s %s (other operand %s) gives %s, not %s", d.name, hexs(start), n.path, o.name, hexs(other), hexs(g), hexs(w))
				}
				if !seen[w.String()] {
					seen[w.String()] = true
					states++
					next = append(next, node{w, n.path + " " + o.name})
				}
			}
		}
		level = next
	}
	if d.val(y).Cmp(other) != 0 {
		t.Failf("operand %s changed to %s", hexs(other), hexs(d.val(y)))
	}
	t.State(states)
	t.Trans(trans)
	t.EvalN(trans)
}

// reject: what does not fit is an error, not a truncation.
func (d *wide) reject(t *core.T) {
	var bad []*big.Int
	for k := d.w; k < d.w+140; k++ {
		bad = append(bad, pow2(k), add(pow2(k), one), sub(pow2(k+1), one), add(pow2(k), ref.R))
	}
	for k := uint(0); k < d.w+8; k++ {
		bad = append(bad, new(big.Int).Neg(pow2(k)), new(big.Int).Neg(add(pow2(k), bi(5))))
	}
	for _, v := range bad {
		if y, err := d.fromBig(v); err == nil {
			t.Failf("%s was accepted as %s", v.Text(16), hexs(d.val(y)))
		}
		for _, base := range []uint{2, 10, 16} {
			if y, err := d.fromString(v.Text(int(base)), base); err == nil {
				t.Failf("text %s was accepted as %s", v.Text(int(base)), hexs(d.val(y)))
			}
		}
		t.EvalN(4)
	}
	for _, s := range []string{"", " ", "-", "+", "zz", "12g", "0x", "1 2", "1.5", "1e3", "\x00", "--1"} {
		for _, base := range []uint{10, 16} {
			if _, ok := new(big.Int).SetString(s, int(base)); ok {
				continue
			}
			if y, err := d.fromString(s, base); err == nil {
				t.Failf("text %q was accepted as %s", s, hexs(d.val(y)))
			}
			t.Eval(true)
		}
	}
}

func checkBits(t *core.T, l []uint64) {
	orig := append([]uint64{}, l...)
	it := bls.NewBitIterator(l)
	for k := 64*len(l) - 1; k >= 0; k-- {
		b, done := it.Next()
		if done {
			t.Failf("iterator over %x ended before bit %d", l, k)
		}
		if b != (orig[k/64]>>(uint(k)%64)&1 == 1) {
			t.Failf("iterator over %x gave %v for bit %d", orig, b, k)
		}
	}
	for k := 0; k < 3; k++ {
		if b, done := it.Next(); !done || b {
			t.Failf("iterator over %x did not end after the last bit", l)
		}
	}
	for k := range l {
		if l[k] != orig[k] {
			t.Failf("iterator changed its limbs")
		}
	}
	t.EvalN(int64(64*len(l)) + 3)
}

func init() {
	core.Register("C04", func(tier string) []core.Space {
		small := []uint64{0, 1, m64}
		mid := []uint64{0, 1, 1 << 63, 0xaaaaaaaaaaaaaaaa, m64}
		if tier == "thorough" {
			mid = []uint64{0, 1, 1 << 32, 1 << 63, 0xaaaaaaaaaaaaaaaa, m64 - 1, m64}
			small = []uint64{0, 1, 1 << 63, m64}
		}
		var out []core.Space
		for _, d := range []*wide{wideQ, wideR} {
			d := d
			u := d.values(mid)
			if d == wideR {
				u = d.values([]uint64{0, 1, 1 << 32, 1 << 63, 0xaaaaaaaaaaaaaaaa, m64 - 1, m64})
			}
			const chunk = 16
			out = append(out, core.Space{Name: "unary-" + d.name, N: (int64(len(u)) + chunk - 1) / chunk, Run: func(t *core.T, i int64) {
				for k := i * chunk; k < (i+1)*chunk && k < int64(len(u)); k++ {
					t.State(1)
					d.unary(t, u[k])
				}
				if t.WantSample() {
					t.Sample("all conversions, bits and one-operand operations of %s", hexs(u[i*chunk]))
				}
			}})
			sv := d.values(small)
			sv = append(sv, limbsBig([]uint64{0x0123456789abcdef, 0xfedcba9876543210, 0x1111222233334444, 0x8000000000000001, 0x5555aaaa5555aaaa, 0xdeadbeefcafef00d}[:d.w/64]))
			out = append(out, core.Space{Name: "shift-" + d.name, N: int64(len(sv)), Run: func(t *core.T, i int64) {
				d.shifts(t, sv[i])
				if t.WantSample() {
					t.Sample("%s shifted both ways by every count 0..%d and huge counts", hexs(sv[i]), d.w+70)
				}
			}})
			pv := d.grid([]uint64{0, 1, m64})
			if d == wideR {
				pv = d.grid([]uint64{0, 1, 1 << 63, m64 - 1, m64})
			}
			if tier == "thorough" {
				pv = d.grid([]uint64{0, 1, 1 << 63, m64})
			}
			pv = dedup(append(pv, ref.Q, ref.R, sub(ref.Q, one), sub(ref.R, one)))
			pv = below(pv, pow2(d.w))
			var ys []interface{}
			for _, v := range pv {
				ys = append(ys, d.num(v))
			}
			out = append(out, core.Space{Name: "pairs-" + d.name, N: int64(len(pv)), Run: func(t *core.T, i int64) {
				for k := range pv {
					d.pair(t, pv[i], pv[k], ys[k])
				}
				t.State(int64(len(pv)))
				if t.WantSample() {
					t.Sample("%s compared with, added to and subtracted from %d values", hexs(pv[i]), len(pv))
				}
			}})
			starts := []*big.Int{one, sub(pow2(d.w), one), ref.R, add(pow2(d.w-1), one), limbsBig([]uint64{0x0123456789abcdef, 0xfedcba9876543210, 0x1111222233334444, 0x8000000000000001}), pow2(64), sub(pow2(64), one), sub(pow2(d.w), pow2(64))}
			depth := 4
			if tier == "thorough" {
				depth = 5
			}
			out = append(out, core.Space{Name: "sequences-" + d.name, N: int64(len(starts) * len(starts)), Run: func(t *core.T, i int64) {
				d.seq(t, starts[i/int64(len(starts))], starts[i%int64(len(starts))], depth)
				if t.WantSample() {
					t.Sample("all sequences of %d operations from %s", depth, hexs(starts[i/int64(len(starts))]))
				}
			}})
			out = append(out, core.Space{Name: "reject-" + d.name, N: 1, Run: func(t *core.T, i int64) { d.reject(t) }})
		}
		set := []uint64{0, 1, 1 << 63, 0xaaaaaaaaaaaaaaaa, m64}
		maxLen := 5
		if tier == "thorough" {
			maxLen = 7
		}
		for n := 0; n <= maxLen; n++ {
			n := n
			out = append(out, core.Space{Name: "bits-" + string(rune('0'+n)), N: ipow(int64(len(set)), n), Run: func(t *core.T, i int64) {
				l := make([]uint64, n)
				for k := range l {
					l[k] = set[i%int64(len(set))]
					i /= int64(len(set))
				}
				checkBits(t, l)
			}})
		}
		// one bit at each position
		out = append(out, core.Space{Name: "single-bits", N: 8 * 64, Run: func(t *core.T, i int64) {
			for n := int(i/64) + 1; n <= 8; n++ {
				l := make([]uint64, n)
				l[i/64] = 1 << uint(i%64)
				checkBits(t, l)
			}
		}})
		return out
	})
}
