package checks

import (
	"math/big"
	"math/bits"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// refMul is the schoolbook product by columns with a three-word accumulator.
func refMul(a, b [6]uint64) (r [12]uint64) {
	var c0, c1, c2 uint64
	for k := 0; k < 11; k++ {
		for i := 0; i < 6; i++ {
			j := k - i
			if j < 0 || j > 5 {
				continue
			}
			h, l := bits.Mul64(a[i], b[j])
			var c uint64
			c0, c = bits.Add64(c0, l, 0)
			c1, c = bits.Add64(c1, h, c)
			c2 += c
		}
		r[k] = c0
		c0, c1, c2 = c1, c2, 0
	}
	r[11] = c0
	return
}

func split12(r [12]uint64) (hi, lo [6]uint64) {
	copy(lo[:], r[:6])
	copy(hi[:], r[6:])
	return
}

var (
	qLimbs  [6]uint64
	qNegInv uint64
	q2Limbs [6]uint64
)

func init() {
	bigLimbs(bq, qLimbs[:])
	bigLimbs(mul(bq, bi(2)), q2Limbs[:])
	qNegInv = sub(w64, new(big.Int).ModInverse(bq, w64)).Uint64()
}

func less6(a, b [6]uint64) bool {
	for i := 5; i >= 0; i-- {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func sub6(a, b [6]uint64) (r [6]uint64) {
	var c uint64
	for i := range r {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	return
}

func add6(a, b [6]uint64) (r [6]uint64) {
	var c uint64
	for i := range r {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	return
}

// refReduce computes m from the low limbs first, then (T + m q) / 2^384 as one
// multi-precision addition: a different order of operations from the code.
func refReduce(hi, lo [6]uint64) [6]uint64 {
	var m [6]uint64
	// m = lo * (-q^-1) mod 2^384, limb by limb: choose m[i] to clear limb i
	acc := lo
	for i := 0; i < 6; i++ {
		m[i] = acc[i] * qNegInv
		var carry uint64
		for j := i; j < 6; j++ {
			h, l := bits.Mul64(m[i], qLimbs[j-i])
			var c uint64
			l, c = bits.Add64(l, carry, 0)
			h += c
			acc[j], c = bits.Add64(acc[j], l, 0)
			carry = h + c
		}
	}
	mq := refMul(m, qLimbs)
	var c uint64
	var out [6]uint64
	for i := 0; i < 6; i++ {
		_, c = bits.Add64(mq[i], lo[i], c)
	}
	for i := 0; i < 6; i++ {
		out[i], c = bits.Add64(mq[i+6], hi[i], c)
	}
	return out
}

func canon(a [6]uint64) [6]uint64 {
	if !less6(a, qLimbs) {
		return sub6(a, qLimbs)
	}
	return a
}

func checkReduce(t *core.T, hi, lo [6]uint64) {
	t.Eval(true)
	got := bls.MontReduce(hi, lo)
	if !less6(got, q2Limbs) {
		t.Failf("MontReduce(%x, %x) = %x is not below 2q", hi, lo, got)
	}
	if canon(got) != canon(refReduce(hi, lo)) {
		t.Failf("MontReduce(%x, %x) = %x is not congruent to the input / 2^384", hi, lo, got)
	}
}

// carryDFS drives the reduction through every combination of its carries: at
// each round the high limb is chosen relative to the incoming carries so that
// the round's addition stays below, hits or passes a multiple of 2^64.
func carryDFS(lo [6]uint64, choices int, f func(hi [6]uint64)) {
	type st struct {
		hi [6]uint64
		r  [12]uint64
		c2 uint64
	}
	var rec func(round int, s st)
	rec = func(round int, s st) {
		if round == 6 {
			if less6(s.hi, qLimbs) {
				f(s.hi)
			}
			return
		}
		k := s.r[round] * qNegInv
		var carry uint64
		for j := 0; j < 6; j++ {
			h, l := bits.Mul64(k, qLimbs[j])
			var c uint64
			l, c = bits.Add64(l, carry, 0)
			h += c
			s.r[round+j], c = bits.Add64(s.r[round+j], l, 0)
			carry = h + c
		}
		cands := []uint64{-carry - s.c2, -carry - s.c2 - 1, 0, m64, -carry - s.c2 - 2, -carry - s.c2 + 1, 1 << 63, 1}
		if round == 5 {
			cands = []uint64{0, qLimbs[5], qLimbs[5] - 1, 1, 1 << 60, -carry - s.c2, -carry - s.c2 - 1, 2}
		}
		seen := map[uint64]bool{}
		for _, h := range cands[:choices] {
			if seen[h] || (round == 5 && h > qLimbs[5]) {
				continue
			}
			seen[h] = true
			n := s
			n.hi[round] = h
			v, ca := bits.Add64(h, carry, 0)
			v, cb := bits.Add64(v, s.c2, 0)
			n.r[round+6] = v
			n.c2 = ca + cb
			rec(round+1, n)
		}
	}
	s := st{}
	copy(s.r[:6], lo[:])
	rec(0, s)
}

// loDFS chooses the low limbs relative to the first round's multiply-accumulate
// chain so that each of its additions stays below, hits or passes 2^64.
func loDFS(lo0 uint64, choices int, f func(lo [6]uint64)) {
	k := lo0 * qNegInv
	var rec func(j int, lo [6]uint64, carry uint64)
	rec = func(j int, lo [6]uint64, carry uint64) {
		if j == 6 {
			f(lo)
			return
		}
		h, l := bits.Mul64(k, qLimbs[j])
		s, c := bits.Add64(l, carry, 0)
		cands := []uint64{-s, -s - 1, 0, m64, -l, -l - 1}
		if j == 0 {
			cands = []uint64{lo0}
		} else {
			cands = cands[:choices]
		}
		seen := map[uint64]bool{}
		for _, v := range cands {
			if seen[v] {
				continue
			}
			seen[v] = true
			_, c2 := bits.Add64(s, v, 0)
			n := lo
			n[j] = v
			rec(j+1, n, h+c+c2)
		}
	}
	rec(0, [6]uint64{}, 0)
}

func gridAt(set []uint64, i int64) (l [6]uint64) {
	n := int64(len(set))
	for k := range l {
		l[k] = set[i%n]
		i /= n
	}
	return
}

func ipow(b int64, e int) int64 {
	r := int64(1)
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

func init() {
	core.Register("C03", func(tier string) []core.Space {
		thorough := tier == "thorough"
		mulSet := []uint64{0, 1, 1 << 63, m64}
		loChoices, hiChoices := 4, 2
		hiDeep := 6
		lo0s := []uint64{0, 1, 2, m64, m64 - 1, 1 << 63, 1 << 32, qLimbs[0], -qLimbs[0], 0xaaaaaaaaaaaaaaaa}
		if thorough {
			mulSet = []uint64{0, 1, 1 << 32, 1 << 63, m64 - 1, m64}
			loChoices, hiChoices, hiDeep = 6, 4, 8
			for k := uint(3); k < 64; k += 10 {
				lo0s = append(lo0s, 1<<k, m64<<k)
			}
		}
		for i := 0; i < 6; i++ {
			lo0s = append(lo0s, -(qLimbs[0] * uint64(i+3)))
		}
		var los [][6]uint64
		for _, l := range lo0s {
			loDFS(l, loChoices, func(lo [6]uint64) { los = append(los, lo) })
		}
		gn := ipow(int64(len(mulSet)), 6)
		// low halves for the deep high-limb enumeration
		var deep [][6]uint64
		for i := int64(0); i < 64; i++ {
			deep = append(deep, gridAt([]uint64{0, m64}, i))
		}
		for i := 0; i < len(los); i += len(los)/64 + 1 {
			deep = append(deep, los[i])
		}
		one64 := []uint64{0, 1, 2, 3, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, m64 - 2, m64 - 1, m64, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}
		for k := uint(2); k < 63; k++ {
			if thorough || k%8 == 0 {
				one64 = append(one64, 1<<k, 1<<k-1)
			}
		}
		addSet := []uint64{0, 1, 1 << 63, m64 - 1, m64}
		an := ipow(int64(len(addSet)), 6)
		return []core.Space{
			{Name: "multiply/limb-grid-pairs", N: gn, Portable: 4, Run: func(t *core.T, i int64) {
				a := gridAt(mulSet, i)
				if t.WantSample() {
					t.Sample("MultiplyFQRepr(%x, every vector over %x)", a, mulSet)
				}
				for j := int64(0); j < gn; j++ {
					b := gridAt(mulSet, j)
					hi, lo := bls.MultiplyFQRepr(a, b)
					h2, l2 := split12(refMul(a, b))
					t.Eval(i > 0 && j > 0)
					if hi != h2 || lo != l2 {
						t.Failf("MultiplyFQRepr(%x, %x) = %x %x, not %x %x", a, b, hi, lo, h2, l2)
					}
				}
			}},
			{Name: "reduce/carry-automaton-low", N: int64(len(los)), Portable: 4, Run: func(t *core.T, i int64) {
				if t.WantSample() {
					t.Sample("MontReduce(hi, %x) for every hi that drives the six round carries through both outcomes", los[i])
				}
				carryDFS(los[i], hiChoices, func(hi [6]uint64) { checkReduce(t, hi, los[i]) })
			}},
			{Name: "reduce/carry-automaton-high", N: int64(len(deep)), Portable: 4, Run: func(t *core.T, i int64) {
				carryDFS(deep[i], hiDeep, func(hi [6]uint64) { checkReduce(t, hi, deep[i]) })
			}},
			{Name: "reduce/limb-grid", N: ipow(3, 6), Portable: 4, Run: func(t *core.T, i int64) {
				lo := gridAt([]uint64{0, 1, m64}, i)
				for j := int64(0); j < 1024; j++ {
					hi := gridAt([]uint64{0, 1, 1 << 63, m64}, j)
					for _, top := range []uint64{0, 1, 1 << 60, qLimbs[5] - 1, qLimbs[5]} {
						hi[5] = top
						if less6(hi, qLimbs) {
							checkReduce(t, hi, lo)
						}
					}
				}
			}},
			{Name: "add-sub/limb-grid-pairs", N: an / 25, Portable: 4, Run: func(t *core.T, i int64) {
				for r := int64(0); r < 25; r++ {
					a := gridAt(addSet, i*25+r)
					for j := int64(0); j < an; j++ {
						if !thorough && (j/5+i)%5 != 0 {
							continue // quick: one fifth of the second operand's grid, in a Latin-square pattern
						}
						b := gridAt(addSet, j)
						t.Eval(true)
						if got := bls.AddNoCarry(a, b); got != add6(a, b) {
							t.Failf("AddNoCarry(%x, %x) = %x", a, b, got)
						}
						if got := bls.SubNoBorrow(a, b); got != sub6(a, b) {
							t.Failf("SubNoBorrow(%x, %x) = %x", a, b, got)
						}
					}
				}
			}},
			{Name: "single-limb", N: int64(len(one64)), Run: func(t *core.T, i int64) {
				a := one64[i]
				ba := new(big.Int).SetUint64(a)
				for _, b := range one64 {
					bb := new(big.Int).SetUint64(b)
					for _, c := range []uint64{0, 1} {
						t.Eval(true)
						d, bo := bls.SubWithBorrow(a, b, c)
						want := sub(sub(ba, bb), new(big.Int).SetUint64(c))
						wb := uint64(0)
						if want.Sign() < 0 {
							wb = 1
							want.Add(want, w64)
						}
						if d != want.Uint64() || bo != wb {
							t.Failf("SubWithBorrow(%x, %x, %x) = %x, %x", a, b, c, d, bo)
						}
					}
					for _, c := range one64 {
						bc := new(big.Int).SetUint64(c)
						t.Eval(true)
						s, ca := bls.AddWithCarry(a, b, c)
						if add(add(ba, bb), bc).Cmp(limbsBig([]uint64{s, ca})) != 0 {
							t.Failf("AddWithCarry(%x, %x, %x) = %x, %x", a, b, c, s, ca)
						}
						bcb := mul(bb, bc)
						for _, d := range one64 {
							t.Eval(true)
							s, ca := bls.MACWithCarry(a, b, c, d)
							if add(add(ba, bcb), new(big.Int).SetUint64(d)).Cmp(limbsBig([]uint64{s, ca})) != 0 {
								t.Failf("MACWithCarry(%x, %x, %x, %x) = %x, %x", a, b, c, d, s, ca)
							}
						}
					}
				}
			}},
			{Name: "oracle-self-check", N: 64, Run: func(t *core.T, i int64) {
				// the fast limb oracle against arbitrary-precision arithmetic
				for j := int64(0); j < 729; j++ {
					a, b := gridAt([]uint64{0, m64}, i), gridAt([]uint64{0, 1, m64}, j)
					r := refMul(a, b)
					if limbsBig(r[:]).Cmp(mul(limbsBig(a[:]), limbsBig(b[:]))) != 0 {
						panic("oracle: product")
					}
					hi := b
					if !less6(hi, qLimbs) {
						hi[5] = 0
					}
					x := refReduce(hi, a)
					v := add(new(big.Int).Lsh(limbsBig(hi[:]), 384), limbsBig(a[:]))
					if ref.Mod(mul(limbsBig(x[:]), w384), bq).Cmp(ref.Mod(v, bq)) != 0 || !less6(x, q2Limbs) {
						panic("oracle: reduction")
					}
					t.Eval(true)
				}
			}},
		}
	})
}
