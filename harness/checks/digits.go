package checks

import (
	"fmt"
	"math/big"
	"sync"

	"verifharness/core"
	"verifharness/ref"
)

// digitSpace multiplies by every scalar of few digits: all pairs of bits, all
// runs of ones, every digit below 64 at every position and the complements of
// these, so that every digit of every window, wNAF or comb of up to six bits
// occurs at every place, with every carry of a recoding.
func digitSpace(g *grp, tier string) core.Space {
	width := 256
	if tier == "thorough" {
		width = 384
	}
	base := g.gen.neg().add(g.ofOrder(map[int]int64{1: 11, 2: 13}[g.id], 1))
	var once sync.Once
	var dbl []pt // 2^i times the base
	var odd []pt // d times the base
	ready := func() {
		once.Do(func() {
			p := base
			for i := 0; i <= width+6; i++ {
				dbl = append(dbl, p)
				p = p.add(p)
			}
			q := g.inf
			for d := 0; d < 64; d++ {
				odd = append(odd, q)
				q = q.add(base)
			}
		})
	}
	entry := func(t *core.T, n int, k *big.Int, want pt, what string, all bool) {
		narrow := k.Cmp(w256) < 0
		for e := 0; e < 5; e++ {
			if !all && e != n%5 {
				continue
			}
			f := e
			if (f == 2 || f == 3) && !narrow {
				f -= 2
			}
			if f == 4 && g.id == 1 {
				f = n / 5 % 2
				if narrow {
					f = n / 5 % 4
				}
			}
			name := ""
			var got interface{}
			switch f {
			case 0:
				name, got = "affine 384-bit", g.mulA(g.a(base), Q6(k))
			case 1:
				name, got = "projective 384-bit", g.mulJ(g.j(base, n%g.zs), Q6(k))
			case 2:
				name, got = "affine 256-bit", g.frA(g.a(base), R4(k))
			case 3:
				name, got = "projective 256-bit", g.frJ(g.j(base, n%g.zs), R4(k))
			case 4:
				name, got = "arbitrary precision", A2(base.p2).MulBig(*new(big.Int).Set(k))
			}
			g.isJ(t, got, want, func() string { return fmt.Sprintf("%s: %s (%s) * %v", name, hexs(k), what, base) })
		}
	}
	all := tier == "thorough"
	ones := func(n int) *big.Int { return sub(pow2(uint(n)), one) }
	return core.Space{Name: fmt.Sprintf("g%d-scalars of few digits", g.id), N: int64(width), Portable: 16, Run: func(t *core.T, i64 int64) {
		ready()
		i := int(i64)
		t.State(1)
		// top is 2^width-1 times the base
		top := dbl[width].add(base.neg())
		for j := i + 1; j <= width; j++ {
			if j < width {
				entry(t, i+j, add(pow2(uint(i)), pow2(uint(j))), dbl[i].add(dbl[j]), "two bits", all)
			}
			entry(t, i+j+1, sub(pow2(uint(j)), pow2(uint(i))), dbl[j].add(dbl[i].neg()), "a run of ones", all)
		}
		// digits d*2^i, in steps of one bit
		for d := 1; d < 64; d += 2 {
			k := mul(bi(int64(d)), pow2(uint(i)))
			if k.Cmp(ones(width)) > 0 {
				break
			}
			p := g.inf
			for b := 0; b < 6; b++ {
				if d>>uint(b)&1 == 1 {
					p = p.add(dbl[i+b])
				}
			}
			if i == 0 && !p.eq(odd[d]) {
				panic("model: digits")
			}
			entry(t, i+d/2, k, p, "one digit", all)
			entry(t, i+d/2+2, sub(ones(width), k), top.add(p.neg()), "ones with one digit changed", all)
		}
		if t.WantSample() {
			t.Sample("all scalars with bit %d and one more bit, runs of ones from it, and digits below 64 at it", i)
		}
	}}
}

// powers is a domain in which exponents of few digits are tried.
type powers struct {
	name  string
	width int
	near  int // pairs of bits and runs: all up to this distance, every 7th or 37th beyond
	port  int64
	base  interface{}
	mul   func(a, b interface{}) interface{}
	inv   func(a interface{}) interface{}
	check func(t *core.T, k *big.Int, want interface{}, what string)
}

// space raises the base to every exponent of few digits (see digitSpace).
func (x powers) space() core.Space {
	var once sync.Once
	var sq []interface{}
	ready := func() {
		p := x.base
		for i := 0; i <= x.width+6; i++ {
			sq = append(sq, p)
			p = x.mul(p, p)
		}
	}
	skip := 7
	if x.near < 16 {
		skip = 37
	}
	return core.Space{Name: x.name, N: int64(x.width), Portable: x.port, Run: func(t *core.T, i64 int64) {
		once.Do(ready)
		i := int(i64)
		t.State(1)
		inv := x.inv(sq[i])
		top := x.mul(sq[x.width], x.inv(x.base))
		for j := i + 1; j <= x.width; j++ {
			if j-i > x.near && (i+j)%skip != 0 {
				continue
			}
			if j < x.width {
				x.check(t, add(pow2(uint(i)), pow2(uint(j))), x.mul(sq[i], sq[j]), "two bits")
			}
			x.check(t, sub(pow2(uint(j)), pow2(uint(i))), x.mul(sq[j], inv), "a run of ones")
		}
		for d := 1; d < 64; d += 2 {
			k := mul(bi(int64(d)), pow2(uint(i)))
			if k.BitLen() > x.width {
				break
			}
			var p interface{}
			for b := 0; b < 6; b++ {
				if d>>uint(b)&1 == 1 {
					if p == nil {
						p = sq[i+b]
					} else {
						p = x.mul(p, sq[i+b])
					}
				}
			}
			x.check(t, k, p, "one digit")
			if x.near > 16 || d < 8 {
				x.check(t, sub(sub(pow2(uint(x.width)), one), k), x.mul(top, x.inv(p)), "ones with one digit changed")
			}
		}
		if t.WantSample() {
			t.Sample("all exponents with bit %d and one more bit, runs of ones from it, and digits below 64 at it", i)
		}
	}}
}

func powersFQ() core.Space {
	return powers{"exponents of few digits", 384, 384, 4, genZ(3),
		func(a, b interface{}) interface{} { return ref.Mul(a.(*big.Int), b.(*big.Int)) },
		func(a interface{}) interface{} { return ref.Inv(a.(*big.Int)) },
		func(t *core.T, k *big.Int, want interface{}, what string) {
			t.Eval(true)
			if g := ofFQ(FQ(genZ(3)).Exp(Q6(k))); g.Cmp(want.(*big.Int)) != 0 {
				t.Failf("%s to the power %s (%s) is %s", hexs(genZ(3)), hexs(k), what, hexs(g))
			}
			f := FQ(genZ(3))
			q := Q6(k)
			if g := ofFQ(f.MulBits(&q)); g.Cmp(ref.Mul(genZ(3), ref.Mod(k, bq))) != 0 {
				t.Failf("MulBits: %s times %s (%s) is %s", hexs(genZ(3)), hexs(k), what, hexs(g))
			}
		}}.space()
}

func powersFR() core.Space {
	b := new(big.Int).Mod(genZ(3), br)
	return powers{"exponents of few digits", 256, 256, 4, b,
		func(a, b interface{}) interface{} { return rmod(mul(a.(*big.Int), b.(*big.Int))) },
		func(a interface{}) interface{} { return new(big.Int).ModInverse(a.(*big.Int), br) },
		func(t *core.T, k *big.Int, want interface{}, what string) {
			t.Eval(true)
			if g := ofFR(FR(b).Exp(R4(k))); g.Cmp(want.(*big.Int)) != 0 {
				t.Failf("%s to the power %s (%s) is %s", hexs(b), hexs(k), what, hexs(g))
			}
			if g := ofFR(FR(b).MulBits(R4(k))); g.Cmp(rmod(mul(b, k))) != 0 {
				t.Failf("MulBits: %s times %s (%s) is %s", hexs(b), hexs(k), what, hexs(g))
			}
		}}.space()
}

func powersFQ2() core.Space {
	b := ref.MakeF2(genZ(4), genZ(5))
	return powers{"exponents of few digits", 384, 60, 8, b,
		func(a, b interface{}) interface{} { return a.(ref.F2).Mul(b.(ref.F2)) },
		func(a interface{}) interface{} { x, _ := a.(ref.F2).Inv(); return x },
		func(t *core.T, k *big.Int, want interface{}, what string) {
			x := FQ2(b)
			is2(t, fmt.Sprintf("%s to the power %s (%s)", s2(b), hexs(k), what), x.Exp(Q6(k)), want.(ref.F2))
		}}.space()
}

func powersFQ6(near int) core.Space {
	b := ref.F6{ref.MakeF2(genZ(4), genZ(5)), ref.MakeF2(genZ(6), genZ(7)), ref.MakeF2(genZ(8), genZ(9))}
	l := FQ6(b)
	return powers{"exponents of few digits, Fq6", 384, near, 32, ref.F12{b, ref.Zero6()},
		func(a, b interface{}) interface{} { return a.(ref.F12).Mul(b.(ref.F12)) },
		func(a interface{}) interface{} { x, _ := a.(ref.F12).Inv(); return x },
		func(t *core.T, k *big.Int, want interface{}, what string) {
			n := Q6(k)
			is6(t, fmt.Sprintf("%s to the power %s (%s)", s6(b), hexs(k), what), l.Exp(&n), want.(ref.F12)[0])
		}}.space()
}

func powersFQ12(near int) core.Space {
	c := ref.F6{ref.MakeF2(genZ(4), genZ(5)), ref.MakeF2(genZ(6), genZ(7)), ref.MakeF2(genZ(8), genZ(9))}
	b := ref.F12{c, ref.F6{c[1], c[2], c[0].Sqr()}}
	l := FQ12(b)
	return powers{"exponents of few digits, Fq12", 384, near, 48, b,
		func(a, b interface{}) interface{} { return a.(ref.F12).Mul(b.(ref.F12)) },
		func(a interface{}) interface{} { x, _ := a.(ref.F12).Inv(); return x },
		func(t *core.T, k *big.Int, want interface{}, what string) {
			is12(t, fmt.Sprintf("a generic element to the power %s (%s)", hexs(k), what), l.Exp(Q6(k)), want.(ref.F12))
		}}.space()
}
