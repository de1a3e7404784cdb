//go:build verifinternal
// +build verifinternal

package checks

import (
	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// seam13 tells whether the two unexported functions still are the second half
// of HashG1 and HashG2 (code may be moved across this seam without changing
// any observable behaviour; then only the exported functions are explored).
func seam13() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	for _, m := range []string{"", "a", "seam", "another message"} {
		t0, t1 := ref.Fields1([]byte(m))
		if !bls.VerifMap1(FQ(t0), FQ(t1)).Equals(bls.HashG1([]byte(m))) {
			return false
		}
		u0, u1 := ref.Fields2([]byte(m))
		if !bls.VerifMap2(FQ2(u0), FQ2(u1)).Equals(bls.HashG2([]byte(m))) {
			return false
		}
	}
	return true
}

func init() {
	// Equal or opposite arguments are left out: adding a point to itself on
	// the isogenous curve needs its own doubling, and no message is known
	// (or can be found) that leads there.
	internal13 = func(tier string) (sp []core.Space) {
		if !seam13() {
			return nil
		}
		in1, in2 := mapInputs1(tier), mapInputs2(tier)
		n1, n2 := int64(len(in1)), int64(len(in2))
		partners := int64(3)
		sp = append(sp, core.Space{Name: "map of two elements to G1", N: n1 * partners, Portable: 2, Run: func(t *core.T, i int64) {
			x, y := in1[i/partners], genZ(401)
			switch i % partners {
			case 1:
				y = bi(0)
			case 2:
				x, y = bi(1), x
			}
			a, b := ref.SWU1(x), ref.SWU1(y)
			if a.X.Cmp(b.X) == 0 {
				return
			}
			s := ref.AddIso1(a, b)
			g1g.isA(t, bls.VerifMap1(FQ(x), FQ(y)), pt{g: 1, p1: ref.Iso1(s).MulK(ref.HEff1)}, func() string { return "map to G1 of " + hexs(x) + ", " + hexs(y) })
		}})
		sp = append(sp, core.Space{Name: "map of two elements to G2", N: n2 * partners, Portable: 2, Run: func(t *core.T, i int64) {
			x, y := in2[i/partners], ref.F2{A: genZ(401), B: genZ(402)}
			switch i % partners {
			case 1:
				y = ref.Int2(0, 0)
			case 2:
				x, y = ref.Int2(1, 0), x
			}
			a, b := ref.SWU2(x), ref.SWU2(y)
			if a.X.Eq(b.X) {
				return
			}
			s := ref.AddIso2(a, b)
			g2g.isA(t, bls.VerifMap2(FQ2(x), FQ2(y)), pt{g: 2, p2: ref.Iso2(s).MulK(ref.HEff2)}, func() string { return "map to G2 of " + s2(x) + ", " + s2(y) })
		}})
		return
	}
}
