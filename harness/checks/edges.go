package checks

import (
	"math/big"

	"verifharness/ref"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// edgePool has the same types as newPool and unusual values: zeros, integers
// at or above the moduli, the largest ones, points outside the subgroup and in
// odd representations, invalid encodings, empty and long lists and messages.
func edgePool() *pool {
	p := newEmptyPool()
	rw := func(n string, v interface{}) { p.put(n, v, false) }
	max6, max4 := sub(pow2(384), one), sub(pow2(256), one)
	rk, qk := new(big.Int).Mod(genZ(71), br), genZ(72)

	for _, v := range []struct {
		n string
		v *big.Int
	}{{"e.repr0", bi(0)}, {"e.reprq+5", add(bq, bi(5))}, {"e.reprmax", max6}, {"e.reprr", br}} {
		r := Q6(v.v)
		rw(v.n, &r)
	}
	rw("e.frrepr0", R4(bi(0)))
	rw("e.frreprr", R4(br))
	rw("e.frreprr+9", R4(add(br, bi(9))))
	rw("e.frreprmax", R4(max4))
	f0, f1, f2 := FQ(bi(0)), FQ(bi(1)), FQ(sub(bq, one))
	rw("e.fq0", &f0)
	rw("e.fq1", &f1)
	rw("e.fq-1", &f2)
	rw("e.fr0", FR(bi(0)))
	rw("e.fr1", FR(bi(1)))
	rw("e.fr-1", FR(sub(br, one)))
	for _, v := range []struct {
		n string
		v ref.F2
	}{{"e.fqtwo0", ref.Int2(0, 0)}, {"e.fqtwor", ref.F2{A: qk, B: bi(0)}}, {"e.fqtwoi", ref.F2{A: bi(0), B: qk}}, {"e.fqtwo1", ref.Int2(1, 0)}} {
		x := FQ2(v.v)
		rw(v.n, &x)
	}
	z2, c2 := ref.Int2(0, 0), ref.MakeF2(genCoef(1), genCoef(2))
	rw("e.fqsix0", FQ6(ref.Zero6()))
	rw("e.fqsixc0", FQ6(ref.F6{c2, z2, z2}))
	rw("e.fqsixc2", FQ6(ref.F6{z2, z2, c2}))
	rw("e.fqtwelve0", FQ12(ref.F12{ref.Zero6(), ref.Zero6()}))
	rw("e.fqtwelve1", FQ12(ref.One12()))
	rw("e.fqtwelvec1", FQ12(ref.F12{ref.Zero6(), ref.F6{c2, z2, c2}}))

	off1, off2 := g1g.mixed(3), g2g.mixed(3)
	o1, o2 := off1[len(off1)-1], off2[len(off2)-1]
	rw("e.g1a", g1g.a(o1))
	rw("e.g1ainf", g1g.a(g1g.inf))
	rw("e.g1j", g1g.j(o1, 3))
	rw("e.g1jinf", g1g.j(g1g.inf, 3))
	rw("e.g1jone", g1g.j(g1g.gen, 0))
	rw("e.g2a", g2g.a(o2))
	rw("e.g2ainf", g2g.a(g2g.inf))
	rw("e.g2j", g2g.j(o2, 3))
	rw("e.g2jinf", g2g.j(g2g.inf, 3))
	rw("e.g2jone", g2g.j(g2g.gen, 0))
	pr, pi := bls.G2AffineToPrepared(A2(ref.G2)), bls.G2AffineToPrepared(g2g.a(g2g.inf).(*bls.G2Affine))
	rw("e.prepinf", pi)
	items := []bls.MillerLoopItem{{P: A1(ref.G1), Q: pr}, {P: g1g.a(g1g.inf).(*bls.G1Affine), Q: pr}, {P: A1(ref.G1), Q: pi}, {P: A1(ref.G1), Q: pr}}
	none := []bls.MillerLoopItem{}
	rw("e.items", &items)
	rw("e.noitems", &none)

	long := pattern(2, 100)
	k0, km := g1pubs.KeyFromFQRepr(R4(bi(0))), g1pubs.KeyFromFQRepr(R4(sub(br, one)))
	rw("e.sk0", k0)
	rw("e.sk-1", km)
	pinf, pm := g1pubs.NewPublicKeyFromG1(g1g.a(g1g.inf).(*bls.G1Affine)), g1pubs.NewPublicKeyFromG1(A1(g1g.gen.neg().p1))
	rw("e.pkinf", pinf)
	rw("e.pk-1", pm)
	sinf, sm := g1pubs.NewSignatureFromG2(g2g.a(g2g.inf).(*bls.G2Affine)), g1pubs.NewSignatureFromG2(A2(s1.h(long).neg().p2))
	rw("e.siginf", sinf)
	rw("e.sig-1", sm)
	lp, ls := []*g1pubs.PublicKey{pinf, pm, pm}, []*g1pubs.Signature{sinf, sm, sm}
	rw("e.pks", &lp)
	rw("e.sigs", &ls)
	np, ns := []*g1pubs.PublicKey{}, []*g1pubs.Signature{}
	rw("e.nopks", &np)
	rw("e.nosigs", &ns)
	q0, qm := g2pubs.KeyFromFQRepr(R4(bi(0))), g2pubs.KeyFromFQRepr(R4(sub(br, one)))
	rw("e.2sk0", q0)
	rw("e.2sk-1", qm)
	pinf2, pm2 := g2pubs.NewPublicKeyFromG2(g2g.a(g2g.inf).(*bls.G2Affine)), g2pubs.NewPublicKeyFromG2(A2(g2g.gen.neg().p2))
	rw("e.2pkinf", pinf2)
	rw("e.2pk-1", pm2)
	sinf2, sm2 := g2pubs.NewSignatureFromG1(g1g.a(g1g.inf).(*bls.G1Affine)), g2pubs.NewSignatureFromG1(A1(s2s.h(long).neg().p1))
	rw("e.2siginf", sinf2)
	rw("e.2sig-1", sm2)
	lp2, ls2 := []*g2pubs.PublicKey{pinf2, pm2, pm2}, []*g2pubs.Signature{sinf2, sm2, sm2}
	rw("e.2pks", &lp2)
	rw("e.2sigs", &ls2)
	np2, ns2 := []*g2pubs.PublicKey{}, []*g2pubs.Signature{}
	rw("e.2nopks", &np2)
	rw("e.2nosigs", &ns2)

	m0 := []byte{}
	long2 := pattern(1, 120)
	rw("e.msglong", &long)
	rw("e.msglong2", &long2)
	rw("e.msg0", &m0)
	ms := [][]byte{append([]byte{}, long...), append([]byte{}, long...), {1}}
	rw("e.msgs", &ms)
	nm := [][]byte{}
	rw("e.nomsgs", &nm)
	d, dmax := [32]byte{1, 2, 3}, be32(max4)
	ds := [][32]byte{d, dmax, d}
	rw("e.digests", &ds)
	rw("e.b8", &[8]byte{255, 255, 255, 255, 255, 255, 255, 255})
	rw("e.b32max", &dmax)
	b32r := be32(br)
	rw("e.b32r", &b32r)
	var b48, c48 [48]byte
	copy(b48[:], o1.enc())
	c48[0] = 0xe0
	rw("e.b48off", &b48)
	rw("e.b48bad", &c48)
	var b96, z96 [96]byte
	copy(b96[:], o2.enc())
	rw("e.b96off", &b96)
	rw("e.b96zero", &z96)
	var inf192 [192]byte
	inf192[191] = 1
	rw("e.b192", &inf192)
	bl := false
	rw("e.false", &bl)
	u, u8, u64 := uint(200), uint8(255), ^uint64(0)
	rw("e.uint", &u)
	rw("e.uint8", &u8)
	rw("e.uint64", &u64)
	for _, v := range []struct {
		n string
		v *big.Int
	}{{"e.big0", bi(0)}, {"e.bigq+5", add(bq, bi(5))}, {"e.bigr+7", add(br, bi(7))}, {"e.bigwide", add(pow2(400), rk)}} {
		rw(v.n, new(big.Int).Set(v.v))
	}
	l6, m6 := [6]uint64(Q6(max6)), [6]uint64{}
	rw("e.limbsmax", &l6)
	rw("e.limbs0", &m6)
	ls6 := []uint64{}
	rw("e.limbslice", &ls6)
	str := "0"
	rw("e.string", &str)
	return p
}
