package checks

import (
	"fmt"
	"reflect"

	"verifharness/core"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// pureLists calls the operations that take lists on lists of many lengths and
// looks at every place of the lists, and at the room behind them, before and
// after: the same members, in the same order, with the same values.
func pureLists(tier string) core.Space {
	type kase struct {
		what string
		n    int
		run  func(t *core.T, n int)
	}
	const room = 3
	// a list of n members made by f, with room behind it that is filled
	mk := func(n int, f interface{}) reflect.Value {
		v := reflect.ValueOf(f)
		l := reflect.MakeSlice(reflect.SliceOf(v.Type().Out(0)), n+room, n+room)
		for i := 0; i < n+room; i++ {
			l.Index(i).Set(v.Call([]reflect.Value{reflect.ValueOf(i)})[0])
		}
		return l
	}
	// do calls f twice on the first n members of each list
	do := func(t *core.T, what string, n int, f interface{}, recv interface{}, extra []interface{}, lists ...reflect.Value) {
		var in []reflect.Value
		if recv != nil {
			in = append(in, reflect.ValueOf(recv))
		}
		snap := func() (out []string) {
			for _, l := range lists {
				for i := 0; i < l.Len(); i++ {
					s := show(l.Index(i))
					switch e := l.Index(i); e.Kind() {
					case reflect.Ptr:
						s += fmt.Sprintf(" at %p", e.Interface())
					case reflect.Slice:
						s += fmt.Sprintf(" of %d, %d at %p", e.Len(), e.Cap(), e.Interface())
					}
					out = append(out, s)
				}
			}
			if recv != nil {
				out = append(out, show(reflect.ValueOf(recv)))
			}
			return
		}
		for _, l := range lists {
			in = append(in, l.Slice(0, n))
		}
		for _, x := range extra {
			in = append(in, reflect.ValueOf(x))
		}
		before := snap()
		var res []string
		for k := 0; k < 2; k++ {
			r := show(reflect.ValueOf(f).Call(in)[0])
			res = append(res, r)
			t.Eval(true)
			t.Trans(1)
			after := snap()
			for i := range before {
				if before[i] == after[i] {
					continue
				}
				where := "the receiver"
				if j := i; j < len(lists)*(n+room) {
					where = fmt.Sprintf("place %d of list %d", j%(n+room), j/(n+room))
					if j%(n+room) >= n {
						where += ", behind its end,"
					}
				}
				t.Failf("%s on %d members changed %s from %s to %s", what, n, where, clip(before[i]), clip(after[i]))
			}
		}
		if res[0] != res[1] {
			t.Failf("%s on the same %d members gives %s and then %s", what, n, clip(res[0]), clip(res[1]))
		}
		t.State(2)
	}
	k := func(i int) int64 { return int64(2 + i*5%37) }
	p1 := func(i int) *bls.G1Affine {
		switch {
		case i%7 == 4:
			return A1(smallMul(g1g, k(i)).neg().p1)
		case i%11 == 10:
			return A1(g1g.inf.p1)
		}
		return A1(smallMul(g1g, k(i)).p1)
	}
	p2 := func(i int) *bls.G2Affine {
		switch {
		case i%7 == 4:
			return A2(smallMul(g2g, k(i)).neg().p2)
		case i%11 == 10:
			return A2(g2g.inf.p2)
		}
		return A2(smallMul(g2g, k(i)).p2)
	}
	// messages: in no order, and of different lengths
	msg := func(i int) []byte { return append([]byte{byte(i * 89), byte(i >> 4)}, pattern(2, i%5)...) }
	dig := func(i int) (d [32]byte) { d[0], d[31] = byte(i*89), byte(i>>4); return }
	var cases []kase
	add := func(what string, lens []int, run func(t *core.T, n int)) {
		for _, n := range lens {
			cases = append(cases, kase{what, n, run})
		}
	}
	cheap := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129}
	dear := []int{0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33}
	if tier == "thorough" {
		cheap = nil
		for i := 0; i < 300; i++ {
			cheap = append(cheap, i)
		}
		dear = nil
		for i := 0; i < 70; i++ {
			dear = append(dear, i)
		}
	}
	if core.Portable() && tier != "thorough" {
		cheap, dear = []int{0, 1, 2, 3, 5, 8, 17, 33}, []int{0, 1, 2, 4, 9}
	}
	g1pk := func(i int) *g1pubs.PublicKey { return g1pubs.NewPublicKeyFromG1(p1(i)) }
	g1sg := func(i int) *g1pubs.Signature { return g1pubs.NewSignatureFromG2(p2(i)) }
	g2pk := func(i int) *g2pubs.PublicKey { return g2pubs.NewPublicKeyFromG2(p2(i)) }
	g2sg := func(i int) *g2pubs.Signature { return g2pubs.NewSignatureFromG1(p1(i)) }
	add("g1pubs.AggregatePublicKeys", cheap, func(t *core.T, n int) {
		do(t, "g1pubs.AggregatePublicKeys", n, g1pubs.AggregatePublicKeys, nil, nil, mk(n, g1pk))
	})
	add("g2pubs.AggregatePublicKeys", cheap, func(t *core.T, n int) {
		do(t, "g2pubs.AggregatePublicKeys", n, g2pubs.AggregatePublicKeys, nil, nil, mk(n, g2pk))
	})
	add("g1pubs.AggregateSignatures", cheap, func(t *core.T, n int) {
		do(t, "g1pubs.AggregateSignatures", n, g1pubs.AggregateSignatures, nil, nil, mk(n, g1sg))
	})
	add("g2pubs.AggregateSignatures", cheap, func(t *core.T, n int) {
		do(t, "g2pubs.AggregateSignatures", n, g2pubs.AggregateSignatures, nil, nil, mk(n, g2sg))
	})
	add("g1pubs VerifyAggregateCommon", cheap, func(t *core.T, n int) {
		s := g1sg(0)
		do(t, "g1pubs VerifyAggregateCommon", n, func(s *g1pubs.Signature, l []*g1pubs.PublicKey, m []byte) bool { return s.VerifyAggregateCommon(l, m) }, s, []interface{}{msg(1)}, mk(n, g1pk))
		do(t, "g1pubs VerifyAggregateCommonWithDomain", n, func(s *g1pubs.Signature, l []*g1pubs.PublicKey, m [32]byte, d [8]byte) bool {
			return s.VerifyAggregateCommonWithDomain(l, m, d)
		}, s, []interface{}{dig(1), [8]byte{3}}, mk(n, g1pk))
	})
	add("g2pubs VerifyAggregateCommon", cheap, func(t *core.T, n int) {
		do(t, "g2pubs VerifyAggregateCommon", n, func(s *g2pubs.Signature, l []*g2pubs.PublicKey, m []byte) bool { return s.VerifyAggregateCommon(l, m) }, g2sg(0), []interface{}{msg(1)}, mk(n, g2pk))
	})
	// aggregates that verify, and ones that do not
	for _, good := range []bool{true, false} {
		good := good
		what := " VerifyAggregate, " + map[bool]string{true: "valid", false: "not valid"}[good]
		add("g1pubs"+what, dear, func(t *core.T, n int) {
			a, ad := g1pubs.NewAggregateSignature(), g1pubs.NewAggregateSignature()
			for i := 0; i < n && good; i++ {
				x := g1pubs.KeyFromFQRepr(R4(bi(k(i))))
				a.Aggregate(g1pubs.Sign(msg(i), x))
				ad.Aggregate(g1pubs.SignWithDomain(dig(i), x, [8]byte{3}))
			}
			f := func(i int) *g1pubs.PublicKey { return g1pubs.NewPublicKeyFromG1(A1(smallMul(g1g, k(i)).p1)) }
			do(t, "g1pubs"+what, n, func(s *g1pubs.Signature, l []*g1pubs.PublicKey, m [][]byte) bool { return s.VerifyAggregate(l, m) }, a, nil, mk(n, f), mk(n, msg))
			do(t, "g1pubs"+what+", with a domain", n, func(s *g1pubs.Signature, l []*g1pubs.PublicKey, m [][32]byte, d [8]byte) bool {
				return s.VerifyAggregateWithDomain(l, m, d)
			}, ad, []interface{}{[8]byte{3}}, mk(n, f), mk(n, dig))
		})
		add("g2pubs"+what, dear, func(t *core.T, n int) {
			a := g2pubs.NewAggregateSignature()
			for i := 0; i < n && good; i++ {
				a.Aggregate(g2pubs.Sign(msg(i), g2pubs.KeyFromFQRepr(R4(bi(k(i))))))
			}
			f := func(i int) *g2pubs.PublicKey { return g2pubs.NewPublicKeyFromG2(A2(smallMul(g2g, k(i)).p2)) }
			do(t, "g2pubs"+what, n, func(s *g2pubs.Signature, l []*g2pubs.PublicKey, m [][]byte) bool { return s.VerifyAggregate(l, m) }, a, nil, mk(n, f), mk(n, msg))
		})
	}
	prep := []*bls.G2Prepared{nil, nil, nil}
	add("MillerLoop", dear, func(t *core.T, n int) {
		for i := range prep {
			if prep[i] == nil {
				prep[i] = bls.G2AffineToPrepared(A2([]pt{g2g.gen, smallMul(g2g, 5), g2g.inf}[i].p2))
			}
		}
		was := ""
		for _, p := range prep {
			was += show(reflect.ValueOf(p))
		}
		var ps []*bls.G1Affine
		f := func(i int) bls.MillerLoopItem {
			it := bls.MillerLoopItem{P: p1(i), Q: prep[i%2]}
			if i%13 == 12 {
				it.Q = prep[2]
			}
			ps = append(ps, it.P)
			return it
		}
		l := mk(n, f)
		var vals []string
		for _, p := range ps {
			vals = append(vals, p.String())
		}
		do(t, "MillerLoop", n, bls.MillerLoop, nil, nil, l)
		for i, p := range ps {
			if p.String() != vals[i] {
				t.Failf("MillerLoop on %d members changed the point at place %d from %s to %s", n, i, vals[i], p)
			}
		}
		is := ""
		for _, p := range prep {
			is += show(reflect.ValueOf(p))
		}
		if was != is {
			t.Failf("MillerLoop on %d members changed a prepared point", n)
		}
	})
	add("bits of a long number", []int{0, 1, 2, 3, 4, 5, 6, 7, 12, 20, 64}, func(t *core.T, n int) {
		limb := func(i int) uint64 { return uint64(i)*0x9e3779b97f4a7c15 + 1 }
		do(t, "NewBitIterator", n, func(l []uint64) string {
			b := bls.NewBitIterator(l)
			s := ""
			for x, done := b.Next(); !done; x, done = b.Next() {
				if x {
					s += "1"
				} else {
					s += "0"
				}
			}
			return s
		}, nil, nil, mk(n, limb))
	})
	return core.Space{Name: "lists of many lengths", N: int64(len(cases)), Run: func(t *core.T, i int64) {
		if t.WantSample() {
			t.Sample("%s, %d members, each place looked at before and after", cases[i].what, cases[i].n)
		}
		cases[i].run(t, cases[i].n)
	}}
}
