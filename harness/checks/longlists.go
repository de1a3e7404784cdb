package checks

import (
	"fmt"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
)

// longLists calls the operations that take lists on long ones, from two
// goroutines: where a list is worked off by goroutines of the library itself,
// those are watched by the happens-before analysis as well.
func longLists(tier string) core.Space {
	type kase struct {
		what string
		n    int
		run  func(t *core.T)
	}
	var cases []kase
	lens := []int{4, 7, 17}
	light := []int{9, 33, 70, 130}
	if tier == "thorough" {
		lens = []int{4, 5, 6, 7, 8, 9, 16, 17, 33, 65}
		light = []int{4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 70, 128, 130, 257}
	}
	// both starts f from two goroutines and compares what they return
	both := func(t *core.T, what string, want string, f func() string) {
		out := make(chan string, 2)
		start := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() {
				defer func() {
					if r := recover(); r != nil {
						out <- fmt.Sprint("panic: ", r)
					}
				}()
				<-start
				out <- f()
			}()
		}
		close(start)
		a, b := <-out, <-out
		t.Eval(true)
		t.Trans(2)
		for _, g := range []string{a, b} {
			if g != want {
				t.Failf("%s from two goroutines gives %s, not %s", what, clip(g), clip(want))
			}
		}
	}
	for _, s := range []*scheme{s1, s2s} {
		s := s
		sk := func(i int) interface{} { return s.sk(bi(int64(3 + 2*i))) }
		for _, n := range lens {
			n := n
			cases = append(cases, kase{s.name + " VerifyAggregate", n, func(t *core.T) {
				var ps, ss []interface{}
				var ms [][]byte
				for i := 0; i < n; i++ {
					ms = append(ms, []byte{byte(i), byte(i >> 8), 7})
					ps = append(ps, s.pub(sk(i)))
					ss = append(ss, s.sign(ms[i], sk(i)))
				}
				a := s.aggSigs(ss)
				w := fmt.Sprintf("%s: aggregate verification of %d members", s.name, n)
				both(t, w, "true", func() string { return fmt.Sprint(s.vAgg(a, ps, ms)) })
				bad := append([][]byte{}, ms...)
				bad[n-1] = []byte{1}
				both(t, w+", the last message another", "false", func() string { return fmt.Sprint(s.vAgg(a, ps, bad)) })
			}})
			if s.domain {
				cases = append(cases, kase{s.name + " VerifyAggregateWithDomain", n, func(t *core.T) {
					var ps, ss []interface{}
					var ms [][32]byte
					d := [8]byte{9}
					for i := 0; i < n; i++ {
						ms = append(ms, [32]byte{byte(i), byte(i >> 8), 7})
						ps = append(ps, s.pub(sk(i)))
						ss = append(ss, s.signD(ms[i], sk(i), d))
					}
					a := s.aggSigs(ss)
					w := fmt.Sprintf("%s: aggregate verification of %d members with a domain", s.name, n)
					both(t, w, "true", func() string { return fmt.Sprint(s.vAggD(a, ps, ms, d)) })
					ms2 := append([][32]byte{}, ms...)
					ms2[0][31]++
					both(t, w+", the first message another", "false", func() string { return fmt.Sprint(s.vAggD(a, ps, ms2, d)) })
				}})
			}
		}
		for _, n := range light {
			n := n
			cases = append(cases, kase{s.name + " lists of keys and signatures", n, func(t *core.T) {
				var ps, ss []interface{}
				p, q := s.pg.inf, s.sg.inf
				for i := 0; i < n; i++ {
					x, y := smallMul(s.pg, int64(1+i%40)), smallMul(s.sg, int64(1+i*3%40))
					p, q = p.add(x), q.add(y)
					ps = append(ps, s.newPub(s.pg.a(x)))
					ss = append(ss, s.newSig(s.sg.a(y)))
				}
				both(t, fmt.Sprintf("%s: aggregation of %d keys", s.name, n), p.String(), func() string { return s.pg.ofJ(s.pubPoint(s.aggPubs(ps))).String() })
				both(t, fmt.Sprintf("%s: aggregation of %d signatures", s.name, n), q.String(), func() string { return s.sg.ofJ(s.sigPoint(s.aggSigs(ss))).String() })
				// every key has signed the same message
				m := []byte{byte(n), 1}
				tot := int64(0)
				for i := 0; i < n; i++ {
					tot += int64(1 + i%40)
				}
				sg := s.sign(m, s.sk(bi(tot)))
				w := fmt.Sprintf("%s: verification of one message under %d keys", s.name, n)
				both(t, w, "true", func() string { return fmt.Sprint(s.vCommon(sg, ps, m)) })
				both(t, w+", one key missing", "false", func() string { return fmt.Sprint(s.vCommon(sg, ps[1:], m)) })
			}})
		}
	}
	for _, n := range light {
		n := n
		cases = append(cases, kase{"MillerLoop", n, func(t *core.T) {
			var items []bls.MillerLoopItem
			one, other := bls.G2AffineToPrepared(A2(ref.G2)), bls.G2AffineToPrepared(A2(smallMul(g2g, 5).p2))
			tot := int64(0)
			for i := 0; i < n; i++ {
				k := int64(1 + i%40)
				it := bls.MillerLoopItem{P: A1(smallMul(g1g, k).p1), Q: one}
				if i%3 == 1 {
					it.Q = other
					k *= 5
				}
				tot += k
				items = append(items, it)
			}
			want := bls.FinalExponentiation(bls.MillerLoop([]bls.MillerLoopItem{{P: A1(g1g.gen.mul(bi(tot)).p1), Q: one}})).String()
			both(t, fmt.Sprintf("the Miller loop of %d pairs and its final exponentiation", n), want, func() string { return bls.FinalExponentiation(bls.MillerLoop(items)).String() })
		}})
	}
	return core.Space{Name: "long lists, happens-before analysis", N: int64(len(cases)), Run: func(t *core.T, i int64) {
		cases[i].run(t)
		if t.WantSample() {
			t.Sample("%s, %d members, from two goroutines", cases[i].what, cases[i].n)
		}
	}}
}
