package checks

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"regexp"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// gen19 is one random generator. run returns the value and error; valid says
// whether a value is a member of its set.
type gen19 struct {
	name  string
	run   func(r io.Reader) (interface{}, error)
	valid func(v interface{}) string
	bytes func(v interface{}) string
	kind  string // layout of the streams: "fr", "fq" or "g1", "g2"
	per   int    // field elements per value
}

func canonBytes(b []byte, m *big.Int) string {
	if new(big.Int).SetBytes(b).Cmp(m) >= 0 {
		return fmt.Sprintf("%x is not below the modulus", b)
	}
	return ""
}

func canonFQ(f bls.FQ) string {
	r := f.ToRepr()
	if ofQ6(r).Cmp(bq) >= 0 {
		return "the value is not below q"
	}
	if !f.IsValid() {
		return "the element is not valid"
	}
	g := FQ(ofQ6(r))
	if !g.Equals(f) {
		return "the element differs from the canonical one of the same value"
	}
	return ""
}

func canonFR(f *bls.FR) string {
	if f == nil {
		return "nil"
	}
	r := f.ToRepr()
	if ofR4(r).Cmp(br) >= 0 {
		return "the value is not below r"
	}
	if !f.IsValid() {
		return "the element is not valid"
	}
	if !FR(ofR4(r)).Equals(f) {
		return "the element differs from the canonical one of the same value"
	}
	return ""
}

var hex96 = regexp.MustCompile("[0-9a-f]{96}")

func generators() []gen19 {
	str := func(v interface{}) string { return v.(fmt.Stringer).String() }
	// towers: the coordinates appear in the text form
	tower := func(n int, same func(v interface{}, c []ref.F2) bool) func(v interface{}) string {
		return func(v interface{}) string {
			if reflect.ValueOf(v).IsNil() {
				return "nil without an error"
			}
			h := hex96.FindAllString(v.(fmt.Stringer).String(), -1)
			if len(h) != n {
				return ""
			}
			var c []ref.F2
			for i := 0; i < n; i += 2 {
				a, _ := new(big.Int).SetString(h[i], 16)
				b, _ := new(big.Int).SetString(h[i+1], 16)
				if a.Cmp(bq) >= 0 || b.Cmp(bq) >= 0 {
					return "a coordinate that is not below q"
				}
				c = append(c, ref.F2{A: a, B: b})
			}
			if !same(v, c) {
				return "an element that differs from the canonical one of the same value"
			}
			return ""
		}
	}
	inGroup := func(g *grp, v interface{}) string {
		if reflect.ValueOf(v).IsNil() {
			return "nil without an error"
		}
		var p pt
		if g == g1g {
			p = pt{g: 1, p1: ofJ1(v.(*bls.G1Projective))}
		} else {
			p = pt{g: 2, p2: ofJ2(v.(*bls.G2Projective))}
		}
		switch {
		case p.inf():
			return "the point at infinity"
		case !p.onCurve():
			return "a point off the curve: " + p.String()
		case !p.mul(br).inf():
			return "a point outside the prime-order subgroup: " + p.String()
		}
		return ""
	}
	sk := func(b func(v interface{}) []byte, fr func(v interface{}) *bls.FR) func(v interface{}) string {
		return func(v interface{}) string {
			if reflect.ValueOf(v).IsNil() {
				return "nil without an error"
			}
			if e := canonBytes(b(v), br); e != "" {
				return e
			}
			return canonFR(fr(v))
		}
	}
	s1b := func(v interface{}) []byte { x := v.(*g1pubs.SecretKey).Serialize(); return x[:] }
	s2b := func(v interface{}) []byte { x := v.(*g2pubs.SecretKey).Serialize(); return x[:] }
	return []gen19{
		{"RandFQ", func(r io.Reader) (interface{}, error) { return bls.RandFQ(r) },
			func(v interface{}) string { return canonFQ(v.(bls.FQ)) }, str, "fq", 1},
		{"RandFR", func(r io.Reader) (interface{}, error) { return bls.RandFR(r) },
			func(v interface{}) string { return canonFR(v.(*bls.FR)) }, str, "fr", 1},
		{"RandFQ2", func(r io.Reader) (interface{}, error) { return bls.RandFQ2(r) },
			func(v interface{}) string {
				f := ofFQ2(v.(bls.FQ2))
				if f.A.Cmp(bq) >= 0 || f.B.Cmp(bq) >= 0 {
					return "a coordinate is not below q"
				}
				if !FQ2(f).Equals(v.(bls.FQ2)) {
					return "the element differs from the canonical one of the same value"
				}
				return ""
			}, str, "fq", 2},
		{"RandFQ6", func(r io.Reader) (interface{}, error) { return bls.RandFQ6(r) }, tower(6, func(v interface{}, c []ref.F2) bool {
			return v.(*bls.FQ6).Equals(FQ6(ref.F6{c[0], c[1], c[2]}))
		}), str, "fq", 6},
		{"RandFQ12", func(r io.Reader) (interface{}, error) { return bls.RandFQ12(r) }, tower(12, func(v interface{}, c []ref.F2) bool {
			return v.(*bls.FQ12).Equals(FQ12(ref.F12{ref.F6{c[0], c[1], c[2]}, ref.F6{c[3], c[4], c[5]}}))
		}), str, "fq", 12},
		{"g1pubs.RandKey", func(r io.Reader) (interface{}, error) { return g1pubs.RandKey(r) },
			sk(s1b, func(v interface{}) *bls.FR { return v.(*g1pubs.SecretKey).GetFRElement() }), func(v interface{}) string { return fmt.Sprintf("%x", s1b(v)) }, "fr", 1},
		{"g2pubs.RandKey", func(r io.Reader) (interface{}, error) { return g2pubs.RandKey(r) },
			sk(s2b, func(v interface{}) *bls.FR { return v.(*g2pubs.SecretKey).GetFRElement() }), func(v interface{}) string { return fmt.Sprintf("%x", s2b(v)) }, "fr", 1},
		{"RandG1", func(r io.Reader) (interface{}, error) { return bls.RandG1(r) },
			func(v interface{}) string { return inGroup(g1g, v) }, func(v interface{}) string { return v.(*bls.G1Projective).ToAffine().String() }, "g1", 1},
		{"RandG2", func(r io.Reader) (interface{}, error) { return bls.RandG2(r) },
			func(v interface{}) string { return inGroup(g2g, v) }, func(v interface{}) string { return v.(*bls.G2Projective).ToAffine().String() }, "g2", 1},
	}
}

func fixed(v *big.Int, n int) []byte {
	b := make([]byte, n)
	v.FillBytes(b)
	return b
}

// blocks are the contents a source can deliver where one element is drawn.
func blocks19(kind string) (out [][]byte, names []string) {
	put := func(n string, b []byte) { out = append(out, b); names = append(names, n) }
	m, n := bq, 48
	top := uint(381)
	if kind == "fr" {
		m, n, top = br, 32, 255
	}
	vals := []struct {
		n string
		v *big.Int
	}{
		{"zero", bi(0)}, {"one", bi(1)}, {"m-1", sub(m, one)}, {"m", m}, {"m+1", add(m, one)},
		{"all ones", sub(pow2(uint(8*n)), one)}, {"top", sub(pow2(top), one)}, {"generic", new(big.Int).Mod(genZ(90), m)},
	}
	switch kind {
	case "fr", "fq":
		for _, v := range vals {
			put(v.n, fixed(v.v, n))
		}
		return
	case "g1":
		for _, flag := range []byte{0, 1} {
			f := fmt.Sprintf("sign %d ", flag)
			for _, v := range vals {
				put(f+v.n, append([]byte{flag}, fixed(v.v, n)...))
			}
			for _, l := range []int64{3, 11} {
				p := g1g.ofOrder(l, 1)
				put(fmt.Sprintf("%sx of a point of order %d", f, l), append([]byte{flag}, fixed(p.p1.X, n)...))
			}
			x := bi(2)
			for ref.IsSquare(ref.RHS1(x)) {
				x = add(x, one)
			}
			put(f+"x off the curve", append([]byte{flag}, fixed(x, n)...))
			x = bi(4)
			for !ref.IsSquare(ref.RHS1(x)) {
				x = add(x, one)
			}
			put(f+"x on the curve", append([]byte{flag}, fixed(x, n)...))
		}
	case "g2":
		two := func(a, b *big.Int) []byte { return append(fixed(a, n), fixed(b, n)...) }
		for _, flag := range []byte{0, 1} {
			f := fmt.Sprintf("sign %d ", flag)
			for _, v := range vals {
				put(f+v.n+" and zero", append([]byte{flag}, two(v.v, bi(0))...))
				put(f+"zero and "+v.n, append([]byte{flag}, two(bi(0), v.v)...))
			}
			for _, l := range []int64{13, 23} {
				p := g2g.ofOrder(l, 1)
				put(fmt.Sprintf("%sx of a point of order %d", f, l), append([]byte{flag}, two(p.p2.X.A, p.p2.X.B)...))
			}
			x := ref.Int2(1, 1)
			for ref.RHS2(x).IsSquare() {
				x = x.Add(ref.Int2(0, 1))
			}
			put(f+"x off the curve", append([]byte{flag}, two(x.A, x.B)...))
			for !ref.RHS2(x).IsSquare() {
				x = x.Add(ref.Int2(0, 1))
			}
			put(f+"x on the curve", append([]byte{flag}, two(x.A, x.B)...))
		}
	}
	return
}

// tail19 is a healthy continuation.
func tail19(n int, k int64) []byte {
	var out []byte
	for i := int64(0); len(out) < n; i++ {
		out = append(out, fixed(genZ(1000*k+i), 48)[2:]...)
	}
	return out[:n]
}

var errSource = errors.New("the source failed")

// source delivers data, records its reads, and fails as told.
type source struct {
	data   []byte
	pos    int
	reads  int
	chunk  func(read int) int // at most this many bytes in this read; 0 gives (0, nil)
	failAt int                // this read fails (-1: none)
	keep   bool               // it fails only once
	cut    int                // the stream ends here (-1: at the end)
	end    error              // and this is what it says
	with   bool               // the last bytes come together with the end
}

func (s *source) Read(p []byte) (int, error) {
	k := s.reads
	s.reads++
	if s.reads > 100000 {
		panic("the source was read 100000 times")
	}
	if s.failAt >= 0 && (k == s.failAt || k > s.failAt && !s.keep) {
		return 0, errSource
	}
	end := len(s.data)
	if s.cut >= 0 && s.cut < end {
		end = s.cut
	}
	if s.pos >= end {
		return 0, s.end
	}
	n := len(p)
	if s.chunk != nil {
		if c := s.chunk(k); c < n {
			n = c
		}
	}
	if n > end-s.pos {
		n = end - s.pos
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.with && s.pos >= end {
		return n, s.end
	}
	return n, nil
}

func healthy(data []byte) *source { return &source{data: data, failAt: -1, cut: -1, end: io.EOF} }

type result19 struct {
	v   interface{}
	err error
	out string
}

func (g *gen19) on(t *core.T, s *source) (r result19) {
	r.v, r.err = g.run(s)
	t.Eval(s.failAt >= 0 || s.cut >= 0 || s.chunk != nil)
	t.Trans(int64(s.reads))
	if r.err == nil {
		r.out = g.bytes(r.v)
		return
	}
	// with an error there is no usable value
	v := reflect.ValueOf(r.v)
	if v.IsValid() && !(v.Kind() == reflect.Ptr && v.IsNil()) && !(v.Kind() != reflect.Ptr && v.IsZero()) {
		t.Failf("%s returns the value %v together with the error %v", g.name, r.v, r.err)
	}
	return
}

func init() {
	core.Register("C19", func(tier string) []core.Space {
		thorough := tier == "thorough"
		var sp []core.Space
		for _, g := range generators() {
			g := g
			bl, names := blocks19(g.kind)
			depth := 2
			if len(bl) > 20 && !thorough {
				depth = 1
			}
			if len(bl) < 20 && thorough {
				depth = 3
			}
			var seqs [][]int
			var rec func(pre []int)
			rec = func(pre []int) {
				seqs = append(seqs, append([]int{}, pre...))
				if len(pre) < depth {
					for i := range bl {
						rec(append(pre, i))
					}
				}
			}
			rec(nil)
			if !thorough && depth == 1 && len(bl) > 20 {
				// and every special block after each of three that are thrown away
				for _, f := range []int{3, 5, len(bl)/2 - 2, len(bl)/2 - 3, len(bl)/2 - 4} {
					for i := 0; i < len(bl); i += 3 {
						seqs = append(seqs, []int{f, i})
					}
				}
			}
			// towers draw several elements: the interesting blocks at each place
			if g.per > 1 {
				for at := 0; at < g.per; at++ {
					for i := range bl {
						s := make([]int, at+1)
						for k := range s {
							s[k] = len(bl) - 1
						}
						s[at] = i
						seqs = append(seqs, s)
					}
				}
			}
			costly := g.kind == "g1" || g.kind == "g2"
			portable := int64(2)
			if costly {
				portable = 4
			}
			sp = append(sp, core.Space{Name: g.name, N: int64(len(seqs)), Portable: portable, Run: func(t *core.T, i int64) {
				var data []byte
				desc := ""
				for _, b := range seqs[i] {
					data = append(data, bl[b]...)
					desc += names[b] + ", "
				}
				desc += "then healthy bytes"
				data = append(data, tail19(16*97*g.per, i+1)...)
				if t.WantSample() {
					t.Sample("%s from [%s]: whole, cut after every byte, failing at every read, in every split", g.name, desc)
				}
				base := healthy(data)
				r := g.on(t, base)
				t.State(1)
				if r.err != nil {
					t.Failf("%s fails on a stream of %d bytes [%s]: %v", g.name, len(data), desc, r.err)
				}
				if e := g.valid(r.v); e != "" {
					t.Failf("%s from [%s] gives %s", g.name, desc, e)
				}
				used := base.pos
				check := func(what string, s *source, must bool) {
					x := g.on(t, s)
					t.State(1)
					switch {
					case x.err == nil && x.out != r.out:
						t.Failf("%s from [%s], %s, gives %s, and from the whole stream %s", g.name, desc, what, clip(x.out), clip(r.out))
					case x.err == nil && must && s.pos < used:
						t.Failf("%s from [%s], %s, gives a value and no error", g.name, desc, what)
					case x.err != nil && !must:
						t.Failf("%s from [%s], %s, fails with %v although all bytes were delivered", g.name, desc, what, x.err)
					}
				}
				// every cut
				stride := 1
				if !thorough && costly {
					stride = 7
				}
				if !thorough && g.per > 2 {
					stride = 5
				}
				for c := 0; c < used; c++ {
					near := c < 3 || used-c < 4 || c%48 < 3 || (c-1)%49 < 3
					if stride > 1 && !near && (c+int(i))%stride != 0 {
						continue
					}
					check(fmt.Sprintf("ending after %d of %d bytes", c, used), &source{data: data, failAt: -1, cut: c, end: io.EOF}, true)
					if c%4 == 0 || near {
						check(fmt.Sprintf("failing after %d of %d bytes", c, used), &source{data: data, failAt: -1, cut: c, end: errSource}, true)
						check(fmt.Sprintf("ending after %d of %d bytes, said with the last of them", c, used), &source{data: data, failAt: -1, cut: c, end: io.EOF, with: true}, true)
						check(fmt.Sprintf("failing after %d of %d bytes, said with the last of them", c, used), &source{data: data, failAt: -1, cut: c, end: errSource, with: true}, true)
					}
				}
				// every read, failing once or from then on, in several splits
				splits := []struct {
					name  string
					chunk func(k int) int
				}{
					{"whole", nil},
					{"one byte at a time", func(int) int { return 1 }},
					{"seven bytes at a time", func(int) int { return 7 }},
					{"an empty read before each read", func(k int) int {
						if k%2 == 0 {
							return 0
						}
						return 1 << 20
					}},
					{"1, 2, 3, ... bytes", func(k int) int { return k + 1 }},
					{"half of a field element", func(int) int { return 24 }},
					{"47 bytes", func(int) int { return 47 }},
					{"empty reads in pairs", func(k int) int {
						if k%3 != 2 {
							return 0
						}
						return 5
					}},
				}
				for si, sl := range splits {
					s := healthy(data)
					s.chunk = sl.chunk
					check("delivered in another split ("+sl.name+")", s, false)
					reads := s.reads
					step := 1
					if si != 0 {
						step = 1 + reads/12
						if thorough {
							step = 1 + reads/60
						}
					}
					for k := 0; k < reads; k += step {
						for _, keep := range []bool{true, false} {
							f := healthy(data)
							f.chunk, f.failAt, f.keep = sl.chunk, k, keep
							x := g.on(t, f)
							t.State(1)
							if x.err == nil {
								t.Failf("%s from [%s] (%s): read %d of %d fails (once: %v), and no error is returned", g.name, desc, sl.name, k, reads, keep)
							}
						}
					}
				}
				t.Trace(1)
			}})
		}
		// the tail of a stream does not matter once enough was delivered
		sp = append(sp, core.Space{Name: "exactly the required bytes", N: int64(len(generators())), Run: func(t *core.T, i int64) {
			g := generators()[i]
			for k := int64(0); k < 6; k++ {
				data := tail19(4096, 50+k)
				a := healthy(data)
				r := g.on(t, a)
				if r.err != nil {
					t.Failf("%s fails on a healthy stream: %v", g.name, r.err)
				}
				s := &source{data: data, failAt: -1, cut: a.pos, end: io.EOF, with: k%2 == 1}
				x := g.on(t, s)
				t.State(2)
				if x.err != nil || x.out != r.out {
					t.Failf("%s from exactly the %d bytes it needs (end said with the last byte: %v): %v, %v", g.name, a.pos, k%2 == 1, x.err, clip(x.out))
				}
			}
		}})
		return sp
	})
}
