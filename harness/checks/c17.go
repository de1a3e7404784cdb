package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifharness/core"
	"verifharness/ref"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// obj is one object of the pool, always held through a pointer.
type obj struct {
	name string
	ptr  reflect.Value
	ro   bool // an exported constant: never the receiver of an in-place call
}

type pool struct {
	objs   []*obj
	byType map[reflect.Type][]*obj
}

func (p *pool) put(name string, ptr interface{}, ro bool) {
	o := &obj{name, reflect.ValueOf(ptr), ro}
	p.objs = append(p.objs, o)
	t := o.ptr.Type().Elem()
	p.byType[t] = append(p.byType[t], o)
}

func newEmptyPool() *pool { return &pool{byType: map[reflect.Type][]*obj{}} }

// newPool makes all objects anew.
func newPool() *pool {
	p := newEmptyPool()
	rw := func(n string, v interface{}) { p.put(n, v, false) }
	ro := func(n string, v interface{}) { p.put(n, v, true) }
	rk := new(big.Int).Mod(genZ(71), br)
	qk := genZ(72)

	r1, r2 := Q6(bi(77)), Q6(qk)
	rw("repr1", &r1)
	rw("repr2", &r2)
	rw("frrepr1", R4(bi(5)))
	rw("frrepr2", R4(rk))
	f1, f2 := FQ(qk), FQ(sub(bq, bi(2)))
	rw("fq1", &f1)
	rw("fq2", &f2)
	rw("fr1", FR(rk))
	rw("fr2", FR(sub(br, bi(3))))
	// any Fq2 element works as a coordinate where only arithmetic is done
	x1, x2 := FQ2(ref.F2{A: qk, B: bi(9)}), FQ2(ref.G2.X)
	rw("fqtwo1", &x1)
	rw("fqtwo2", &x2)
	six := func(o int) ref.F6 {
		return ref.F6{ref.MakeF2(genCoef(o), genCoef(o+1)), ref.MakeF2(genCoef(o+2), genCoef(o+3)), ref.MakeF2(genCoef(o+4), genCoef(o+5))}
	}
	rw("fqsix1", FQ6(six(0)))
	rw("fqsix2", FQ6(six(3)))
	rw("fqtwelve1", FQ12(ref.F12{six(1), six(2)}))
	rw("fqtwelve2", FQ12(ref.F12{six(5), six(4)}))
	ro("FQ12One", bls.FQ12One)
	ro("FQ6Zero", bls.FQ6Zero)

	rw("g1a", g1g.a(smallMul(g1g, 5)))
	rw("g1ainf", g1g.a(g1g.inf))
	ro("G1AffineOne", bls.G1AffineOne)
	ro("G1AffineZero", bls.G1AffineZero)
	rw("g1j", g1g.j(smallMul(g1g, 5), 3))
	rw("g1j2", g1g.j(smallMul(g1g, 7), 0))
	rw("g1jinf", g1g.j(g1g.inf, 2))
	ro("G1ProjectiveOne", bls.G1ProjectiveOne)
	ro("G1ProjectiveZero", bls.G1ProjectiveZero)
	rw("g2a", g2g.a(smallMul(g2g, 5)))
	rw("g2ainf", g2g.a(g2g.inf))
	ro("G2AffineOne", bls.G2AffineOne)
	ro("G2AffineZero", bls.G2AffineZero)
	rw("g2j", g2g.j(smallMul(g2g, 5), 3))
	rw("g2j2", g2g.j(smallMul(g2g, 7), 0))
	rw("g2jinf", g2g.j(g2g.inf, 2))
	ro("G2ProjectiveOne", bls.G2ProjectiveOne)
	ro("G2ProjectiveZero", bls.G2ProjectiveZero)
	pr := bls.G2AffineToPrepared(A2(ref.G2))
	rw("prep", pr)
	items := []bls.MillerLoopItem{{P: A1(ref.G1), Q: pr}, {P: g1g.a(smallMul(g1g, 3)).(*bls.G1Affine), Q: pr}}
	rw("items", &items)

	k1, k2 := g1pubs.KeyFromFQRepr(R4(rk)), g1pubs.KeyFromFQRepr(R4(bi(11)))
	rw("sk1", k1)
	rw("sk2", k2)
	pa, pb := g1pubs.NewPublicKeyFromG1(A1(mulC(g1g.gen, rk).p1)), g1pubs.NewPublicKeyFromG1(A1(smallMul(g1g, 11).p1))
	rw("pk1", pa)
	rw("pk2", pb)
	m := []byte{1, 2, 3}
	d := [32]byte{1, 2, 3}
	sa, sb := g1pubs.NewSignatureFromG2(A2(mulC(s1.h(m), rk).p2)), g1pubs.NewSignatureFromG2(A2(mulC(s1.h([]byte{}), bi(11)).p2))
	rw("sig1", sa)
	rw("sig2", sb)
	lp, ls := []*g1pubs.PublicKey{pa, pb}, []*g1pubs.Signature{sa, sb}
	rw("pks", &lp)
	rw("sigs", &ls)
	lpOne, lsOne := []*g1pubs.PublicKey{pb}, []*g1pubs.Signature{sb}
	rw("pkOnes", &lpOne)
	rw("sigOnes", &lsOne)
	q1, q2 := g2pubs.KeyFromFQRepr(R4(rk)), g2pubs.KeyFromFQRepr(R4(bi(11)))
	rw("2sk1", q1)
	rw("2sk2", q2)
	pa2, pb2 := g2pubs.NewPublicKeyFromG2(A2(mulC(g2g.gen, rk).p2)), g2pubs.NewPublicKeyFromG2(A2(smallMul(g2g, 11).p2))
	rw("2pk1", pa2)
	rw("2pk2", pb2)
	sa2, sb2 := g2pubs.NewSignatureFromG1(A1(mulC(s2s.h(m), rk).p1)), g2pubs.NewSignatureFromG1(A1(mulC(s2s.h([]byte{}), bi(11)).p1))
	rw("2sig1", sa2)
	rw("2sig2", sb2)
	lp2, ls2 := []*g2pubs.PublicKey{pa2, pb2}, []*g2pubs.Signature{sa2, sb2}
	rw("2pks", &lp2)
	rw("2sigs", &ls2)
	lpOne2, lsOne2 := []*g2pubs.PublicKey{pb2}, []*g2pubs.Signature{sb2}
	rw("2pkOnes", &lpOne2)
	rw("2sigOnes", &lsOne2)

	mc := append([]byte{}, m...)
	rw("msg", &mc)
	mc2 := []byte{1, 2, 4}
	rw("msg2", &mc2)
	ms := [][]byte{append([]byte{}, m...), {}}
	rw("msgs", &ms)
	msOne := [][]byte{{}}
	rw("msgOnes", &msOne)
	ds := [][32]byte{d, {}}
	rw("digests", &ds)
	rw("b8", &[8]byte{1})
	rw("b8b", &[8]byte{2})
	rw("b32", &d)
	b32 := be32(rk)
	rw("b32k", &b32)
	var b48 [48]byte
	copy(b48[:], smallMul(g1g, 5).enc())
	rw("b48", &b48)
	var i48 [48]byte
	i48[0] = 0xc0
	rw("b48inf", &i48)
	var b96, r96 [96]byte
	copy(b96[:], smallMul(g2g, 5).enc())
	copy(r96[:], rawOf(smallMul(g1g, 9)))
	rw("b96", &b96)
	rw("b96raw", &r96)
	var r192 [192]byte
	copy(r192[:], rawOf(smallMul(g2g, 9)))
	rw("b192", &r192)
	bl := true
	rw("true", &bl)
	u, u8, u64 := uint(5), uint8(1), uint64(7)
	rw("uint", &u)
	rw("uint8", &u8)
	rw("uint64", &u64)
	big1 := new(big.Int).Set(rk)
	rw("big", big1)
	l6, m6 := [6]uint64(Q6(qk)), [6]uint64(Q6(bi(77)))
	rw("limbs1", &l6)
	rw("limbs2", &m6)
	ls6 := []uint64{5, 1 << 63}
	rw("limbslice", &ls6)
	str := "12345"
	rw("string", &str)
	return p
}

// inPlace are the methods that may change their receiver.
func inPlace(name string) bool {
	if strings.HasSuffix(name, "Assign") {
		return true
	}
	switch name {
	case "AddNoCarry", "SubNoBorrow", "Div2", "Mul2", "Lsh", "Rsh", "SetRawBytes", "Aggregate", "Next":
		return true
	}
	return false
}

// show is the observable value of anything.
func show(v reflect.Value) string {
	if !v.IsValid() {
		return "none"
	}
	t := v.Type()
	if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
	}
	if t.Implements(errType) {
		return "error"
	}
	switch x := v.Interface().(type) {
	case *g1pubs.Signature:
		b := x.Serialize()
		return x.String() + fmt.Sprintf("%x", b)
	case *g2pubs.Signature:
		b := x.Serialize()
		return x.String() + fmt.Sprintf("%x", b)
	case *g1pubs.PublicKey:
		b := x.Serialize()
		return x.String() + fmt.Sprintf("%x", b)
	case *g2pubs.PublicKey:
		b := x.Serialize()
		return x.String() + fmt.Sprintf("%x", b)
	case *bls.G2Prepared:
		return fmt.Sprint(x.IsZero(), fmt.Sprintf("%v", reflect.ValueOf(x).Elem()))
	case *bls.G1Projective:
		if x.IsZero() {
			return x.String()
		}
		return x.String() + x.ToAffine().String()
	case *bls.G2Projective:
		if x.IsZero() {
			return x.String()
		}
		return x.String() + x.ToAffine().String()
	case *bls.FR:
		if !safeString(x) {
			return "FR(nil)"
		}
		return x.String()
	case *bls.MillerLoopItem:
		return fmt.Sprintf("%p %p", x.P, x.Q)
	}
	if s, ok := v.Interface().(fmt.Stringer); ok {
		return s.String()
	}
	switch t.Kind() {
	case reflect.Ptr:
		return show(v.Elem())
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v.Interface())
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += show(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.Struct:
		if v.CanAddr() {
			if m, ok := v.Addr().Interface().(fmt.Stringer); ok {
				return m.String()
			}
		}
	}
	return fmt.Sprintf("%v", v.Interface())
}

func safeString(x *bls.FR) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	_ = x.String()
	return true
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// call is one operation on named pool objects.
type call struct {
	name string
	fn   reflect.Value // a function, or invalid for a method
	meth string
	args []int // indices into the pool; the receiver first for a method
	mk   func() *pool
}

func (c *call) String() string {
	return c.name
}

type outcome struct {
	res   []reflect.Value
	shown []string
}

// invoke performs the call on a pool.
func (c *call) invoke(p *pool) (res []reflect.Value, panicked bool) {
	var in []reflect.Value
	f := c.fn
	args := c.args
	if c.meth != "" {
		f = p.objs[args[0]].ptr.MethodByName(c.meth)
		args = args[1:]
	}
	ft := f.Type()
	for i, a := range args {
		v := p.objs[a].ptr
		if ft.In(i).Kind() != reflect.Ptr || v.Type() != ft.In(i) {
			v = v.Elem()
		}
		in = append(in, v)
	}
	defer func() {
		if r := recover(); r != nil {
			res, panicked = nil, true
		}
	}()
	return f.Call(in), false
}

// do performs the call on a pool and shows the results.
func (c *call) do(p *pool) (o outcome) {
	res, bad := c.invoke(p)
	defer func() {
		if r := recover(); r != nil {
			o = outcome{nil, []string{"panic"}}
		}
	}()
	if bad {
		return outcome{nil, []string{"panic"}}
	}
	o.res = res
	for _, r := range o.res {
		o.shown = append(o.shown, show(r))
	}
	return
}

// showAll is the observable value of every pool object.
func (p *pool) showAll() []string {
	out := make([]string, len(p.objs))
	for i, o := range p.objs {
		out[i] = show(o.ptr)
	}
	return out
}

// constants are the exported package-level variables.
func constants() []string {
	return []string{
		"BCoeff", bls.BCoeff.String(), "BCoeffFQ2", bls.BCoeffFQ2.String(),
		"FQ12One", bls.FQ12One.String(), "FQ12Zero", bls.FQ12Zero.String(),
		"FQ2One", bls.FQ2One.String(), "FQ2Zero", bls.FQ2Zero.String(),
		"FQ6One", bls.FQ6One.String(), "FQ6Zero", bls.FQ6Zero.String(),
		"FQOne", bls.FQOne.String(), "FQZero", bls.FQZero.String(), "FQR2", bls.FQR2.String(),
		"FRR", bls.FRR.String(), "FRR2", bls.FRR2.String(),
		"G1AffineOne", bls.G1AffineOne.String(), "G1AffineZero", fmt.Sprint(bls.G1AffineZero.String(), bls.G1AffineZero.SerializeBytes()),
		"G1ProjectiveOne", bls.G1ProjectiveOne.String() + bls.G1ProjectiveOne.ToAffine().String(), "G1ProjectiveZero", bls.G1ProjectiveZero.String(),
		"G2AffineOne", bls.G2AffineOne.String(), "G2AffineZero", fmt.Sprint(bls.G2AffineZero.String(), bls.G2AffineZero.SerializeBytes()),
		"G2ProjectiveOne", bls.G2ProjectiveOne.String() + bls.G2ProjectiveOne.ToAffine().String(), "G2ProjectiveZero", bls.G2ProjectiveZero.String(),
		"QFieldModulus", bls.QFieldModulus.String(), "RFieldModulus", bls.RFieldModulus.String(),
	}
}

// rawFields prints the fields of a plain value (numbers, arrays, flags) as
// they are stored; "" when there is a pointer in it.
func rawFields(v interface{}) string {
	var plain func(t reflect.Type) bool
	plain = func(t reflect.Type) bool {
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if !plain(t.Field(i).Type) {
					return false
				}
			}
			return true
		case reflect.Array:
			return plain(t.Elem())
		case reflect.Bool, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return true
		}
		return false
	}
	if !plain(reflect.TypeOf(v)) {
		return ""
	}
	return fmt.Sprintf("%v", struct{ v interface{} }{v})
}

// storedConstants are the exported points as they are stored: the infinities
// have coordinates that the observable value does not show but that every
// holder of the same object shares.
func storedConstants() []string {
	return []string{
		"G1AffineOne", rawFields(*bls.G1AffineOne), "G1AffineZero", rawFields(*bls.G1AffineZero),
		"G1ProjectiveOne", rawFields(*bls.G1ProjectiveOne), "G1ProjectiveZero", rawFields(*bls.G1ProjectiveZero),
		"G2AffineOne", rawFields(*bls.G2AffineOne), "G2AffineZero", rawFields(*bls.G2AffineZero),
		"G2ProjectiveOne", rawFields(*bls.G2ProjectiveOne), "G2ProjectiveZero", rawFields(*bls.G2ProjectiveZero),
	}
}

var stored0 = storedConstants()

// nonAlias are calls whose result is documented to be (or to be built from)
// the object they were given.
func nonAlias(name string) bool {
	return strings.Contains(name, "GetFRElement") || strings.Contains(name, "NewFQ12(")
}

var functions = []struct {
	name string
	f    interface{}
}{
	{"AddNoCarry", bls.AddNoCarry}, {"AddWithCarry", bls.AddWithCarry}, {"MACWithCarry", bls.MACWithCarry}, {"MontReduce", bls.MontReduce},
	{"MultiplyFQRepr", bls.MultiplyFQRepr}, {"SubNoBorrow", bls.SubNoBorrow}, {"SubWithBorrow", bls.SubWithBorrow},
	{"CompareTwoPairings", bls.CompareTwoPairings}, {"CompressG1", bls.CompressG1}, {"CompressG2", bls.CompressG2},
	{"FQReprToFQ", bls.FQReprToFQ}, {"FQReprToFQRaw", bls.FQReprToFQRaw}, {"FinalExponentiation", bls.FinalExponentiation},
	{"MillerLoop", bls.MillerLoop}, {"NewFQ12", bls.NewFQ12}, {"Pairing", bls.Pairing}, {"NewFQ2", bls.NewFQ2}, {"NewFQ6", bls.NewFQ6},
	{"FQReprFromBigInt", bls.FQReprFromBigInt}, {"FQReprFromBytes", bls.FQReprFromBytes}, {"NewFQRepr", bls.NewFQRepr},
	{"FRReprToFR", bls.FRReprToFR}, {"HashSecretKey", bls.HashSecretKey}, {"FRReprFromBigInt", bls.FRReprFromBigInt},
	{"FRReprFromBytes", bls.FRReprFromBytes}, {"NewFRRepr", bls.NewFRRepr}, {"ClearH", bls.ClearH}, {"DecompressG1", bls.DecompressG1},
	{"DecompressG1Unchecked", bls.DecompressG1Unchecked}, {"GetG1PointFromX", bls.GetG1PointFromX}, {"HashG1", bls.HashG1}, {"NewG1Affine", bls.NewG1Affine},
	{"NewG1Projective", bls.NewG1Projective}, {"DecompressG2", bls.DecompressG2}, {"DecompressG2Unchecked", bls.DecompressG2Unchecked},
	{"GetG2PointFromX", bls.GetG2PointFromX}, {"HashG2", bls.HashG2}, {"NewG2Affine", bls.NewG2Affine}, {"OptimizedSWU2MapHelper", bls.OptimizedSWU2MapHelper},
	{"SWEncodeG2", bls.SWEncodeG2}, {"G2AffineToPrepared", bls.G2AffineToPrepared}, {"HashG2WithDomain", bls.HashG2WithDomain}, {"NewG2Projective", bls.NewG2Projective},
	{"g1pubs.Verify", g1pubs.Verify}, {"g1pubs.VerifyWithDomain", g1pubs.VerifyWithDomain}, {"g1pubs.AggregatePublicKeys", g1pubs.AggregatePublicKeys},
	{"g1pubs.DeserializePublicKey", g1pubs.DeserializePublicKey}, {"g1pubs.NewAggregatePubkey", g1pubs.NewAggregatePubkey}, {"g1pubs.NewPublicKeyFromG1", g1pubs.NewPublicKeyFromG1},
	{"g1pubs.PrivToPub", g1pubs.PrivToPub}, {"g1pubs.DeriveSecretKey", g1pubs.DeriveSecretKey}, {"g1pubs.DeserializeSecretKey", g1pubs.DeserializeSecretKey},
	{"g1pubs.KeyFromFQRepr", g1pubs.KeyFromFQRepr}, {"g1pubs.AggregateSignatures", g1pubs.AggregateSignatures}, {"g1pubs.DeserializeSignature", g1pubs.DeserializeSignature},
	{"g1pubs.NewAggregateSignature", g1pubs.NewAggregateSignature}, {"g1pubs.NewSignatureFromG2", g1pubs.NewSignatureFromG2}, {"g1pubs.Sign", g1pubs.Sign}, {"g1pubs.SignWithDomain", g1pubs.SignWithDomain},
	{"g2pubs.Verify", g2pubs.Verify}, {"g2pubs.AggregatePublicKeys", g2pubs.AggregatePublicKeys},
	{"g2pubs.DeserializePublicKey", g2pubs.DeserializePublicKey}, {"g2pubs.NewAggregatePubkey", g2pubs.NewAggregatePubkey}, {"g2pubs.NewPublicKeyFromG2", g2pubs.NewPublicKeyFromG2},
	{"g2pubs.PrivToPub", g2pubs.PrivToPub}, {"g2pubs.DeriveSecretKey", g2pubs.DeriveSecretKey}, {"g2pubs.DeserializeSecretKey", g2pubs.DeserializeSecretKey},
	{"g2pubs.KeyFromFQRepr", g2pubs.KeyFromFQRepr}, {"g2pubs.AggregateSignatures", g2pubs.AggregateSignatures}, {"g2pubs.DeserializeSignature", g2pubs.DeserializeSignature},
	{"g2pubs.NewAggregateSignature", g2pubs.NewAggregateSignature}, {"g2pubs.NewSignatureFromG1", g2pubs.NewSignatureFromG1}, {"g2pubs.Sign", g2pubs.Sign},
}

// methodsOf lists the methods that are called, per receiver type; methods
// that are not known here are left alone.
var knownMethods = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(`AddAssign Cmp Copy DivAssign DoubleAssign Equals Equal Exp Inverse IsValid IsZero Legendre MulAssign MulBits
		NegAssign Parity Sqrt SquareAssign String SubAssign ToRepr ConjugateAssign FrobeniusMapAssign InverseAssign MulBy014Assign
		MultiplyByNonresidueAssign Norm MulBy01Assign MulBy1Assign MulByNonresidueAssign AddNoCarry Bit BitLen Bytes Div2 IsEven IsOdd Lsh Mul2 Rsh
		SubNoBorrow ToBig MulBytes ToFQ IsInCorrectSubgroupAssumingOnCurve IsOnCurve Mul MulFR MulBig ScaleByCofactor SerializeBytes SetRawBytes ToProjective
		Add AddAffine Double ToAffine Aggregate GetPoint Serialize GetFRElement VerifyAggregate VerifyAggregateCommon VerifyAggregateCommonWithDomain VerifyAggregateWithDomain`) {
		m[n] = true
	}
	return m
}()

// calls enumerates all operations on all argument tuples from the pool.
func calls() (out []*call) { return callsOn(newPool) }

func callsOn(mk func() *pool) (out []*call) {
	p := mk()
	index := map[*obj]int{}
	for i, o := range p.objs {
		index[o] = i
	}
	cand := func(t reflect.Type) (out []int) {
		e := t
		if t.Kind() == reflect.Ptr {
			e = t.Elem()
		}
		for _, o := range p.byType[e] {
			out = append(out, index[o])
		}
		return
	}
	tuples := func(name string, fn reflect.Value, meth string, first []int, types []reflect.Type) {
		lists := [][]int{}
		if first != nil {
			lists = append(lists, first)
		}
		for _, t := range types {
			c := cand(t)
			if len(c) == 0 {
				return
			}
			if len(types) >= 3 && len(c) > 2 {
				c = c[:2]
			}
			lists = append(lists, c)
		}
		var rec func(pre []int)
		rec = func(pre []int) {
			if len(pre) == len(lists) {
				var n []string
				for _, a := range pre {
					n = append(n, p.objs[a].name)
				}
				c := &call{fn: fn, meth: meth, args: append([]int{}, pre...), mk: mk}
				if meth != "" {
					c.name = n[0] + "." + meth + "(" + strings.Join(n[1:], ",") + ")"
				} else {
					c.name = name + "(" + strings.Join(n, ",") + ")"
				}
				out = append(out, c)
				return
			}
			for _, a := range lists[len(pre)] {
				rec(append(pre, a))
			}
		}
		rec(nil)
	}
	for _, f := range functions {
		v := reflect.ValueOf(f.f)
		var types []reflect.Type
		for i := 0; i < v.Type().NumIn(); i++ {
			types = append(types, v.Type().In(i))
		}
		tuples(f.name, v, "", nil, types)
	}
	seen := map[reflect.Type]bool{}
	for _, o := range p.objs {
		t := o.ptr.Type()
		if seen[t] || !strings.Contains(t.Elem().PkgPath(), "phoreproject/bls") {
			continue
		}
		seen[t] = true
		for m := 0; m < t.NumMethod(); m++ {
			mt := t.Method(m)
			if !knownMethods[mt.Name] {
				continue
			}
			var types []reflect.Type
			for i := 1; i < mt.Type.NumIn(); i++ {
				types = append(types, mt.Type.In(i))
			}
			var recv []int
			for _, r := range p.byType[t.Elem()] {
				if !(r.ro && inPlace(mt.Name)) {
					recv = append(recv, index[r])
				}
			}
			if strings.HasPrefix(mt.Name, "VerifyAggregate") {
				recv = recv[:1]
			}
			tuples("", reflect.Value{}, mt.Name, recv, types)
		}
	}
	return
}

func (c *call) key(p *pool) string {
	h := sha256.New()
	if c.meth != "" {
		h.Write([]byte(p.objs[c.args[0]].ptr.Type().String() + "." + c.meth))
	} else {
		h.Write([]byte(c.name[:strings.Index(c.name, "(")]))
	}
	for _, a := range c.args {
		h.Write([]byte("|" + show(p.objs[a].ptr)))
	}
	return string(h.Sum(nil))
}

type memoEntry struct{ name, out string }

// memo: outcome by operation and argument values, over the whole process
var memo = map[string]memoEntry{}

// step performs a call on a pool whose state is known, and checks that only
// the receiver of an in-place operation changed and that the outcome is the
// one seen before for these argument values.
func step(t *core.T, c *call, p *pool, state []string, consts []string, history string) (outcome, []string) {
	key := c.key(p)
	o := c.do(p)
	after := p.showAll()
	t.Eval(true)
	t.Trans(1)
	for i := range after {
		if after[i] == state[i] {
			continue
		}
		if c.meth != "" && inPlace(c.meth) && i == c.args[0] {
			continue
		}
		// lists show their members
		if c.meth == "Aggregate" && strings.HasSuffix(p.objs[i].name, "s") && p.objs[i].ptr.Elem().Kind() == reflect.Slice {
			continue
		}
		t.Failf("%s%s changed %s from %s to %s", history, c, p.objs[i].name, clip(state[i]), clip(after[i]))
	}
	checkConsts(t, consts, history+c.String())
	out := strings.Join(o.shown, " ; ")
	if c.meth != "" && inPlace(c.meth) {
		out += " => " + after[c.args[0]]
	}
	if m, ok := memo[key]; ok && m.out != out {
		t.Failf("%s%s gives %s, but %s gave %s for the same argument values", history, c, clip(out), m.name, clip(m.out))
	}
	memo[key] = memoEntry{history + c.String(), out}
	return o, after
}

func checkConsts(t *core.T, consts []string, what string) {
	for i, s := range storedConstants() {
		if s != stored0[i] {
			t.Failf("%s changed the stored fields of the exported %s from %s to %s", what, stored0[i-1], clip(stored0[i]), clip(s))
		}
	}
	now := constants()
	for i := range now {
		if now[i] != consts[i] {
			t.Failf("%s changed the exported value %s from %s to %s", what, now[i-1], clip(consts[i]), clip(now[i]))
		}
	}
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

// mutators change an object of a given type in place.
func mutators(v reflect.Value) (out []func()) {
	if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() {
		if v.IsValid() && v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint64 {
			return []func(){func() {
				for i := 0; i < v.Len(); i++ {
					v.Index(i).SetUint(v.Index(i).Uint() ^ 1)
				}
			}}
		}
		return nil
	}
	switch x := v.Interface().(type) {
	case *bls.FRRepr:
		out = append(out, func() { x[0] ^= 5 }, func() { x.Mul2() }, func() { x.AddNoCarry(R4(bi(9))) })
	case *bls.FR:
		if safeString(x) {
			out = append(out, func() { x.AddAssign(FR(bi(9))) }, func() { x.NegAssign() }, func() { x.SquareAssign() }, func() { x.DoubleAssign() }, func() { x.MulAssign(FR(bi(9))) }, func() { x.SubAssign(FR(bi(4))) })
		}
	case *bls.FQ6:
		y := FQ6(ref.F6{ref.Int2(1, 2), ref.Int2(3, 4), ref.Int2(5, 6)})
		out = append(out, func() { x.AddAssign(y) }, func() { x.MulAssign(y) }, func() { x.NegAssign() }, func() { x.SquareAssign() }, func() { x.MulByNonresidueAssign() })
	case *bls.FQ12:
		y := FQ12(ref.F12{ref.F6{ref.Int2(1, 2), ref.Int2(3, 4), ref.Int2(5, 6)}, ref.F6{ref.Int2(1, 7), ref.Int2(3, 9), ref.Int2(5, 2)}})
		out = append(out, func() { x.AddAssign(y) }, func() { x.MulAssign(y) }, func() { x.NegAssign() }, func() { x.ConjugateAssign() }, func() { x.SquareAssign() }, func() { x.MulBy014Assign(FQ2(ref.Int2(1, 1)), FQ2(ref.Int2(2, 1)), FQ2(ref.Int2(3, 1))) })
	case *bls.G1Affine:
		out = append(out, func() { x.NegAssign() }, func() { x.SetRawBytes([96]byte{95: 7}) })
	case *bls.G2Affine:
		out = append(out, func() { x.NegAssign() }, func() { _ = x.SetRawBytes([192]byte{191: 7}) })
	case *bls.G1Projective:
		out = append(out, func() { x.NegAssign() })
	case *bls.G2Projective:
		// it may or may not be changed in place
		if n, ok := interface{}(x).(interface{ NegAssign() }); ok {
			out = append(out, func() { n.NegAssign() })
		}
	case *g1pubs.Signature:
		out = append(out, func() { x.Aggregate(g1pubs.NewSignatureFromG2(A2(ref.G2))) })
	case *g2pubs.Signature:
		out = append(out, func() { x.Aggregate(g2pubs.NewSignatureFromG1(A1(ref.G1))) })
	case *g1pubs.PublicKey:
		out = append(out, func() { x.Aggregate(g1pubs.NewPublicKeyFromG1(A1(ref.G1))) })
	case *g2pubs.PublicKey:
		out = append(out, func() { x.Aggregate(g2pubs.NewPublicKeyFromG2(A2(ref.G2))) })
	case *big.Int:
		out = append(out, func() { x.Add(x, bi(1)) }, func() { x.SetInt64(3) }, func() {
			if w := x.Bits(); len(w) > 0 {
				w[0] ^= 1
			}
		})
	}
	return
}

// changers are the in-place changes of a pool object that the next call has
// to notice: the mutators of objects and the plain writes a caller can make to
// values and buffers of its own.
func (p *pool) changers(i int) (out []func()) {
	o := p.objs[i]
	if o.ro {
		return nil
	}
	if out = mutators(o.ptr); len(out) > 0 {
		return
	}
	flip := func(b reflect.Value, k int) func() {
		return func() { b.Index(k).SetUint(b.Index(k).Uint() ^ 1) }
	}
	v := o.ptr.Elem()
	switch x := o.ptr.Interface().(type) {
	case *bls.FQ:
		return []func(){func() { x.AddAssign(bls.FQOne) }, func() { x.NegAssign() }, func() { x.AddAssign(FQ(pow2(300))) }}
	case *bls.FQ2:
		return []func(){func() { x.AddAssign(bls.FQ2One) }, func() { x.AddAssign(FQ2(ref.Int2(0, 1))) }, func() { x.NegAssign() }, func() { x.FrobeniusMapAssign(1) }}
	case *bls.FQRepr:
		return []func(){func() { x[0] ^= 2 }, func() { x[5] ^= 1 << 40 }}
	case *[]bls.MillerLoopItem:
		out = append(out, func() { (*x)[0].P.NegAssign() }, func() { (*x)[1].P.NegAssign() }, func() { (*x)[0], (*x)[1] = (*x)[1], (*x)[0] }, func() { (*x)[1].P = (*x)[0].P }, func() { (*x)[0].Q = bls.G2AffineToPrepared(g2g.a(smallMul(g2g, 3)).(*bls.G2Affine)) })
	case *[][]byte:
		if len(*x) > 1 {
			out = append(out, func() { (*x)[0][0] ^= 1 }, func() { (*x)[0], (*x)[1] = (*x)[1], (*x)[0] })
		}
		out = append(out, func() { (*x)[0] = []byte{8} })
	case *[][32]byte:
		out = append(out, func() { (*x)[0][31] ^= 1 }, func() { (*x)[1][0] ^= 1 }, func() { (*x)[0], (*x)[1] = (*x)[1], (*x)[0] })
	default:
		switch v.Kind() {
		case reflect.Slice:
			switch v.Type().Elem().Kind() {
			case reflect.Uint8, reflect.Uint64:
				out = append(out, flip(v, 0), flip(v, v.Len()-1))
			case reflect.Ptr:
				// the members: keys and signatures
				for k := 0; k < v.Len(); k++ {
					out = append(out, mutators(v.Index(k))...)
				}
				if v.Len() > 1 {
					out = append(out, func() { v.Index(0).Set(v.Index(1)) })
				}
			}
		case reflect.Array:
			n := v.Len()
			out = append(out, flip(v, 0), flip(v, n/2), flip(v, n-1))
		}
	}
	return
}

// outcomeOf performs the call and shows everything it gave.
func (c *call) outcomeOf(p *pool) string {
	o := c.do(p)
	s := strings.Join(o.shown, " ; ")
	if c.meth != "" && inPlace(c.meth) {
		s += " => " + show(p.objs[c.args[0]].ptr)
	}
	return s
}

type argChange struct{ pos, obj, way int }

// changes lists the ways the arguments of a call can be changed.
func (c *call) changes() (out []argChange) {
	p := newPool()
	seen := map[int]bool{}
	for pos, a := range c.args {
		if seen[a] {
			continue
		}
		seen[a] = true
		for n := range p.changers(a) {
			out = append(out, argChange{pos, a, n})
		}
	}
	return
}

// ChildChanged performs a call on changed arguments only, each in its own
// pool, the last change first.
func ChildChanged(n int) []string {
	c := calls()[n]
	chs := c.changes()
	out := make([]string, len(chs)+1)
	for k := len(chs) - 1; k >= 0; k-- {
		p := newPool()
		p.changers(chs[k].obj)[chs[k].way]()
		out[k] = c.outcomeOf(p)
	}
	out[len(chs)] = c.outcomeOf(newPool())
	return out
}

// changedBetween: the call, a change of an argument in place, the call again;
// against a process that never saw the unchanged arguments.
func changedBetween(t *core.T, cs []*call, i int64) {
	c := cs[i]
	chs := c.changes()
	if len(chs) == 0 {
		return
	}
	var want []string
	if err := child(&want, "changed", fmt.Sprint(i)); err != nil {
		t.Failf("%s on changed arguments: %v", c, err)
	}
	for k, ch := range chs {
		p := newPool()
		if s := c.outcomeOf(p); s != want[len(chs)] && (c.meth == "" || !inPlace(c.meth)) {
			t.Failf("%s gives %s, in another process %s", c, clip(s), clip(want[len(chs)]))
		}
		if c.meth != "" && inPlace(c.meth) {
			// the call itself changed the receiver: look at the object the
			// call left, changed, against one made anew
			t.State(1)
			continue
		}
		p.changers(ch.obj)[ch.way]()
		s := c.outcomeOf(p)
		t.Eval(true)
		t.State(2)
		t.Trans(3)
		t.Trace(1)
		if s != want[k] {
			t.Failf("%s; argument %d changed in place (way %d); %s gives %s; without the first call %s", c, ch.pos, ch.way, c, clip(s), clip(want[k]))
		}
		if s := c.outcomeOf(newPool()); s != want[len(chs)] {
			t.Failf("%s gives %s after a call with changed arguments (argument %d, way %d), in another process %s", c, clip(s), ch.pos, ch.way, clip(want[len(chs)]))
		}
	}
}

// users are calls that take the object, one for every operation and argument
// position.
func users(cs []*call, obj int) (out []*call) {
	seen := map[string]bool{}
	for _, c := range cs {
		for pos, a := range c.args {
			if a != obj {
				continue
			}
			k := fmt.Sprint(c.meth, "|", pos, "|")
			if c.meth == "" {
				k += c.name[:strings.Index(c.name, "(")]
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, c)
			}
		}
	}
	return
}

// usedThenChanged: every use of an object, a change of it in place, every
// other use, against the other use without the first.
func usedThenChanged(t *core.T, cs []*call, obj int, f *call, every int) {
	us := users(cs, obj)
	n := len(newPool().changers(obj))
	for way := 0; way < n; way++ {
		for k, g := range us {
			if k%every != way%every {
				continue
			}
			p := newPool()
			p.changers(obj)[way]()
			want := g.outcomeOf(p)
			p = newPool()
			f.do(p)
			// an in-place f moves the object: start from what a new one would be
			if f.meth != "" && inPlace(f.meth) {
				q := newPool()
				f.do(q)
				q.changers(obj)[way]()
				p.changers(obj)[way]()
				if a, b := show(p.objs[obj].ptr), show(q.objs[obj].ptr); a != b {
					t.Failf("%s and a change (way %d) give %s and %s", f, way, clip(a), clip(b))
				}
				a, b := g.outcomeOf(p), g.outcomeOf(p)
				if (g.meth == "" || !inPlace(g.meth)) && a != b {
					t.Failf("%s; change (way %d); %s gives %s, then %s", f, way, g, clip(a), clip(b))
				}
			} else {
				p.changers(obj)[way]()
				if got := g.outcomeOf(p); got != want {
					t.Failf("%s; %s changed in place (way %d); %s gives %s; without the first call %s", f, p.objs[obj].name, way, g, clip(got), clip(want))
				}
			}
			t.Eval(true)
			t.State(2)
			t.Trans(3)
			t.Trace(1)
		}
	}
}

// single: one call, then every way of changing its results, then every way of
// changing its arguments.
func single(t *core.T, c *call, consts []string) {
	p := c.mk()
	state := p.showAll()
	t.State(1)
	o, state := step(t, c, p, state, consts, "")
	t.State(1)
	// once more with the same objects, where nothing changed: same outcome
	if c.meth == "" || !inPlace(c.meth) {
		_, state = step(t, c, p, state, consts, c.String()+"; ")
	}
	if nonAlias(c.name) {
		return
	}
	for k, r := range o.res {
		for n := range mutators(r) {
			// change the result
			q := c.mk()
			s0 := q.showAll()
			o2 := c.do(q)
			s1 := q.showAll()
			_ = s0
			mutators(o2.res[k])[n]()
			s2 := q.showAll()
			t.Eval(true)
			t.State(1)
			t.Trans(1)
			for i := range s2 {
				if s1[i] != s2[i] {
					t.Failf("changing result %d of %s in place (way %d) changed %s from %s to %s", k, c, n, q.objs[i].name, clip(s1[i]), clip(s2[i]))
				}
			}
			checkConsts(t, consts, fmt.Sprintf("changing result %d of %s in place (way %d)", k, c, n))
			for k2, r2 := range o2.res {
				if k2 != k && show(r2) != o2.shown[k2] {
					t.Failf("changing result %d of %s in place changed result %d", k, c, k2)
				}
			}
			// and the call again
			o3 := c.do(q)
			if (c.meth == "" || !inPlace(c.meth)) && strings.Join(o3.shown, ";") != strings.Join(o2.shown, ";") {
				t.Failf("%s gives %s, and after its result was changed in place %s", c, clip(strings.Join(o2.shown, ";")), clip(strings.Join(o3.shown, ";")))
			}
		}
	}
	// change each argument: the results stay
	hasPtr := false
	for _, r := range o.res {
		if len(mutators(r)) > 0 {
			hasPtr = true
		}
	}
	if !hasPtr {
		return
	}
	for pos, a := range c.args {
		if p.objs[a].ro {
			continue
		}
		for n := range mutators(p.objs[a].ptr) {
			q := c.mk()
			o2 := c.do(q)
			mutators(q.objs[a].ptr)[n]()
			t.Eval(true)
			t.State(1)
			t.Trans(1)
			for k, r := range o2.res {
				if show(r) != o2.shown[k] {
					t.Failf("changing argument %d of %s in place (way %d) afterwards changed its result %d from %s to %s", pos, c, n, k, clip(o2.shown[k]), clip(show(r)))
				}
			}
		}
	}
}

// Child is entered by a process that performs all calls in a given order and
// prints a digest of each outcome.
func Child(args []string) {
	if args[0] == "changed" {
		n, _ := strconv.Atoi(args[1])
		b, _ := json.Marshal(ChildChanged(n))
		os.Stdout.Write(b)
		return
	}
	cs := calls()
	idx := order(args[0], len(cs))
	out := make([]string, len(cs))
	for _, i := range idx {
		p := newPool()
		o := cs[i].do(p)
		s := strings.Join(o.shown, ";")
		if cs[i].meth != "" && inPlace(cs[i].meth) {
			s += "=>" + show(p.objs[cs[i].args[0]].ptr)
		}
		h := sha256.Sum256([]byte(s))
		out[i] = fmt.Sprintf("%x", h[:8])
	}
	b, _ := json.Marshal(map[string]interface{}{"out": out, "consts": constants()})
	os.Stdout.Write(b)
}

func order(kind string, n int) (idx []int) {
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	switch kind {
	case "reverse":
		sort.Slice(idx, func(a, b int) bool { return idx[a] > idx[b] })
	case "evens":
		sort.Slice(idx, func(a, b int) bool {
			if idx[a]%2 != idx[b]%2 {
				return idx[a]%2 == 0
			}
			return idx[a] < idx[b]
		})
	case "half":
		for i := range idx {
			idx[i] = (i + n/2) % n
		}
	case "twice":
		idx = append(idx, idx...)
	}
	return
}

type childOut struct {
	Out    []string `json:"out"`
	Consts []string `json:"consts"`
}

func runChild(kind string) (c childOut, err error) {
	err = child(&c, kind)
	return
}

func child(v interface{}, args ...string) error {
	cmd := exec.Command(os.Args[0], append([]string{"-child"}, args...)...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v: %s", err, clip(se.String()))
	}
	return json.Unmarshal(so.Bytes(), v)
}

func init() {
	core.Register("C17", func(tier string) []core.Space {
		thorough := tier == "thorough"
		cs := calls()
		consts := constants()
		var sp []core.Space
		port := int64(3)
		sp = append(sp, core.Space{Name: "single calls and aliasing", N: int64(len(cs)), Portable: port, Run: func(t *core.T, i int64) {
			if t.WantSample() {
				t.Sample("%s, then its results and its arguments changed in every way", cs[i])
			}
			single(t, cs[i], consts)
		}})
		es := callsOn(edgePool)
		sp = append(sp, core.Space{Name: "single calls on unusual values", N: int64(len(es)), Portable: port, Run: func(t *core.T, i int64) {
			if t.WantSample() {
				t.Sample("%s, then its results and its arguments changed in every way", es[i])
			}
			single(t, es[i], consts)
		}})
		sp = append(sp, pureLists(tier))
		kinds := []string{"reverse", "evens", "half", "twice"}
		sp = append(sp, core.Space{Name: "orders of all calls", N: int64(len(kinds)), Portable: 4, Run: func(t *core.T, i int64) {
			a, err := runChild("forward")
			if err != nil {
				t.Failf("all calls in order: %v", err)
			}
			b, err := runChild(kinds[i])
			if err != nil {
				t.Failf("all calls in order %q: %v", kinds[i], err)
			}
			t.State(int64(len(a.Out)))
			t.Trans(int64(len(a.Out)))
			for k := range a.Out {
				t.Eval(true)
				if a.Out[k] != b.Out[k] {
					t.Failf("%s has different outcomes when all %d calls are made in order and in order %q", cs[k], len(cs), kinds[i])
				}
			}
			for k := range a.Consts {
				if a.Consts[k] != consts[k] || b.Consts[k] != consts[k] {
					t.Failf("exported value %s differs after all calls", a.Consts[k-1])
				}
			}
		}})
		sp = append(sp, core.Space{Name: "a call, a change of an argument, the call again", N: int64(len(cs)), Portable: port * 2, Run: func(t *core.T, i int64) {
			changedBetween(t, cs, i)
		}})
		type use struct {
			obj int
			f   *call
		}
		var uses []use
		for i, o := range newPool().objs {
			if k := o.ptr.Elem().Kind(); !o.ro && k == reflect.Struct {
				for _, f := range users(cs, i) {
					uses = append(uses, use{i, f})
				}
			}
		}
		sparse := 3
		if thorough {
			sparse = 1
		}
		sp = append(sp, core.Space{Name: "a use, a change, another use", N: int64(len(uses)), Portable: port * 3, Run: func(t *core.T, i int64) {
			usedThenChanged(t, cs, uses[i].obj, uses[i].f, sparse)
		}})
		// pairs: a first call, then every cheap call that involves an object the
		// first one touched, all on the same pool
		cheap := func(c *call) bool {
			for _, w := range []string{"Pairing", "Verify", "Hash", "Sign", "Prepared", "Miller", "FinalExp", "ScaleByCofactor", "PrivToPub", "Subgroup", "Decompress", "Deserialize", "SWU", "SWEncode", "ClearH", "PointFromX", "Exp(", "Mul(", "MulFR(", "MulBig(", "String("} {
				if strings.Contains(c.name, w) {
					return false
				}
			}
			return true
		}
		var first []*call
		for _, c := range cs {
			if c.meth != "" && inPlace(c.meth) || thorough && cheap(c) {
				first = append(first, c)
			}
		}
		sp = append(sp, core.Space{Name: "pairs on one pool", N: int64(len(first)), Portable: port, Run: func(t *core.T, i int64) {
			a := first[i]
			touched := map[int]bool{}
			for _, x := range a.args {
				touched[x] = true
			}
			n := 0
			for k, b := range cs {
				if !cheap(b) {
					continue
				}
				hit := false
				for _, x := range b.args {
					hit = hit || touched[x]
				}
				if !hit || (!thorough && (k+int(i))%4 != 0) {
					continue
				}
				p := newPool()
				st := p.showAll()
				_, st = step(t, a, p, st, consts, "")
				_, st = step(t, b, p, st, consts, a.String()+"; ")
				n++
			}
			t.State(int64(2 * n))
			t.Trace(int64(n))
		}})
		// the expensive calls: a, b, a on one pool
		var heavy []*call
		seen := map[string]int{}
		for _, c := range cs {
			if cheap(c) || strings.Contains(c.name, "String(") {
				continue
			}
			op := c.meth + "|" + c.name[:strings.Index(c.name, "(")]
			if max := 2; seen[op] < max || thorough {
				heavy = append(heavy, c)
			}
			seen[op]++
		}
		every := 12
		if thorough {
			every = 1
		}
		sp = append(sp, core.Space{Name: "expensive calls around each other", N: int64(len(heavy)), Portable: port * 2, Run: func(t *core.T, i int64) {
			a := heavy[i]
			n := 0
			for k, b := range heavy {
				if (k+int(i))%every != 0 {
					continue
				}
				p := newPool()
				st := p.showAll()
				_, st = step(t, a, p, st, consts, "")
				_, st = step(t, b, p, st, consts, a.String()+"; ")
				_, st = step(t, a, p, st, consts, a.String()+"; "+b.String()+"; ")
				n++
			}
			t.State(int64(3 * n))
			t.Trace(int64(n))
		}})
		// long walks over one evolving pool
		walks := int64(16)
		if thorough {
			walks = 256
		}
		sp = append(sp, core.Space{Name: "walks", N: walks, Portable: 2, Run: func(t *core.T, i int64) {
			p := newPool()
			st := p.showAll()
			n := len(cs)
			at := int(i) * 37 % n
			stride := []int{1, 7, 11, 13, 17, 19, 23, 29}[i%8]
			var hist []string
			steps := 250
			for k := 0; k < steps; k++ {
				c := cs[at%n]
				at += stride
				if !cheap(c) && k%5 != 0 {
					continue
				}
				hist = append(hist, c.String())
				if len(hist) > 4 {
					hist = hist[1:]
				}
				_, st = step(t, c, p, st, consts, fmt.Sprintf("walk %d, step %d, after %v: ", i, k, hist))
				t.State(1)
			}
		}})
		return sp
	})
}
