package checks

import (
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sync"

	"verifharness/ref"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"
)

// scheme gives both signature schemes one face; signatures, public keys and
// secret keys are passed as interface{} (always pointers).
type scheme struct {
	name   string
	sg, pg *grp // groups of signatures and of public keys
	domain bool // has the variants with a domain

	sk       func(v *big.Int) interface{}
	skBytes  func(sk interface{}) [32]byte
	skOf     func(b [32]byte) interface{}
	skDerive func(b [32]byte) interface{}
	skFR     func(sk interface{}) *bls.FR
	skStr    func(sk interface{}) string
	randKey  func(r io.Reader) (interface{}, error)
	pub      func(sk interface{}) interface{}
	sign     func(m []byte, sk interface{}) interface{}
	signD    func(m [32]byte, sk interface{}, d [8]byte) interface{}
	verify   func(m []byte, p, s interface{}) bool
	verifyD  func(m [32]byte, p, s interface{}, d [8]byte) bool
	newSig   func(a interface{}) interface{}
	newPub   func(a interface{}) interface{}
	sigPoint func(s interface{}) interface{}
	pubPoint func(p interface{}) interface{}
	sigBytes func(s interface{}) []byte
	pubBytes func(p interface{}) []byte
	sigOf    func(b []byte) (interface{}, error)
	pubOf    func(b []byte) (interface{}, error)
	sigStr   func(s interface{}) string
	pubStr   func(p interface{}) string
	pubEq    func(a, b interface{}) bool
	sigCopy  func(s interface{}) interface{}
	pubCopy  func(p interface{}) interface{}
	sigAgg   func(s, o interface{})
	pubAgg   func(p, o interface{})
	aggSigs  func(s []interface{}) interface{}
	aggPubs  func(p []interface{}) interface{}
	emptySig func() interface{}
	emptyPub func() interface{}
	vAgg     func(s interface{}, p []interface{}, m [][]byte) bool
	vCommon  func(s interface{}, p []interface{}, m []byte) bool
	vAggD    func(s interface{}, p []interface{}, m [][32]byte, d [8]byte) bool
	vCommonD func(s interface{}, p []interface{}, m [32]byte, d [8]byte) bool
	isNilSig func(s interface{}) bool
	isNilPub func(p interface{}) bool
	h        func(m []byte) pt
	hd       func(m [32]byte, d [8]byte) pt
}

func sigs1(v []interface{}) []*g1pubs.Signature {
	if v == nil {
		return nil
	}
	out := make([]*g1pubs.Signature, len(v))
	for i := range v {
		out[i] = v[i].(*g1pubs.Signature)
	}
	return out
}
func pubs1(v []interface{}) []*g1pubs.PublicKey {
	if v == nil {
		return nil
	}
	out := make([]*g1pubs.PublicKey, len(v))
	for i := range v {
		out[i] = v[i].(*g1pubs.PublicKey)
	}
	return out
}
func sigs2(v []interface{}) []*g2pubs.Signature {
	if v == nil {
		return nil
	}
	out := make([]*g2pubs.Signature, len(v))
	for i := range v {
		out[i] = v[i].(*g2pubs.Signature)
	}
	return out
}
func pubs2(v []interface{}) []*g2pubs.PublicKey {
	if v == nil {
		return nil
	}
	out := make([]*g2pubs.PublicKey, len(v))
	for i := range v {
		out[i] = v[i].(*g2pubs.PublicKey)
	}
	return out
}

// inRoom runs f on a list that has spare room behind it, and checks that the
// list and the room came through unchanged.
func inRoom(list, f interface{}) interface{} {
	l, call := reflect.ValueOf(list), reflect.ValueOf(f)
	if l.IsNil() {
		return call.Call([]reflect.Value{l})[0].Interface()
	}
	n := l.Len()
	big := reflect.MakeSlice(l.Type(), n+3, n+3)
	reflect.Copy(big, l)
	r := call.Call([]reflect.Value{big.Slice3(0, n, n+3)})[0]
	for i := 0; i < n+3; i++ {
		was := reflect.Zero(l.Type().Elem())
		if i < n {
			was = l.Index(i)
		}
		if header(big.Index(i).Interface()) != header(was.Interface()) {
			panic("a call reordered, replaced or extended the caller's list")
		}
	}
	return r.Interface()
}

// header is a value that tells list members apart: the object or slice itself,
// not its contents.
func header(x interface{}) interface{} {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice {
		if v.Kind() == reflect.Slice {
			return [2]uintptr{v.Pointer(), uintptr(v.Len())}
		}
		return v.Pointer()
	}
	return x
}

func callPubs1(p []interface{}, f func(l []*g1pubs.PublicKey) bool) bool {
	return inRoom(pubs1(p), f).(bool)
}
func callPubs2(p []interface{}, f func(l []*g2pubs.PublicKey) bool) bool {
	return inRoom(pubs2(p), f).(bool)
}

var s1 = &scheme{
	name: "g1pubs", sg: g2g, pg: g1g, domain: true,
	sk:       func(v *big.Int) interface{} { return g1pubs.KeyFromFQRepr(R4(v)) },
	skBytes:  func(sk interface{}) [32]byte { return sk.(*g1pubs.SecretKey).Serialize() },
	skOf:     func(b [32]byte) interface{} { return g1pubs.DeserializeSecretKey(b) },
	skDerive: func(b [32]byte) interface{} { return g1pubs.DeriveSecretKey(b) },
	skFR: func(sk interface{}) *bls.FR {
		if sk.(*g1pubs.SecretKey) == nil {
			return nil
		}
		return sk.(*g1pubs.SecretKey).GetFRElement()
	},
	skStr:   func(sk interface{}) string { return sk.(*g1pubs.SecretKey).String() },
	randKey: func(r io.Reader) (interface{}, error) { return g1pubs.RandKey(r) },
	pub:     func(sk interface{}) interface{} { return g1pubs.PrivToPub(sk.(*g1pubs.SecretKey)) },
	sign:    func(m []byte, sk interface{}) interface{} { return g1pubs.Sign(m, sk.(*g1pubs.SecretKey)) },
	signD: func(m [32]byte, sk interface{}, d [8]byte) interface{} {
		return g1pubs.SignWithDomain(m, sk.(*g1pubs.SecretKey), d)
	},
	verify: func(m []byte, p, s interface{}) bool {
		return g1pubs.Verify(m, p.(*g1pubs.PublicKey), s.(*g1pubs.Signature))
	},
	verifyD: func(m [32]byte, p, s interface{}, d [8]byte) bool {
		return g1pubs.VerifyWithDomain(m, p.(*g1pubs.PublicKey), s.(*g1pubs.Signature), d)
	},
	newSig:   func(a interface{}) interface{} { return g1pubs.NewSignatureFromG2(a.(*bls.G2Affine)) },
	newPub:   func(a interface{}) interface{} { return g1pubs.NewPublicKeyFromG1(a.(*bls.G1Affine)) },
	sigPoint: func(s interface{}) interface{} { return s.(*g1pubs.Signature).GetPoint() },
	pubPoint: func(p interface{}) interface{} { return p.(*g1pubs.PublicKey).GetPoint() },
	sigBytes: func(s interface{}) []byte { b := s.(*g1pubs.Signature).Serialize(); return b[:] },
	pubBytes: func(p interface{}) []byte { b := p.(*g1pubs.PublicKey).Serialize(); return b[:] },
	sigOf: func(b []byte) (interface{}, error) {
		var a [96]byte
		copy(a[:], b)
		return g1pubs.DeserializeSignature(a)
	},
	pubOf: func(b []byte) (interface{}, error) {
		var a [48]byte
		copy(a[:], b)
		return g1pubs.DeserializePublicKey(a)
	},
	sigStr:   func(s interface{}) string { return s.(*g1pubs.Signature).String() },
	pubStr:   func(p interface{}) string { return p.(*g1pubs.PublicKey).String() },
	pubEq:    func(a, b interface{}) bool { return a.(*g1pubs.PublicKey).Equals(*b.(*g1pubs.PublicKey)) },
	sigCopy:  func(s interface{}) interface{} { return s.(*g1pubs.Signature).Copy() },
	pubCopy:  func(p interface{}) interface{} { return p.(*g1pubs.PublicKey).Copy() },
	sigAgg:   func(s, o interface{}) { s.(*g1pubs.Signature).Aggregate(o.(*g1pubs.Signature)) },
	pubAgg:   func(p, o interface{}) { p.(*g1pubs.PublicKey).Aggregate(o.(*g1pubs.PublicKey)) },
	aggSigs:  func(s []interface{}) interface{} { return inRoom(sigs1(s), g1pubs.AggregateSignatures) },
	aggPubs:  func(p []interface{}) interface{} { return inRoom(pubs1(p), g1pubs.AggregatePublicKeys) },
	emptySig: func() interface{} { return g1pubs.NewAggregateSignature() },
	emptyPub: func() interface{} { return g1pubs.NewAggregatePubkey() },
	vAgg: func(s interface{}, p []interface{}, m [][]byte) bool {
		return callPubs1(p, func(l []*g1pubs.PublicKey) bool {
			return inRoom(m, func(m [][]byte) bool { return s.(*g1pubs.Signature).VerifyAggregate(l, m) }).(bool)
		})
	},
	vCommon: func(s interface{}, p []interface{}, m []byte) bool {
		return callPubs1(p, func(l []*g1pubs.PublicKey) bool { return s.(*g1pubs.Signature).VerifyAggregateCommon(l, m) })
	},
	vAggD: func(s interface{}, p []interface{}, m [][32]byte, d [8]byte) bool {
		return callPubs1(p, func(l []*g1pubs.PublicKey) bool {
			return inRoom(m, func(m [][32]byte) bool { return s.(*g1pubs.Signature).VerifyAggregateWithDomain(l, m, d) }).(bool)
		})
	},
	vCommonD: func(s interface{}, p []interface{}, m [32]byte, d [8]byte) bool {
		return callPubs1(p, func(l []*g1pubs.PublicKey) bool {
			return s.(*g1pubs.Signature).VerifyAggregateCommonWithDomain(l, m, d)
		})
	},
	isNilSig: func(s interface{}) bool { return s.(*g1pubs.Signature) == nil },
	isNilPub: func(p interface{}) bool { return p.(*g1pubs.PublicKey) == nil },
	h:        func(m []byte) pt { return hashPt(2, m) },
	hd:       hashPtD,
}

var s2s = &scheme{
	name: "g2pubs", sg: g1g, pg: g2g,
	sk:       func(v *big.Int) interface{} { return g2pubs.KeyFromFQRepr(R4(v)) },
	skBytes:  func(sk interface{}) [32]byte { return sk.(*g2pubs.SecretKey).Serialize() },
	skOf:     func(b [32]byte) interface{} { return g2pubs.DeserializeSecretKey(b) },
	skDerive: func(b [32]byte) interface{} { return g2pubs.DeriveSecretKey(b) },
	skFR: func(sk interface{}) *bls.FR {
		if sk.(*g2pubs.SecretKey) == nil {
			return nil
		}
		return sk.(*g2pubs.SecretKey).GetFRElement()
	},
	skStr:   func(sk interface{}) string { return sk.(*g2pubs.SecretKey).String() },
	randKey: func(r io.Reader) (interface{}, error) { return g2pubs.RandKey(r) },
	pub:     func(sk interface{}) interface{} { return g2pubs.PrivToPub(sk.(*g2pubs.SecretKey)) },
	sign:    func(m []byte, sk interface{}) interface{} { return g2pubs.Sign(m, sk.(*g2pubs.SecretKey)) },
	verify: func(m []byte, p, s interface{}) bool {
		return g2pubs.Verify(m, p.(*g2pubs.PublicKey), s.(*g2pubs.Signature))
	},
	newSig:   func(a interface{}) interface{} { return g2pubs.NewSignatureFromG1(a.(*bls.G1Affine)) },
	newPub:   func(a interface{}) interface{} { return g2pubs.NewPublicKeyFromG2(a.(*bls.G2Affine)) },
	sigPoint: func(s interface{}) interface{} { return s.(*g2pubs.Signature).GetPoint() },
	pubPoint: func(p interface{}) interface{} { return p.(*g2pubs.PublicKey).GetPoint() },
	sigBytes: func(s interface{}) []byte { b := s.(*g2pubs.Signature).Serialize(); return b[:] },
	pubBytes: func(p interface{}) []byte { b := p.(*g2pubs.PublicKey).Serialize(); return b[:] },
	sigOf: func(b []byte) (interface{}, error) {
		var a [48]byte
		copy(a[:], b)
		return g2pubs.DeserializeSignature(a)
	},
	pubOf: func(b []byte) (interface{}, error) {
		var a [96]byte
		copy(a[:], b)
		return g2pubs.DeserializePublicKey(a)
	},
	sigStr:   func(s interface{}) string { return s.(*g2pubs.Signature).String() },
	pubStr:   func(p interface{}) string { return p.(*g2pubs.PublicKey).String() },
	pubEq:    func(a, b interface{}) bool { return a.(*g2pubs.PublicKey).Equals(*b.(*g2pubs.PublicKey)) },
	sigCopy:  func(s interface{}) interface{} { return s.(*g2pubs.Signature).Copy() },
	pubCopy:  func(p interface{}) interface{} { return p.(*g2pubs.PublicKey).Copy() },
	sigAgg:   func(s, o interface{}) { s.(*g2pubs.Signature).Aggregate(o.(*g2pubs.Signature)) },
	pubAgg:   func(p, o interface{}) { p.(*g2pubs.PublicKey).Aggregate(o.(*g2pubs.PublicKey)) },
	aggSigs:  func(s []interface{}) interface{} { return inRoom(sigs2(s), g2pubs.AggregateSignatures) },
	aggPubs:  func(p []interface{}) interface{} { return inRoom(pubs2(p), g2pubs.AggregatePublicKeys) },
	emptySig: func() interface{} { return g2pubs.NewAggregateSignature() },
	emptyPub: func() interface{} { return g2pubs.NewAggregatePubkey() },
	vAgg: func(s interface{}, p []interface{}, m [][]byte) bool {
		return callPubs2(p, func(l []*g2pubs.PublicKey) bool {
			return inRoom(m, func(m [][]byte) bool { return s.(*g2pubs.Signature).VerifyAggregate(l, m) }).(bool)
		})
	},
	vCommon: func(s interface{}, p []interface{}, m []byte) bool {
		return callPubs2(p, func(l []*g2pubs.PublicKey) bool { return s.(*g2pubs.Signature).VerifyAggregateCommon(l, m) })
	},
	isNilSig: func(s interface{}) bool { return s.(*g2pubs.Signature) == nil },
	isNilPub: func(p interface{}) bool { return p.(*g2pubs.PublicKey) == nil },
	h:        func(m []byte) pt { return hashPt(1, m) },
}

var schemes = []*scheme{s1, s2s}

var hashCache, mulCache sync.Map

// hashPt is the model's hash point of a message.
func hashPt(g int, m []byte) pt {
	key := fmt.Sprintf("%d %x", g, m)
	if v, ok := hashCache.Load(key); ok {
		return v.(pt)
	}
	var p pt
	if g == 1 {
		p = pt{g: 1, p1: ref.Hash1(m)}
	} else {
		p = pt{g: 2, p2: ref.Hash2(m)}
	}
	hashCache.Store(key, p)
	return p
}

func hashPtD(m [32]byte, d [8]byte) pt {
	key := fmt.Sprintf("d %x %x", m, d)
	if v, ok := hashCache.Load(key); ok {
		return v.(pt)
	}
	p := pt{g: 2, p2: ref.Hash2Domain(m, d)}
	hashCache.Store(key, p)
	return p
}

// mulC is a cached model multiplication.
func mulC(p pt, k *big.Int) pt {
	k = new(big.Int).Mod(k, br)
	key := fmt.Sprintf("%d %s %s", p.g, p.enc(), k)
	if v, ok := mulCache.Load(key); ok {
		return v.(pt)
	}
	q := p.mul(k)
	mulCache.Store(key, q)
	return q
}

// sigFor makes a signature object for a model point, in one of several
// representations and ways of construction.
func (s *scheme) sigFor(p pt, way int) interface{} {
	switch way % 4 {
	case 1:
		// as a sum
		x := s.newSig(s.sg.a(p.add(s.sg.gen.neg())))
		s.sigAgg(x, s.newSig(s.sg.a(s.sg.gen)))
		return x
	case 2:
		x, err := s.sigOf([]byte(p.enc()))
		if err != nil {
			panic(err)
		}
		return x
	case 3:
		// a sum of three with a blank first
		g := s.sg.gen.mul(bi(5))
		return s.aggSigs([]interface{}{s.newSig(s.sg.a(g)), s.newSig(s.sg.a(p.add(g.neg()).add(g.neg()))), s.newSig(s.sg.a(g))})
	}
	return s.newSig(s.sg.a(p))
}

// pubFor does the same for public keys; k is the secret.
func (s *scheme) pubFor(k *big.Int, way int) interface{} {
	p := mulC(s.pg.gen, k)
	switch way % 5 {
	case 1:
		x := s.newPub(s.pg.a(p.add(s.pg.gen.neg())))
		s.pubAgg(x, s.newPub(s.pg.a(s.pg.gen)))
		return x
	case 2:
		x, err := s.pubOf([]byte(p.enc()))
		if err != nil {
			panic(err)
		}
		return x
	case 3:
		g := s.pg.gen.mul(bi(5))
		return s.aggPubs([]interface{}{s.newPub(s.pg.a(g)), s.newPub(s.pg.a(p.add(g.neg()).add(g.neg()))), s.newPub(s.pg.a(g))})
	case 4:
		return s.newPub(s.pg.a(p))
	}
	return s.pub(s.sk(k))
}

func (s *scheme) sigIs(x interface{}, want pt) bool {
	return string(s.sigBytes(x)) == want.enc() && s.sg.ofJ(s.sigPoint(x)).eq(want)
}

func (s *scheme) pubIs(x interface{}, want pt) bool {
	return string(s.pubBytes(x)) == want.enc() && s.pg.ofJ(s.pubPoint(x)).eq(want)
}
