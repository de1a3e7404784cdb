package checks

import (
	"encoding/binary"
	"fmt"
	"math/big"

	"verifharness/core"
)

// Inputs whose derived values are rare, found by searches over hundreds of
// millions (messages, seeds) and thousands of millions (digests) of counters.
// kind: "digest" leading zero bytes of the first hash of the message,
// "raw-short" of the 64-byte value before its reduction, "short" and
// "near-top" leading zero bytes of the reduced value and of its negative,
// "trailing" zero bytes at its end, "ones" leading 0xff bytes.
type rare struct {
	kind  string
	group int // which of the derived values
	n     int // how many bytes
	k     uint64
}

// messages of eight bytes, the counter big-endian
var rareMsgs = []rare{
	{"digest", 0, 1, 186}, {"digest", 0, 2, 4169}, {"digest", 0, 3, 6804234}, {"near-top", 2, 1, 12},
	{"near-top", 2, 2, 6003}, {"near-top", 2, 3, 85590}, {"near-top", 2, 4, 156261084}, {"near-top", 3, 1, 52},
	{"near-top", 3, 2, 3065}, {"near-top", 3, 3, 368396}, {"near-top", 0, 1, 34}, {"near-top", 0, 2, 2390},
	{"near-top", 0, 3, 5920398}, {"near-top", 0, 4, 193424}, {"near-top", 1, 1, 35}, {"near-top", 1, 2, 15471},
	{"near-top", 1, 3, 222314}, {"near-top", 1, 4, 164494266}, {"raw-short", 0, 1, 573}, {"raw-short", 0, 2, 24844},
	{"raw-short", 0, 3, 26530372}, {"raw-short", 3, 1, 574}, {"raw-short", 3, 2, 16136}, {"raw-short", 3, 3, 16164547},
	{"raw-short", 1, 1, 269}, {"raw-short", 1, 2, 43526}, {"raw-short", 1, 3, 39307854}, {"raw-short", 2, 1, 165},
	{"raw-short", 2, 2, 12723}, {"raw-short", 2, 3, 69965875}, {"short", 0, 1, 30}, {"short", 0, 2, 1739},
	{"short", 0, 3, 3099334}, {"short", 3, 1, 2}, {"short", 3, 2, 356}, {"short", 3, 3, 1686488},
	{"short", 3, 4, 259319110}, {"short", 1, 1, 34}, {"short", 1, 2, 2471}, {"short", 1, 3, 2294479},
	{"short", 1, 4, 29841251}, {"short", 2, 1, 8}, {"short", 2, 2, 9128}, {"short", 2, 3, 2702293},
	{"trailing", 2, 1, 380}, {"trailing", 2, 2, 267247}, {"trailing", 2, 3, 11458344}, {"trailing", 3, 1, 5},
	{"trailing", 3, 2, 26370}, {"trailing", 3, 3, 633885}, {"trailing", 0, 1, 765}, {"trailing", 0, 2, 59646},
	{"trailing", 0, 3, 10588831}, {"trailing", 1, 1, 622}, {"trailing", 1, 2, 31549}, {"trailing", 1, 3, 26579252},
}

// seeds with the counter in the last eight bytes
var rareSeeds = []rare{
	{"near-top", 0, 1, 128}, {"near-top", 0, 2, 91906}, {"near-top", 0, 3, 4054573}, {"near-top", 0, 4, 327677612},
	{"raw-short", 0, 1, 844}, {"raw-short", 0, 2, 191992}, {"raw-short", 0, 3, 1928063}, {"raw-short", 0, 4, 286535626},
	{"short", 0, 1, 6}, {"short", 0, 2, 11873}, {"short", 0, 3, 4102935}, {"trailing", 0, 1, 113},
	{"trailing", 0, 2, 272924}, {"trailing", 0, 3, 54262783},
}

// digests with the counter in the first eight bytes, zero domain
var rareDigests = []rare{
	{"ones", 1, 1, 91}, {"ones", 1, 2, 60879}, {"ones", 1, 3, 1226979}, {"ones", 1, 4, 1939957510},
	{"ones", 2, 1, 266}, {"ones", 2, 2, 95413}, {"ones", 2, 3, 20422919}, {"short", 1, 1, 105},
	{"short", 1, 2, 170624}, {"short", 1, 3, 1316620}, {"short", 2, 1, 168}, {"short", 2, 2, 115285},
	{"short", 2, 3, 10026540}, {"short", 2, 4, 3460446108}, {"trailing", 2, 1, 94}, {"trailing", 2, 2, 66944},
	{"trailing", 2, 3, 53190962}, {"trailing", 2, 4, 2615620172}, {"trailing", 1, 1, 209}, {"trailing", 1, 2, 9671},
	{"trailing", 1, 3, 286327},
}

func leading(b []byte, c byte) (n int) {
	for n < len(b) && b[n] == c {
		n++
	}
	return
}

func trailingZeros(b []byte) (n int) {
	for n < len(b) && b[len(b)-1-n] == 0 {
		n++
	}
	return
}

// is panics when the derived value is not as rare as the list says.
func (r rare) is(wide []byte, m *big.Int, size int) {
	v := new(big.Int).Mod(new(big.Int).SetBytes(wide), m)
	full := func(x *big.Int) []byte {
		b := x.Bytes()
		return append(make([]byte, size-len(b)), b...)
	}
	n := 0
	switch r.kind {
	case "raw-short":
		n = leading(wide, 0)
	case "short":
		n = leading(full(v), 0)
	case "near-top":
		n = leading(full(new(big.Int).Sub(m, v)), 0)
	case "trailing":
		n = trailingZeros(full(v))
	case "ones":
		n = leading(wide, 0xff)
	}
	if n != r.n {
		panic(fmt.Sprintf("model: %v has %d", r, n))
	}
}

func (r rare) wide(base []byte, i byte) []byte {
	return append(sha2(base, []byte{i, 1}), sha2(base, []byte{i, 2})...)
}

func rareSpaces() []core.Space {
	return []core.Space{
		{Name: "messages with rare hash values", N: int64(len(rareMsgs)), Portable: 2, Run: func(t *core.T, i int64) {
			r := rareMsgs[i]
			m := make([]byte, 8)
			binary.BigEndian.PutUint64(m, r.k)
			base := sha2([]byte{1}, m)
			if r.kind == "digest" {
				if leading(base, 0) != r.n {
					panic("model: digest")
				}
			} else {
				r.is(r.wide(append(base, byte(r.group/2)), byte(1+r.group%2)), bq, 48)
			}
			hashMsg(t, m, 3)
		}},
		{Name: "scalars with rare values", N: int64(len(rareSeeds)), Run: func(t *core.T, i int64) {
			r := rareSeeds[i]
			var b [32]byte
			binary.BigEndian.PutUint64(b[24:], r.k)
			r.is(r.wide(append(sha2(b[:]), 0), 1), br, 32)
			hashScalar(t, b)
		}},
		{Name: "digests with rare hash values", N: int64(len(rareDigests)), Portable: 2, Run: func(t *core.T, i int64) {
			r := rareDigests[i]
			var b [32]byte
			var d [8]byte
			binary.BigEndian.PutUint64(b[:], r.k)
			h := sha2(b[:], d[:], []byte{byte(r.group)})
			switch r.kind {
			case "short":
				if leading(h, 0) != r.n {
					panic("model: short")
				}
			case "trailing":
				if trailingZeros(h) != r.n {
					panic("model: trailing")
				}
			default:
				if leading(h, 0xff) != r.n {
					panic("model: ones")
				}
			}
			hashDomain(t, b, d)
		}},
	}
}
