package checks

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/big"
)

// Different byte strings that common checksums and short hashes do not tell
// apart, for anything that is looked up by such a hash instead of by the value.

var shortHashes = []func([]byte) uint64{
	func(b []byte) uint64 { return uint64(crc32.ChecksumIEEE(b)) },
	func(b []byte) uint64 { return uint64(crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli))) },
	func(b []byte) uint64 { return uint64(adler32.Checksum(b)) },
	func(b []byte) uint64 { h := fnv.New32(); h.Write(b); return uint64(h.Sum32()) },
	func(b []byte) uint64 { h := fnv.New32a(); h.Write(b); return uint64(h.Sum32()) },
	func(b []byte) uint64 { s := sha256.Sum256(b); return uint64(binary.BigEndian.Uint32(s[:4])) },
	func(b []byte) uint64 { s := sha256.Sum256(b); return uint64(binary.LittleEndian.Uint32(s[:4])) << 1 },
	func(b []byte) uint64 { s := sha256.Sum256(b); return uint64(binary.BigEndian.Uint32(s[28:])) },
}

// birthday finds two different strings of n bytes with the same value of f.
func birthday(f func([]byte) uint64, n int) [2][]byte {
	seen := map[uint64][]byte{}
	for k := uint64(0); ; k++ {
		// spread over the whole string
		b := make([]byte, n)
		x := k*0x9e3779b97f4a7c15 + 1
		for i := range b {
			x ^= x >> 29
			x *= 0xbf58476d1ce4e5b9
			b[i] = byte(x >> 56)
		}
		h := f(b)
		if o, ok := seen[h]; ok && string(o) != string(b) {
			return [2][]byte{o, b}
		}
		seen[h] = b
	}
}

// affine finds two strings of n bytes with the same value of a function that
// is affine over GF(2).
func affine(f func([]byte) uint64, n int) [2][]byte {
	base := pattern(2, n)
	zero := f(make([]byte, n))
	type row struct {
		v uint64
		d []byte
	}
	var rows []row
	for i := 0; i < 8*n; i++ {
		d := make([]byte, n)
		d[i/8] = 1 << uint(i%8)
		r := row{f(d) ^ zero, d}
		for _, o := range rows {
			if r.v&(o.v&-o.v) != 0 {
				r.v ^= o.v
				for k := range r.d {
					r.d[k] ^= o.d[k]
				}
			}
		}
		if r.v == 0 {
			b := append([]byte{}, base...)
			for k := range b {
				b[k] ^= r.d[k]
			}
			return [2][]byte{base, b}
		}
		rows = append(rows, r)
	}
	panic("model: no collision")
}

var crc64s = []func([]byte) uint64{
	func(b []byte) uint64 { return crc64.Checksum(b, crc64.MakeTable(crc64.ISO)) },
	func(b []byte) uint64 { return crc64.Checksum(b, crc64.MakeTable(crc64.ECMA)) },
}

// sameHash lists pairs of messages.
func sameHash() (out [][2][]byte) {
	if v, ok := smallCache.Load("sameHash"); ok {
		return v.([][2][]byte)
	}
	for i, f := range shortHashes {
		out = append(out, birthday(f, []int{8, 12, 32}[i%3]))
	}
	for i, f := range crc64s {
		out = append(out, affine(f, []int{16, 32}[i%2]))
	}
	// 64 bits of FNV-1a: two known strings, and a string with the value zero,
	// which a zero byte keeps
	z := []byte{0xd5, 0x6b, 0xb9, 0x53, 0x42, 0x87, 0x08, 0x36}
	out = append(out, [2][]byte{[]byte("8yn0iYCKYHlIj4-BwPqk"), []byte("GReLUrM4wMqfg9yzV3KQ")}, [2][]byte{z, append(append([]byte{}, z...), 0)})
	// MD5
	a, _ := hex.DecodeString("d131dd02c5e6eec4693d9a0698aff95c2fcab58712467eab4004583eb8fb7f8955ad340609f4b30283e488832571415a085125e8f7cdc99fd91dbdf280373c5bd8823e3156348f5bae6dacd436c919c6dd53e2b487da03fd02396306d248cda0e99f33420f577ee8ce54b67080a80d1ec69821bcb6a8839396f9652b6ff72a70")
	b := append([]byte{}, a...)
	for _, i := range []int{19, 45, 59, 83, 109, 123} {
		b[i] ^= 0x80
	}
	out = append(out, [2][]byte{a, b})
	// polynomial hashes, of any width
	for _, m := range []int{31, 33, 37, 65, 131} {
		x := pattern(2, 24)
		x[9], x[10] = 7, 200
		y := append([]byte{}, x...)
		y[9], y[10] = x[9]+1, x[10]-byte(m)
		out = append(out, [2][]byte{x, y})
	}
	smallCache.Store("sameHash", out)
	return
}

// sameHashDigests lists pairs of 32-byte digests.
func sameHashDigests() (out [][2][32]byte) {
	if v, ok := smallCache.Load("sameHashDigests"); ok {
		return v.([][2][32]byte)
	}
	defer func() { smallCache.Store("sameHashDigests", out) }()
	put := func(p [2][]byte) {
		var d [2][32]byte
		copy(d[0][:], p[0])
		copy(d[1][:], p[1])
		out = append(out, d)
	}
	for _, f := range []int{0, 1, 4} {
		put(birthday(shortHashes[f], 32))
	}
	put(affine(crc64s[0], 32))
	put(affine(crc64s[1], 32))
	// halves exchanged, and equal sums and exclusive ors of the limbs
	a := pattern(2, 32)
	b := append(append([]byte{}, a[16:]...), a[:16]...)
	put([2][]byte{a, b})
	b = append([]byte{}, a...)
	b[5] ^= 1
	b[13] ^= 1
	put([2][]byte{a, b})
	return
}

// sameHashKeys lists pairs of small secret keys whose compressed public keys
// agree in the CRC-32, the 32-bit FNV-1a hash, or the first or last four bytes
// (searched).
func sameHashKeys(pub int) [][2]*big.Int {
	l := [][2]int64{{46038, 113838}, {28232, 37229}, {21435, 29854}, {24739, 50122}}
	if pub == 2 {
		l = [][2]int64{{6817, 68601}, {89313, 125787}, {34549, 37063}, {9017, 77777}}
	}
	var out [][2]*big.Int
	for _, p := range l {
		out = append(out, [2]*big.Int{bi(p[0]), bi(p[1])})
	}
	return out
}
