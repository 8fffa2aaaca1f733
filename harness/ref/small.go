//go:build go1.21

package ref

import "math/bits"

const fnvPrime = 16777619

func Fnv1(u, v uint32) uint32    { return u*fnvPrime ^ v }
func Fnv1a(u, v uint32) uint32   { return (u ^ v) * fnvPrime }
func Fnv1x64(u, v uint64) uint64 { return u*fnvPrime ^ v }

// Sip is the SipHash state with the key words used directly as v0..v3.
type Sip [4]uint64

func (s *Sip) Round() {
	v0, v1, v2, v3 := s[0], s[1], s[2], s[3]
	v0 += v1
	v2 += v3
	v1 = bits.RotateLeft64(v1, 13) ^ v0
	v3 = bits.RotateLeft64(v3, 16) ^ v2
	v0 = bits.RotateLeft64(v0, 32)
	v2 += v1
	v0 += v3
	v1 = bits.RotateLeft64(v1, 17) ^ v2
	v3 = bits.RotateLeft64(v3, 21) ^ v0
	v2 = bits.RotateLeft64(v2, 32)
	*s = Sip{v0, v1, v2, v3}
}

// Hash runs c rounds for the message word and d finalization rounds.
func (s *Sip) Hash(c, d int, nonce uint64) {
	s[3] ^= nonce
	for i := 0; i < c; i++ {
		s.Round()
	}
	s[0] ^= nonce
	s[2] ^= 0xff
	for i := 0; i < d; i++ {
		s.Round()
	}
}

func (s Sip) Xor() uint64 { return s[0] ^ s[1] ^ s[2] ^ s[3] }

func SipNode(keys [4]uint64, nonce uint64, rot int) uint64 {
	s := Sip(keys)
	s.Hash(2, 4, nonce)
	return bits.RotateLeft64(s.Xor(), rot)
}

// SipBlock48s fills the whole 64-edge block that contains edge.
func SipBlock48s(keys [4]uint64, edge uint64) (out [64]uint64) {
	s := Sip(keys)
	first := edge - edge%64
	for i := range out {
		s.Hash(4, 8, first+uint64(i))
		out[i] = s.Xor()
	}
	for i := 0; i < 63; i++ {
		out[i] ^= out[63]
	}
	return
}

func SipBlock48(keys [4]uint64, edge uint64) uint64 { return SipBlock48s(keys, edge)[edge%64] }

// Xoshiro is xoshiro256++.
type Xoshiro [4]uint64

func (x *Xoshiro) Next() uint64 {
	r := bits.RotateLeft64(x[0]+x[3], 23) + x[0]
	t := x[1] << 17
	x[2] ^= x[0]
	x[3] ^= x[1]
	x[1] ^= x[2]
	x[0] ^= x[3]
	x[2] ^= t
	x[3] = bits.RotateLeft64(x[3], 45)
	return r
}

// mulmod and powmod work modulo any m < 2^64.
func mulmod(a, b, m uint64) uint64 {
	hi, lo := bits.Mul64(a%m, b%m)
	_, r := bits.Div64(hi, lo, m)
	return r
}

func powmod(a, e, m uint64) uint64 {
	r := uint64(1) % m
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulmod(r, a, m)
		}
		a = mulmod(a, a, m)
	}
	return r
}

// IsPrime is Miller-Rabin with a base set that is exact below 2^64.
func IsPrime(n uint64) bool {
	if n < 2 {
		return false
	}
	for _, p := range []uint64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37} {
		if n%p == 0 {
			return n == p
		}
	}
	d, s := n-1, 0
	for d%2 == 0 {
		d /= 2
		s++
	}
next:
	for _, a := range []uint64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37} {
		x := powmod(a, d, n)
		if x == 1 || x == n-1 {
			continue
		}
		for i := 1; i < s; i++ {
			x = mulmod(x, x, n)
			if x == n-1 {
				continue next
			}
		}
		return false
	}
	return true
}

// SizeAt is the Ethash size rule: the largest prime number of rows that fits
// strictly below init+growth*epoch, stepping down two rows at a time from one
// row below the linear bound, times the row size.
func SizeAt(init, growth, row, epoch uint64) uint64 {
	rows := (init+growth*epoch)/row - 1
	for !IsPrime(rows) {
		rows -= 2
	}
	return rows * row
}
