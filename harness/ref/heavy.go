//go:build go1.21

package ref

import "encoding/binary"

const rankPrime = 1<<31 - 1

// Rank64 is the exact-enough rank of a small integer matrix: Gaussian elimination
// modulo the prime 2^31-1. A rank deficit modulo p of a full-rank integer matrix
// needs p to divide the determinant, about one chance in 2^31.
func Rank64(m *[64][64]uint64) int {
	a := *m
	rank := 0
	for col := 0; col < 64 && rank < 64; col++ {
		piv := -1
		for r := rank; r < 64; r++ {
			if a[r][col] != 0 {
				piv = r
				break
			}
		}
		if piv < 0 {
			continue
		}
		a[rank], a[piv] = a[piv], a[rank]
		inv := powmod(a[rank][col], rankPrime-2, rankPrime)
		for r := rank + 1; r < 64; r++ {
			if a[r][col] == 0 {
				continue
			}
			f := a[r][col] * inv % rankPrime
			for c := col; c < 64; c++ {
				a[r][c] = (a[r][c] + (rankPrime-f)*a[rank][c]) % rankPrime
			}
		}
		rank++
	}
	return rank
}

// HeavyMatrix returns the first full-rank matrix of the seed and how many were drawn.
func HeavyMatrix(seed []byte) (*[64][64]uint64, int) {
	var x Xoshiro
	for i := range x {
		x[i] = binary.LittleEndian.Uint64(seed[i*8:])
	}
	for tries := 1; ; tries++ {
		var m [64][64]uint64
		for i := range m {
			for j := 0; j < 64; j += 16 {
				v := x.Next()
				for k := 0; k < 16; k++ {
					m[i][j+k] = v % 16
					v /= 16
				}
			}
		}
		if Rank64(&m) == 64 {
			return &m, tries
		}
	}
}

// HeavyHash is kHeavyHash; the all-zero hash has no matrix and must not be passed.
func HeavyHash(hash []byte, timestamp int64, nonce uint64) []byte {
	m, _ := HeavyMatrix(hash)
	h := binary.LittleEndian.AppendUint64(append([]byte{}, hash...), uint64(timestamp))
	h = append(h, make([]byte, 32)...)
	h = binary.LittleEndian.AppendUint64(h, nonce)
	pow := CShake256(h, []byte("ProofOfWorkHash"), 32)
	var v, p [64]uint64
	for i, b := range pow {
		v[2*i], v[2*i+1] = uint64(b/16), uint64(b%16)
	}
	for i := range p {
		for j := range v {
			p[i] += m[i][j] * v[j]
		}
		p[i] >>= 10
	}
	out := make([]byte, 32)
	for i := range out {
		out[i] = pow[i] ^ byte(p[2*i]*16+p[2*i+1])
	}
	d := CShake256(out, []byte("HeavyHash"), 32)
	for i := range out {
		out[i] = d[31-i]
	}
	return out
}
