//go:build go1.21

package ref

import (
	"encoding/binary"
	"math/bits"
)

var blakeIV = [8]uint64{
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
}

var blakeSigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

type blakeState struct {
	h   [8]uint64
	t   uint64
	buf []byte
}

func newBlake(size int, person []byte) *blakeState {
	var p [64]byte
	p[0], p[2], p[3] = byte(size), 1, 1
	copy(p[48:64], person)
	s := &blakeState{}
	for i := range s.h {
		s.h[i] = blakeIV[i] ^ binary.LittleEndian.Uint64(p[i*8:])
	}
	return s
}

func (s *blakeState) compress(block []byte, last bool) {
	var m, v [16]uint64
	for i := range m {
		m[i] = binary.LittleEndian.Uint64(block[i*8:])
	}
	copy(v[:8], s.h[:])
	copy(v[8:], blakeIV[:])
	v[12] ^= s.t
	if last {
		v[14] = ^v[14]
	}
	for r := 0; r < 12; r++ {
		sg := &blakeSigma[r%10]
		for q := 0; q < 8; q++ {
			a, b, c, d := q, 4+q, 8+q, 12+q
			if q >= 4 {
				a, b, c, d = q-4, 4+(q-4+1)%4, 8+(q-4+2)%4, 12+(q-4+3)%4
			}
			v[a] += v[b] + m[sg[2*q]]
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + m[sg[2*q+1]]
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
	}
	for i := range s.h {
		s.h[i] ^= v[i] ^ v[i+8]
	}
}

// write absorbs all full blocks that are certainly not the last one.
func (s *blakeState) write(p []byte) {
	s.buf = append(s.buf, p...)
	for len(s.buf) > 128 {
		s.t += 128
		s.compress(s.buf[:128], false)
		s.buf = s.buf[128:]
	}
}

func (s blakeState) sum(size int) []byte {
	var block [128]byte
	copy(block[:], s.buf)
	s.t += uint64(len(s.buf))
	s.compress(block[:], true)
	out := make([]byte, 0, 64)
	for _, x := range s.h {
		out = binary.LittleEndian.AppendUint64(out, x)
	}
	return out[:size]
}

// Blake2b is unkeyed BLAKE2b with a personalization string (RFC 7693).
func Blake2b(data, person []byte, size int) []byte {
	s := newBlake(size, person)
	s.write(data)
	return s.sum(size)
}
