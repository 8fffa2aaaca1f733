//go:build go1.21

package ref

import (
	"encoding/binary"
	"math/bits"
)

// lfsrBit is rc(t) of FIPS 202: the output bit of the degree-8 LFSR.
func lfsrBit(t int) bool {
	r := uint16(1)
	for i := 0; i < t%255; i++ {
		r <<= 1
		if r&0x100 != 0 {
			r ^= 0x171
		}
	}
	return r&1 == 1
}

// keccakRC builds the iota constants for lane width 2^l from the LFSR.
func keccakRC(l, rounds int) []uint64 {
	out := make([]uint64, rounds)
	for r := range out {
		for j := 0; j <= l; j++ {
			if lfsrBit(j + 7*r) {
				out[r] |= 1 << ((1 << uint(j)) - 1)
			}
		}
	}
	return out
}

// keccakRot builds the rho offsets and the pi permutation by walking (x,y).
func keccakRot() (rot [25]int, pi [25]int) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = (t + 1) * (t + 2) / 2
		x, y = y, (2*x+3*y)%5
	}
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			pi[x+5*y] = y + 5*((2*x+3*y)%5)
		}
	}
	return
}

var (
	rc1600         = keccakRC(6, 24)
	rc800          = keccakRC(5, 22)
	rhoOff, piDest = keccakRot()
)

func keccakF1600(a *[25]uint64) {
	var b [25]uint64
	for r := 0; r < 24; r++ {
		c0 := a[0] ^ a[5] ^ a[10] ^ a[15] ^ a[20]
		c1 := a[1] ^ a[6] ^ a[11] ^ a[16] ^ a[21]
		c2 := a[2] ^ a[7] ^ a[12] ^ a[17] ^ a[22]
		c3 := a[3] ^ a[8] ^ a[13] ^ a[18] ^ a[23]
		c4 := a[4] ^ a[9] ^ a[14] ^ a[19] ^ a[24]
		d := [5]uint64{
			c4 ^ bits.RotateLeft64(c1, 1), c0 ^ bits.RotateLeft64(c2, 1), c1 ^ bits.RotateLeft64(c3, 1),
			c2 ^ bits.RotateLeft64(c4, 1), c3 ^ bits.RotateLeft64(c0, 1),
		}
		for y := 0; y < 25; y += 5 {
			b[piDest[y]] = bits.RotateLeft64(a[y]^d[0], rhoOff[y])
			b[piDest[y+1]] = bits.RotateLeft64(a[y+1]^d[1], rhoOff[y+1])
			b[piDest[y+2]] = bits.RotateLeft64(a[y+2]^d[2], rhoOff[y+2])
			b[piDest[y+3]] = bits.RotateLeft64(a[y+3]^d[3], rhoOff[y+3])
			b[piDest[y+4]] = bits.RotateLeft64(a[y+4]^d[4], rhoOff[y+4])
		}
		for y := 0; y < 25; y += 5 {
			b0, b1, b2, b3, b4 := b[y], b[y+1], b[y+2], b[y+3], b[y+4]
			a[y] = b0 ^ (^b1 & b2)
			a[y+1] = b1 ^ (^b2 & b3)
			a[y+2] = b2 ^ (^b3 & b4)
			a[y+3] = b3 ^ (^b4 & b0)
			a[y+4] = b4 ^ (^b0 & b1)
		}
		a[0] ^= rc1600[r]
	}
}

// KeccakF800 is Keccak-f[800]: 25 lanes of 32 bits, 22 rounds.
func KeccakF800(a *[25]uint32) {
	for r := 0; r < 22; r++ {
		var c, d [5]uint32
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				c[x] ^= a[x+5*y]
			}
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft32(c[(x+1)%5], 1)
		}
		var b [25]uint32
		for i := range a {
			b[piDest[i]] = bits.RotateLeft32(a[i]^d[i%5], rhoOff[i]%32)
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= uint32(rc800[r])
	}
}

// sponge absorbs data at the byte rate, pads with dom..0x80 and squeezes n bytes.
func sponge(rate int, dom byte, data []byte, n int) []byte {
	var st [25]uint64
	block := make([]byte, rate)
	xorIn := func(p []byte) {
		for i := 0; i < rate; i += 8 {
			st[i/8] ^= binary.LittleEndian.Uint64(p[i:])
		}
	}
	for len(data) >= rate {
		xorIn(data[:rate])
		keccakF1600(&st)
		data = data[rate:]
	}
	copy(block, data)
	block[len(data)] ^= dom
	block[rate-1] ^= 0x80
	xorIn(block)
	keccakF1600(&st)
	out := make([]byte, 0, n+rate)
	for {
		for i := 0; i < rate; i += 8 {
			out = binary.LittleEndian.AppendUint64(out, st[i/8])
		}
		if len(out) >= n {
			return out[:n]
		}
		keccakF1600(&st)
	}
}

func Keccak256(data []byte) []byte       { return sponge(136, 0x01, data, 32) }
func Keccak512(data []byte) []byte       { return sponge(72, 0x01, data, 64) }
func Shake256(data []byte, n int) []byte { return sponge(136, 0x1f, data, n) }

// keccak512into hashes a 64-byte (or shorter, <72) message without allocating.
func keccak512into(dst, msg []byte) {
	var st [25]uint64
	var blk [72]byte
	copy(blk[:], msg)
	blk[len(msg)] ^= 0x01
	blk[71] ^= 0x80
	for i := 0; i < 9; i++ {
		st[i] = binary.LittleEndian.Uint64(blk[i*8:])
	}
	keccakF1600(&st)
	for i := 0; i < 8; i++ {
		binary.LittleEndian.PutUint64(dst[i*8:], st[i])
	}
}

func leftEncode(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	i := 0
	for i < 7 && b[i] == 0 {
		i++
	}
	return append([]byte{byte(8 - i)}, b[i:]...)
}

// CShake256 is NIST SP 800-185 cSHAKE256 with an empty function name.
func CShake256(data, custom []byte, n int) []byte {
	if len(custom) == 0 {
		return Shake256(data, n)
	}
	pre := leftEncode(136)
	pre = append(pre, leftEncode(0)...)
	pre = append(pre, leftEncode(uint64(len(custom))*8)...)
	pre = append(pre, custom...)
	for len(pre)%136 != 0 {
		pre = append(pre, 0)
	}
	return sponge(136, 0x04, append(pre, data...), n)
}
