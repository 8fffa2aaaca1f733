//go:build go1.21

package ref

import (
	"encoding/binary"
	"math/bits"
)

// From Nervos RFC 0010: the 16x16 bit matrix, the circulant exponents and the
// sentence whose SHAKE-256 output gives the injection constants.
var eagleMatrix = [256]uint32{
	1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 1,
	0, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 1,
	0, 0, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 1,
	0, 0, 0, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1,
	1, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1, 1, 1, 0,
	1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 1,
	1, 0, 1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 1, 0,
	1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1,
	0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 0, 0, 1,
	0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 0, 1,
	0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 1,
	0, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1,
	1, 1, 1, 1, 0, 0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 0,
	0, 1, 1, 1, 1, 0, 0, 0, 0, 1, 0, 0, 1, 1, 0, 0,
	0, 0, 1, 1, 1, 1, 0, 0, 0, 0, 1, 0, 0, 1, 1, 0,
	1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1,
}

var eagleRot = [48]int{
	0, 2, 4, 0, 13, 22, 0, 4,
	19, 0, 3, 14, 0, 27, 31, 0,
	3, 8, 0, 17, 26, 0, 3, 12,
	0, 18, 22, 0, 12, 18, 0, 4,
	7, 0, 4, 31, 0, 12, 27, 0,
	7, 17, 0, 7, 8, 0, 1, 13,
}

var eagleConst = Words(Shake256([]byte("The various ways in which the knowledge on which people base their plan is"+
	" communicated to them is the crucial problem for any theory explaining the economic"+
	" process, and the problem of what is the best way to utilizing knowledge initially "+
	"dispersed among all the people is at least one of the main problems of economic policy"+
	" - or of designing an efficient economic system."), 43*16*4))

func eaglePermute(s *[16]uint32, rounds int) {
	for r := 0; r < rounds; r++ {
		var n [16]uint32
		for j := range n {
			for k := range s {
				if eagleMatrix[k*16+j] == 1 {
					n[j] ^= s[k]
				}
			}
			n[j] = n[j] ^ bits.RotateLeft32(n[j], eagleRot[3*j+1]) ^ bits.RotateLeft32(n[j], eagleRot[3*j+2])
			n[j] ^= eagleConst[r*16+j]
		}
		for j := 0; j < 16; j += 2 {
			a := bits.RotateLeft32(n[j]+n[j+1], 8)
			n[j], n[j+1] = a, a+bits.RotateLeft32(n[j+1], 24)
		}
		*s = n
	}
}

// Eaglesong is the sponge with the given rate and output length in bytes.
func Eaglesong(rounds, rate, outLen int, delim byte, input []byte) []byte {
	msg := append(append([]byte{}, input...), delim)
	// Reference implementation detail: a partly filled word is not left-aligned;
	// bytes after the delimiter are simply absent from the big-endian integer.
	var s [16]uint32
	for len(msg) > 0 {
		n := rate
		if n > len(msg) {
			n = len(msg)
		}
		for j := 0; j*4 < n; j++ {
			var w uint32
			for k := j * 4; k < j*4+4 && k < n; k++ {
				w = w<<8 | uint32(msg[k])
			}
			s[j] ^= w
		}
		eaglePermute(&s, rounds)
		msg = msg[n:]
	}
	var out []byte
	for len(out) < outLen {
		for j := 0; j < rate/4; j++ {
			out = binary.LittleEndian.AppendUint32(out, s[j])
		}
		eaglePermute(&s, rounds)
	}
	return out[:outLen]
}
