//go:build go1.21

package ref

import (
	"encoding/binary"
	"fmt"
	"math/bits"
)

// BeamKeys are the siphash keys of a header and extra nonce.
func BeamKeys(header, extra []byte) (k [4]uint64) {
	person := binary.LittleEndian.AppendUint32([]byte("Beam-PoW"), 448)
	person = binary.LittleEndian.AppendUint32(person, 5)
	h := Blake2b(append(append([]byte{}, header...), extra...), person, 32)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[i*8:])
	}
	return
}

// BeamLeaf is the 448-bit work string of an index, least significant word first.
func BeamLeaf(k [4]uint64, idx uint32) (w [7]uint64) {
	for i := range w {
		w[i] = SipNode(k, uint64(idx)<<3+uint64(i), 0)
	}
	return
}

// or25 ors a 25-bit value into a 512-bit string at a bit offset.
func or25(t *[8]uint64, v uint64, at uint) {
	if at >= 512 {
		return
	}
	t[at/64] |= v << (at % 64)
	if at%64 > 39 && at/64 < 7 {
		t[at/64+1] |= v >> (64 - at%64)
	}
}

// BeamMix replaces the low word before a round's collision.
func BeamMix(w *[7]uint64, idx []uint32, remLen uint) {
	var t [8]uint64
	copy(t[:], w[:])
	pad := int((512 - remLen + 24) / 25)
	for i := 0; i < pad && i < len(idx); i++ {
		or25(&t, uint64(idx[i]), remLen+uint(i)*25)
	}
	var r uint64
	for i, x := range t {
		r += bits.RotateLeft64(x, 29*(i+1)%64)
	}
	w[0] = bits.RotateLeft64(r, 24)
}

// BeamMerge is the XOR without the low 24 bits, cut to remLen bits.
func BeamMerge(a, b *[7]uint64, remLen uint) (w [7]uint64) {
	for i := range w {
		w[i] = (a[i] ^ b[i]) >> 24
		if i < 6 {
			w[i] |= (a[i+1] ^ b[i+1]) << 40
		}
	}
	for i := range w {
		at := uint(i) * 64
		if at >= remLen {
			w[i] = 0
		} else if remLen-at < 64 {
			w[i] &= 1<<(remLen-at) - 1
		}
	}
	return
}

// BeamLens gives the string length mixed in and left by rounds 1..5.
var BeamLens = [6][2]uint{{}, {448, 424}, {424, 400}, {400, 376}, {376, 288}, {288, 24}}

func BeamUnpack(soln []byte) []uint32 {
	idx := make([]uint32, 32)
	for i := range idx {
		for k := 0; k < 25; k++ {
			bit := i*25 + k
			idx[i] |= uint32(soln[bit/8]>>(bit%8)&1) << k
		}
	}
	return idx
}

func BeamPack(idx []uint32, extra []byte) []byte {
	out := make([]byte, 100, 104)
	for i, v := range idx {
		for k := 0; k < 25; k++ {
			bit := i*25 + k
			out[bit/8] |= byte(v>>k&1) << (bit % 8)
		}
	}
	return append(out, extra...)
}

// BeamVerify decides BeamHash III; why names a broken rule.
func BeamVerify(header, soln []byte) (bool, string) {
	k := BeamKeys(header, soln[100:104])
	idx := BeamUnpack(soln)
	seen := map[uint32]bool{}
	for _, v := range idx {
		if seen[v] {
			return false, "duplicate"
		}
		seen[v] = true
	}
	for lvl := 0; lvl < 5; lvl++ {
		h := 1 << lvl
		for i := 0; i < 32; i += 2 * h {
			if idx[i] > idx[i+h] {
				return false, fmt.Sprintf("order@%d", lvl)
			}
		}
	}
	rows := make([][7]uint64, 32)
	for i, v := range idx {
		rows[i] = BeamLeaf(k, v)
	}
	for round := 1; round <= 5; round++ {
		n := 1 << (round - 1)
		next := make([][7]uint64, len(rows)/2)
		for i := range rows {
			BeamMix(&rows[i], idx[i*n:(i+1)*n], BeamLens[round][0])
		}
		for i := range next {
			a, b := &rows[2*i], &rows[2*i+1]
			if (a[0]^b[0])&0xffffff != 0 {
				return false, fmt.Sprintf("collision@%d", round)
			}
			next[i] = BeamMerge(a, b, BeamLens[round][1])
		}
		rows = next
	}
	if rows[0] != [7]uint64{} {
		return false, "final"
	}
	return true, ""
}
