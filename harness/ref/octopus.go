//go:build go1.21

package ref

import "encoding/binary"

const octP = 1032193

func octGcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// octRemap maps a 64-bit number to a generator power 11^e with e coprime to p-1.
func octRemap(h uint64) uint64 {
	e := h%(octP-2) + 1
	for g := octGcd(e, octP-1); g != 1; g = octGcd(e, octP-1) {
		e /= g
	}
	return powmod(11, e, octP)
}

// OctopusDegenerate reports how many times the third coefficient is re-drawn.
func OctopusDegenerate(header []byte) int {
	a, b := octRemap(binary.LittleEndian.Uint64(header)), octRemap(binary.LittleEndian.Uint64(header[8:]))
	h := binary.LittleEndian.Uint64(header[16:])
	n := 0
	for b*b%octP == 4*a*octRemap(h)%octP {
		h++
		n++
	}
	return n
}

// Octopus is Conflux's proof of work over the light DAG.
func Octopus(header []byte, nonce, datasetSize uint64, cache []uint32, parents uint32) []byte {
	var k [4]uint64
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(header[i*8:])
	}
	a, b, w := octRemap(k[0]), octRemap(k[1]), octRemap(k[3])
	h := k[2]
	for b*b%octP == 4*a*octRemap(h)%octP {
		h++
	}
	c := octRemap(h)

	var d [1024]uint64
	for t := uint64(0); t < 32; t++ {
		s := Sip(k)
		s.Hash(2, 4, nonce-nonce%32+t)
		for j := uint64(0); j < 32; j++ {
			s.Round()
			d[j*32+t] = s.Xor() % (1 << 32) % octP
		}
	}

	var p [32]uint64
	var acc uint64
	for i := range p {
		we := powmod(w, nonce%32+32*uint64(i), octP)
		x := (a*(we*we%octP) + b*we + c) % octP
		pow, sum := uint64(1), uint64(0)
		for _, coef := range d {
			sum = (sum + coef*pow) % octP
			pow = pow * x % octP
		}
		p[i] = sum
		acc = Fnv1x64(acc, sum)
	}

	half := Keccak512(binary.LittleEndian.AppendUint64(append([]byte{}, header...), acc))
	hw := Words(half)
	var mix [64]uint32
	for i := range mix {
		mix[i] = hw[i%16]
	}
	pages := datasetSize / 256
	for i := uint32(0); i < 32; i++ {
		page := uint32(uint64(Fnv1(hw[0]^i^uint32(p[i]), mix[i])) % pages)
		for k, v := range Items(cache, page, 4, parents) {
			mix[k] = Fnv1(mix[k], v)
		}
	}
	out := append([]byte{}, half...)
	for i := 0; i < 8; i++ {
		fold := func(m []uint32) uint32 { return Fnv1(Fnv1(Fnv1(m[0], m[1]), m[2]), m[3]) }
		out = binary.LittleEndian.AppendUint32(out, Fnv1(fold(mix[4*i:]), fold(mix[32+4*i:])))
	}
	return Keccak256(out)
}

var octLogs map[uint64]uint64

// OctopusDegenerateWord returns a third header word that makes the quadratic
// degenerate for the first two, and false when there is none.
func OctopusDegenerateWord(v0, v1 uint64) (uint64, bool) {
	octMakeLogs()
	a, b := octRemap(v0), octRemap(v1)
	c := b * b % octP * powmod(4*a%octP, octP-2, octP) % octP
	e, ok := octLogs[c]
	if !ok || e == 0 {
		return 0, false
	}
	return e - 1, true
}

func octMakeLogs() {
	if octLogs != nil {
		return
	}
	octLogs = map[uint64]uint64{}
	x := uint64(1)
	for e := uint64(0); e < octP-1; e++ {
		if octGcd(e, octP-1) == 1 {
			octLogs[x] = e
		}
		x = x * 11 % octP
	}
}

// OctopusDegenerateRun is a first header word that makes every exponent that is
// a product of 2s, 3s and 7s degenerate, as those all yield 11 as c.
func OctopusDegenerateRun(v1 uint64) (uint64, bool) {
	octMakeLogs()
	b := octRemap(v1)
	e, ok := octLogs[b*b%octP*powmod(44, octP-2, octP)%octP]
	if !ok || e == 0 {
		return 0, false
	}
	return e - 1, true
}

// OctopusWord is a header word whose exponent, before common factors are divided
// out, is e (from 1 to 1032191).
func OctopusWord(e, lap uint64) uint64 { return e - 1 + lap*(octP-2) }

// OctopusOrder is the order of the group, 2^14 * 3^2 * 7.
const OctopusOrder = octP - 1
