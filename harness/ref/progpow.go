//go:build go1.21

package ref

import (
	"encoding/binary"
	"math/bits"
)

// Kiss99 is Marsaglia's generator as used by ProgPoW.
type Kiss99 struct{ Z, W, Jsr, Jcong uint32 }

func (k *Kiss99) Next() uint32 {
	k.Z = 36969*(k.Z%65536) + k.Z/65536
	k.W = 18000*(k.W%65536) + k.W/65536
	mwc := k.Z<<16 + k.W
	k.Jsr ^= k.Jsr << 17
	k.Jsr ^= k.Jsr >> 13
	k.Jsr ^= k.Jsr << 5
	k.Jcong = 69069*k.Jcong + 1234567
	return (mwc ^ k.Jcong) + k.Jsr
}

// PPMath and PPMerge are ProgPoW's random operations.
func PPMath(a, b, r uint32) uint32 {
	switch r % 11 {
	case 0:
		return a + b
	case 1:
		return a * b
	case 2:
		hi, _ := bits.Mul32(a, b)
		return hi
	case 3:
		if a < b {
			return a
		}
		return b
	case 4:
		return bits.RotateLeft32(a, int(b%32))
	case 5:
		return bits.RotateLeft32(a, -int(b%32))
	case 6:
		return a & b
	case 7:
		return a | b
	case 8:
		return a ^ b
	case 9:
		return uint32(bits.LeadingZeros32(a) + bits.LeadingZeros32(b))
	}
	return uint32(bits.OnesCount32(a) + bits.OnesCount32(b))
}

func PPMerge(a, b, r uint32) uint32 {
	x := int((r>>16)%31) + 1
	switch r % 4 {
	case 0:
		return a*33 + b
	case 1:
		return (a ^ b) * 33
	case 2:
		return bits.RotateLeft32(a, x) ^ b
	}
	return bits.RotateLeft32(a, -x) ^ b
}

const fnvBasis = 0x811c9dc5

// PPParams are the ProgPoW parameters; one DAG item is always 64 words.
type PPParams struct {
	Period                            uint64
	Lanes, Regs, Rounds, Cache, Maths int
	CacheWords                        uint32
}

var (
	RavenPP  = PPParams{3, 16, 32, 64, 11, 18, 4096}
	FiroPP   = PPParams{1, 16, 32, 64, 11, 18, 4096}
	ravenPad = []byte("rAVENCOINKAWPOW") // the first letter is lower case in the chain's constants
)

// PPLanes fills the initial mix for a header seed.
func PPLanes(seed uint64, lanes, regs int) [][]uint32 {
	mix := make([][]uint32, lanes)
	for l := range mix {
		z := Fnv1a(fnvBasis, uint32(seed))
		w := Fnv1a(z, uint32(seed>>32))
		js := Fnv1a(w, uint32(l))
		jc := Fnv1a(js, uint32(l))
		k := Kiss99{z, w, js, jc}
		mix[l] = make([]uint32, regs)
		for i := range mix[l] {
			mix[l][i] = k.Next()
		}
	}
	return mix
}

type ppProgram struct {
	k        Kiss99
	src, dst []uint32
	si, di   int
}

func newProgram(seed uint64, regs int) *ppProgram {
	z := Fnv1a(fnvBasis, uint32(seed))
	w := Fnv1a(z, uint32(seed>>32))
	js := Fnv1a(w, uint32(seed))
	jc := Fnv1a(js, uint32(seed>>32))
	p := &ppProgram{k: Kiss99{z, w, js, jc}}
	for i := 0; i < regs; i++ {
		p.src, p.dst = append(p.src, uint32(i)), append(p.dst, uint32(i))
	}
	for i := regs - 1; i > 0; i-- {
		j := p.k.Next() % uint32(i+1)
		p.dst[i], p.dst[j] = p.dst[j], p.dst[i]
		j = p.k.Next() % uint32(i+1)
		p.src[i], p.src[j] = p.src[j], p.src[i]
	}
	return p
}

func (p *ppProgram) nextSrc() uint32 { p.si++; return p.src[(p.si-1)%len(p.src)] }
func (p *ppProgram) nextDst() uint32 { p.di++; return p.dst[(p.di-1)%len(p.dst)] }

// PPSource supplies the words a ProgPoW program reads. The register value the word
// is about to be merged into and the merge selector are passed along, so that a
// generator can choose the word at its first use.
type PPSource interface {
	L1(offset, a, sel uint32) uint32
	Word(item uint32, k int, a, sel uint32) uint32
}

// PPRound is one progPowLoop over all lanes, in place.
func PPRound(c PPParams, prog uint64, loop uint32, mix [][]uint32, datasetSize uint64, src PPSource) {
	p := newProgram(prog, c.Regs)
	g := uint32(uint64(mix[int(loop)%c.Lanes][0]) % (datasetSize / 256))
	loads := 64 / c.Lanes
	for i := 0; i < c.Cache || i < c.Maths; i++ {
		if i < c.Cache {
			s, d := p.nextSrc(), p.nextDst()
			r := p.k.Next()
			for l := range mix {
				mix[l][d] = PPMerge(mix[l][d], src.L1(mix[l][s]%c.CacheWords, mix[l][d], r), r)
			}
		}
		if i < c.Maths {
			n := uint32(c.Regs)
			sr := p.k.Next() % (n * (n - 1))
			s1, s2 := sr%n, sr/n
			if s2 >= s1 {
				s2++
			}
			r1 := p.k.Next()
			d := p.nextDst()
			r2 := p.k.Next()
			for l := range mix {
				mix[l][d] = PPMerge(mix[l][d], PPMath(mix[l][s1], mix[l][s2], r1), r2)
			}
		}
	}
	for i := 0; i < loads; i++ {
		d := uint32(0)
		if i > 0 {
			d = p.nextDst()
		}
		r := p.k.Next()
		for l := range mix {
			w := src.Word(g, ((l^int(loop))%c.Lanes)*loads+i, mix[l][d], r)
			mix[l][d] = PPMerge(mix[l][d], w, r)
		}
	}
}

// ppFixed is a plain dataset and L1 cache.
type ppFixed struct {
	l1    []uint32
	item  func(uint32) []uint32
	last  uint32
	words []uint32
}

func (f *ppFixed) L1(offset, _, _ uint32) uint32 { return f.l1[offset] }
func (f *ppFixed) Word(item uint32, k int, _, _ uint32) uint32 {
	if f.words == nil || f.last != item {
		f.last, f.words = item, f.item(item)
	}
	return f.words[k]
}

// PPHash is the ProgPoW mix hash.
func PPHash(c PPParams, height, seed, datasetSize uint64, src PPSource) []byte {
	mix := PPLanes(seed, c.Lanes, c.Regs)
	for r := 0; r < c.Rounds; r++ {
		PPRound(c, height/c.Period, uint32(r), mix, datasetSize, src)
	}
	out := [8]uint32{}
	for i := range out {
		out[i] = fnvBasis
	}
	for l := range mix {
		h := uint32(fnvBasis)
		for _, v := range mix[l] {
			h = Fnv1a(h, v)
		}
		out[l%8] = Fnv1a(out[l%8], h)
	}
	return Bytes(out[:])
}

// PPUnmerge returns the word that makes PPMerge(a, word, sel) equal v.
func PPUnmerge(a, v, sel uint32) uint32 {
	x := int((sel>>16)%31) + 1
	switch sel % 4 {
	case 0:
		return v - a*33
	case 1:
		return a ^ v*0x3e0f83e1 // the inverse of 33 modulo 2^32
	case 2:
		return bits.RotateLeft32(a, x) ^ v
	}
	return bits.RotateLeft32(a, -x) ^ v
}

func ppWith(c PPParams, header []byte, height, nonce, datasetSize uint64, item func(uint32) []uint32, l1 []uint32, initPad, finPad []uint32) (mixHash, digest []byte) {
	var st [25]uint32
	copy(st[:], Words(header))
	st[8], st[9] = uint32(nonce), uint32(nonce>>32)
	copy(st[10:], initPad)
	KeccakF800(&st)
	seed := append([]uint32{}, st[:8]...)
	mixHash = PPHash(c, height, uint64(st[0])|uint64(st[1])<<32, datasetSize, &ppFixed{l1: l1, item: item})
	st = [25]uint32{}
	copy(st[:], seed)
	copy(st[8:], Words(mixHash))
	copy(st[16:], finPad)
	KeccakF800(&st)
	for _, w := range st[:8] {
		digest = binary.LittleEndian.AppendUint32(digest, w)
	}
	return
}

func KawPow(header []byte, height, nonce, datasetSize uint64, item func(uint32) []uint32, l1 []uint32) ([]byte, []byte) {
	var pad []uint32
	for _, b := range ravenPad {
		pad = append(pad, uint32(b))
	}
	return ppWith(RavenPP, header, height, nonce, datasetSize, item, l1, pad, pad[:9])
}

func FiroPow(header []byte, height, nonce, datasetSize uint64, item func(uint32) []uint32, l1 []uint32) ([]byte, []byte) {
	ini, fin := make([]uint32, 15), make([]uint32, 9)
	ini[0], ini[8] = 1, 0x80008081
	fin[1], fin[8] = 1, 0x80008081
	return ppWith(FiroPP, header, height, nonce, datasetSize, item, l1, ini, fin)
}

// PPSeed is the seed whose generators start with the given z and w.
func PPSeed(z, w uint32) uint64 {
	inv := uint32(1)
	for i := 0; i < 5; i++ {
		inv *= 2 - 0x01000193*inv
	}
	lo := z*inv ^ 0x811c9dc5
	hi := w*inv ^ z
	return uint64(hi)<<32 | uint64(lo)
}

// PPSeedLow is the seed with the given low half and w.
func PPSeedLow(lo, w uint32) uint64 {
	z := (lo ^ 0x811c9dc5) * 0x01000193
	s := PPSeed(z, w)
	return s
}
