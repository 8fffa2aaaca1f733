//go:build go1.21

package ref

import (
	"encoding/binary"
	"sync"
)

// Seed is the n-th Keccak-256 iterate of 32 zero bytes.
func Seed(n uint64) []byte {
	// every 4096th is noted
	seedMu.Lock()
	defer seedMu.Unlock()
	for uint64(len(seedMarks)) <= n>>12 {
		s := seedMarks[len(seedMarks)-1]
		for i := 0; i < 4096; i++ {
			s = Keccak256(s)
		}
		seedMarks = append(seedMarks, s)
	}
	s := append([]byte{}, seedMarks[n>>12]...)
	for n &= 4095; n > 0; n-- {
		s = Keccak256(s)
	}
	return s
}

var (
	seedMu    sync.Mutex
	seedMarks = [][]byte{make([]byte, 32)}
)

// Cache is the Ethash verification cache (mkcache) as little-endian words.
func Cache(size uint64, seed []byte, rounds int) []uint32 {
	return Words(CacheBytes(size, seed, rounds))
}

// CacheBytes is the same as bytes.
func CacheBytes(size uint64, seed []byte, rounds int) []byte {
	rows := int(size / 64)
	o := make([]byte, rows*64)
	keccak512into(o, seed)
	for i := 1; i < rows; i++ {
		keccak512into(o[i*64:], o[(i-1)*64:i*64])
	}
	var t [64]byte
	for r := 0; r < rounds; r++ {
		for i := 0; i < rows; i++ {
			v := int(binary.LittleEndian.Uint32(o[i*64:]) % uint32(rows))
			p := i - 1
			if p < 0 {
				p = rows - 1
			}
			for b := range t {
				t[b] = o[p*64+b] ^ o[v*64+b]
			}
			keccak512into(o[i*64:], t[:])
		}
	}
	return o
}

// Words reads little-endian 32-bit words.
func Words(b []byte) []uint32 {
	w := make([]uint32, len(b)/4)
	for i := range w {
		w[i] = binary.LittleEndian.Uint32(b[i*4:])
	}
	return w
}

// Bytes writes little-endian 32-bit words.
func Bytes(w []uint32) []byte {
	b := make([]byte, 0, len(w)*4)
	for _, x := range w {
		b = binary.LittleEndian.AppendUint32(b, x)
	}
	return b
}

// Item is calc_dataset_item: one 64-byte node as 16 words.
func Item(cache []uint32, index, parents uint32) [16]uint32 {
	return ItemOf(uint32(len(cache)/16), func(i uint32) []uint32 { return cache[uint64(i)*16:] }, index, parents)
}

// ItemOf is Item for a cache that is read row by row.
func ItemOf(rows uint32, row func(uint32) []uint32, index, parents uint32) [16]uint32 {
	var mix [16]uint32
	copy(mix[:], row(index%rows))
	mix[0] ^= index
	mix = hash512w(mix)
	for j := uint32(0); j < parents; j++ {
		p := row(Fnv1(index^j, mix[j%16]) % rows)
		for k := range mix {
			mix[k] = Fnv1(mix[k], p[k])
		}
	}
	return hash512w(mix)
}

func hash512w(w [16]uint32) (out [16]uint32) {
	var b [64]byte
	for i, x := range w {
		binary.LittleEndian.PutUint32(b[i*4:], x)
	}
	keccak512into(b[:], b[:])
	for i := range out {
		out[i] = binary.LittleEndian.Uint32(b[i*4:])
	}
	return
}

// Items concatenates count consecutive nodes starting at index*count.
func Items(cache []uint32, index, count, parents uint32) []uint32 {
	var out []uint32
	for i := uint32(0); i < count; i++ {
		it := Item(cache, index*count+i, parents)
		out = append(out, it[:]...)
	}
	return out
}

// L1 is the first words of the dataset.
func L1(cache []uint32, words int, parents uint32) []uint32 {
	var out []uint32
	for i := uint32(0); int(i) < words/16; i++ {
		it := Item(cache, i, parents)
		out = append(out, it[:]...)
	}
	return out
}

// Hashimoto is the light Ethash evaluation: mix hash and result.
func Hashimoto(header []byte, nonce, datasetSize uint64, cache []uint32, parents uint32) (mixHash, result []byte) {
	s := Keccak512(binary.LittleEndian.AppendUint64(append([]byte{}, header...), nonce))
	sw := Words(s)
	var mix [32]uint32
	for i := range mix {
		mix[i] = sw[i%16]
	}
	pages := datasetSize / 128
	for i := uint32(0); i < 64; i++ {
		p := uint32(uint64(Fnv1(i^sw[0], mix[i%32])) % pages)
		a, b := Item(cache, 2*p, parents), Item(cache, 2*p+1, parents)
		for k := 0; k < 16; k++ {
			mix[k] = Fnv1(mix[k], a[k])
			mix[16+k] = Fnv1(mix[16+k], b[k])
		}
	}
	for i := 0; i < 8; i++ {
		m := mix[4*i : 4*i+4]
		mixHash = binary.LittleEndian.AppendUint32(mixHash, Fnv1(Fnv1(Fnv1(m[0], m[1]), m[2]), m[3]))
	}
	return mixHash, Keccak256(append(append([]byte{}, s...), mixHash...))
}
