//go:build go1.21

package ref

// Steered is a ProgPoW dataset and L1 cache chosen while the reference runs: at the
// first use of a word it may be picked so that the register it is merged into takes
// an awkward value.
type Steered struct {
	seed    uint64
	percent uint64
	n       uint64
	l1      []uint32
	l1Set   []bool
	items   map[uint32]*[64]uint32
	itemSet map[uint32]*[64]bool
	Count   int
}

func NewSteered(seed uint64, percent, words int) *Steered {
	s := &Steered{seed: seed, percent: uint64(percent), l1: make([]uint32, words), l1Set: make([]bool, words),
		items: map[uint32]*[64]uint32{}, itemSet: map[uint32]*[64]bool{}}
	for i := range s.l1 {
		s.l1[i] = uint32(mix(seed ^ uint64(i)<<20))
	}
	return s
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (s *Steered) pick(a, sel, plain uint32) uint32 {
	s.n++
	r := mix(s.seed ^ s.n<<8 ^ 0x5a)
	if r%100 >= s.percent {
		return plain
	}
	s.Count++
	r /= 100
	var v uint32
	switch r % 6 {
	case 0:
		v = 0
	case 1:
		v = 0xffffffff
	case 2:
		v = 1 << (r / 6 % 32)
	case 3:
		v = uint32(r / 6 % 70)
	case 4:
		v = ^uint32(r / 6 % 70)
	default:
		v = a
	}
	return PPUnmerge(a, v, sel)
}

func (s *Steered) L1(o, a, sel uint32) uint32 {
	if !s.l1Set[o] {
		s.l1Set[o] = true
		s.l1[o] = s.pick(a, sel, s.l1[o])
	}
	return s.l1[o]
}

func (s *Steered) item(i uint32) *[64]uint32 {
	w := s.items[i]
	if w == nil {
		w = new([64]uint32)
		for k := range w {
			w[k] = uint32(mix(s.seed ^ uint64(i)*64 + uint64(k) + 1<<50))
		}
		s.items[i] = w
		s.itemSet[i] = new([64]bool)
	}
	return w
}

func (s *Steered) Word(i uint32, k int, a, sel uint32) uint32 {
	w := s.item(i)
	if set := s.itemSet[i]; !set[k] {
		set[k] = true
		w[k] = s.pick(a, sel, w[k])
	}
	return w[k]
}

// Freeze returns the chosen L1 words and dataset as plain data.
func (s *Steered) Freeze() (l1 []uint32, item func(uint32) []uint32) {
	return append([]uint32{}, s.l1...), func(i uint32) []uint32 {
		w := *s.item(i)
		return w[:]
	}
}
