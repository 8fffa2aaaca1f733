//go:build go1.21

package ref

import (
	"encoding/binary"
	"fmt"
	"sort"
)

// EqParams selects an Equihash instance. Twist is the ZelHash leaf function.
type EqParams struct {
	N, K     uint32
	Personal string
	Twist    bool
}

func (p EqParams) Bits() uint32   { return p.N / (p.K + 1) }
func (p EqParams) SolLen() int    { return int((uint32(1) << p.K) * (p.Bits() + 1) / 8) }
func (p EqParams) Indices() int   { return 1 << p.K }
func (p EqParams) Leaves() uint32 { return 1 << (p.Bits() + 1) }
func (p EqParams) String() string {
	return fmt.Sprintf("(%d,%d,%q,twist=%v)", p.N, p.K, p.Personal, p.Twist)
}

// Leafer computes leaf strings, keeping the header's hash state between calls.
type Leafer struct {
	p      EqParams
	st     *blakeState
	outLen int
	sum    [16]uint32
	sumG   uint32
	sumOK  bool
	last   []byte
	lastG  uint32
}

func NewLeafer(p EqParams, header []byte) *Leafer {
	l := &Leafer{p: p, outLen: int(512/p.N) * int((p.N+7)/8)}
	person := binary.LittleEndian.AppendUint32([]byte(p.Personal), p.N)
	person = binary.LittleEndian.AppendUint32(person, p.K)
	l.st = newBlake(l.outLen, person)
	l.st.write(header)
	return l
}

func (l *Leafer) raw(g uint32) []byte {
	s := *l.st
	s.buf = append(append(make([]byte, 0, 256), l.st.buf...), byte(g), byte(g>>8), byte(g>>16), byte(g>>24))
	if len(s.buf) > 128 {
		s.t += 128
		s.compress(s.buf[:128], false)
		s.buf = s.buf[128:]
	}
	return s.sum(l.outLen)
}

// block is the hash output that holds the leaves of group g.
func (l *Leafer) block(g uint32) []byte {
	if l.last != nil && l.lastG == g {
		return l.last
	}
	var out []byte
	if !l.p.Twist {
		out = l.raw(g)
	} else {
		from := g - g%16
		if l.sumOK && l.sumG < g && l.sumG >= from {
			from = l.sumG + 1
		} else {
			l.sum = [16]uint32{}
		}
		for ; from <= g; from++ {
			for i, w := range Words(l.raw(from)) {
				l.sum[i] += w
			}
		}
		l.sumG, l.sumOK = g, true
		out = Bytes(l.sum[:])
		for i := 15; i < 64; i += 16 {
			out[i] &^= 7
		}
	}
	l.last, l.lastG = out, g
	return out
}

// Leaf splits leaf i into its K+1 segments of Bits() bits.
func (l *Leafer) Leaf(i uint32, seg []uint32) {
	per, width := 512/l.p.N, (l.p.N+7)/8
	row := l.block(i / per)[(i%per)*width:][:width]
	b := l.p.Bits()
	for s := range seg {
		var v uint32
		for k := uint32(0); k < b; k++ {
			bit := uint32(s)*b + k
			v = v<<1 | uint32(row[bit/8]>>(7-bit%8))&1
		}
		seg[s] = v
	}
}

// EqPack is the minimal encoding; EqUnpack its inverse for the right length.
func EqPack(p EqParams, idx []uint32) []byte {
	w := p.Bits() + 1
	out := make([]byte, (uint32(len(idx))*w+7)/8)
	for i, v := range idx {
		for k := uint32(0); k < w; k++ {
			if v>>(w-1-k)&1 == 1 {
				bit := uint32(i)*w + k
				out[bit/8] |= 0x80 >> (bit % 8)
			}
		}
	}
	return out
}

func EqUnpack(p EqParams, b []byte) []uint32 {
	w := p.Bits() + 1
	out := make([]uint32, p.Indices())
	for i := range out {
		for k := uint32(0); k < w; k++ {
			bit := uint32(i)*w + k
			out[i] = out[i]<<1 | uint32(b[bit/8]>>(7-bit%8))&1
		}
	}
	return out
}

// EqVerify decides a solution by the Equihash rules; why names the first rule broken.
func EqVerify(p EqParams, header, soln []byte) (ok bool, why string) {
	if len(soln) != p.SolLen() {
		return false, "length"
	}
	return EqVerifyIdx(p, header, EqUnpack(p, soln))
}

// EqVerifyIdx is EqVerify on the index list. Rules are checked in this order for
// the label only: distinct, order by level, collision by level, final.
func EqVerifyIdx(p EqParams, header []byte, idx []uint32) (bool, string) {
	seen := map[uint32]bool{}
	for _, v := range idx {
		if seen[v] {
			return false, "duplicate"
		}
		seen[v] = true
	}
	for lvl := uint32(0); lvl < p.K; lvl++ {
		half := 1 << lvl
		for i := 0; i < len(idx); i += 2 * half {
			if idx[i] > idx[i+half] {
				return false, fmt.Sprintf("order@%d", lvl)
			}
		}
	}
	return EqCollides(p, header, idx)
}

// EqCollides checks only the collision and final-XOR rules.
func EqCollides(p EqParams, header []byte, idx []uint32) (bool, string) {
	segs := int(p.K) + 1
	l := NewLeafer(p, header)
	rows := make([][]uint32, len(idx))
	for i, v := range idx {
		rows[i] = make([]uint32, segs)
		l.Leaf(v, rows[i])
	}
	for lvl := 0; len(rows) > 1; lvl++ {
		var next [][]uint32
		for i := 0; i < len(rows); i += 2 {
			if rows[i][lvl] != rows[i+1][lvl] {
				return false, fmt.Sprintf("collision@%d", lvl)
			}
			x := make([]uint32, segs)
			for s := range x {
				x[s] = rows[i][s] ^ rows[i+1][s]
			}
			next = append(next, x)
		}
		rows = next
	}
	if rows[0][segs-1] != 0 {
		return false, "final"
	}
	return true, ""
}

// Miss asks the solver for solutions that break one collision: at tree level Level
// (K is the final XOR) exactly one pair (or the root) differs, in bit Bit only.
type Miss struct {
	Level int // -1 for none
	Bit   uint32
}

type eqNode struct {
	seg  []uint32
	a, b int32 // child positions in the previous level, or leaf index in a
	bad  bool  // a broken pair is below
}

// EqSolve runs Wagner's algorithm over the first leaves and returns up to max index
// lists. With dups, subtrees may share indices (but a node is never paired with
// itself unless self is set). With miss.Level>=0 every result contains exactly
// one pair that differs only in the given bit at that level.
func EqSolve(p EqParams, header []byte, miss Miss, dups, self bool, max, cap int) [][]uint32 {
	segs := int(p.K) + 1
	l := NewLeafer(p, header)
	cur := make([]eqNode, p.Leaves())
	for i := range cur {
		cur[i] = eqNode{seg: make([]uint32, segs), a: int32(i), b: -1}
		l.Leaf(uint32(i), cur[i].seg)
	}
	levels := [][]eqNode{cur}
	var expand func(lvl int, n int32) []uint32
	expand = func(lvl int, n int32) []uint32 {
		nd := levels[lvl][n]
		if lvl == 0 {
			return []uint32{uint32(nd.a)}
		}
		x, y := expand(lvl-1, nd.a), expand(lvl-1, nd.b)
		if x[0] > y[0] {
			x, y = y, x
		}
		return append(append([]uint32{}, x...), y...)
	}
	distinct := func(v []uint32) bool {
		m := map[uint32]bool{}
		for _, x := range v {
			if m[x] {
				return false
			}
			m[x] = true
		}
		return true
	}
	for lvl := 0; lvl < int(p.K); lvl++ {
		cur := levels[lvl]
		order := make([]int32, len(cur))
		for i := range order {
			order[i] = int32(i)
		}
		var mask uint32
		if miss.Level == lvl {
			mask = 1 << miss.Bit
		}
		key := func(i int32) uint32 { return cur[i].seg[lvl] &^ mask }
		sort.SliceStable(order, func(x, y int) bool { return key(order[x]) < key(order[y]) })
		var next []eqNode
		lastLvl := lvl == int(p.K)-1
		for s := 0; s < len(order); {
			e := s
			for e < len(order) && key(order[e]) == key(order[s]) {
				e++
			}
			for i := s; i < e; i++ {
				j0 := i + 1
				if self {
					j0 = i
				}
				for j := j0; j < e && len(next) < cap; j++ {
					x, y := &cur[order[i]], &cur[order[j]]
					differs := x.seg[lvl] != y.seg[lvl]
					bad := x.bad || y.bad || differs
					if x.bad && y.bad || differs && (x.bad || y.bad) {
						continue
					}
					n := eqNode{seg: make([]uint32, segs), a: order[i], b: order[j], bad: bad}
					for k := lvl + 1; k < segs; k++ {
						n.seg[k] = x.seg[k] ^ y.seg[k]
					}
					if lastLvl {
						want := uint32(0)
						if miss.Level == int(p.K) {
							want = 1 << miss.Bit
						}
						if n.seg[segs-1] != want || miss.Level >= 0 && miss.Level < int(p.K) && !bad {
							continue
						}
					} else if !dups && !distinct(append(expand(lvl, order[i]), expand(lvl, order[j])...)) {
						continue
					}
					next = append(next, n)
				}
			}
			s = e
		}
		levels = append(levels, next)
	}
	var out [][]uint32
	for i := range levels[p.K] {
		v := expand(int(p.K), int32(i))
		if distinct(v) == dups {
			continue
		}
		out = append(out, v)
		if len(out) >= max {
			break
		}
	}
	return out
}
