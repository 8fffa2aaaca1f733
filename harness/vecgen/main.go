//go:build go1.21

// Command vecgen solves the full-size Equihash-family puzzles offline and prints
// one JSON vector per line: valid solutions, solutions that repeat an index, and
// near misses that break exactly one rule in one bit. The checks never run it;
// they read its committed output and judge every vector with the reference again.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"

	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

type vector struct {
	Coin   string `json:"coin"`
	Header string `json:"header"`
	Soln   string `json:"soln"`
	Label  string `json:"label"`
}

type coin struct {
	name   string
	p      ref.EqParams
	header int
	beam   bool
}

var coins = map[string]coin{
	"zcash":    {"zcash", ref.EqParams{N: 200, K: 9, Personal: "ZcashPoW"}, 140, false},
	"aion":     {"aion", ref.EqParams{N: 210, K: 9, Personal: "AION0PoW"}, 64, false},
	"btg":      {"btg", ref.EqParams{N: 144, K: 5, Personal: "BgoldPoW"}, 140, false},
	"zclassic": {"zclassic", ref.EqParams{N: 192, K: 7, Personal: "ZcashPoW"}, 140, false},
	"flux":     {"flux", ref.EqParams{N: 125, K: 4, Personal: "ZelProof", Twist: true}, 140, false},
	"wide":     {"wide", ref.EqParams{N: 104, K: 3, Personal: "ZcashPoW"}, 140, false},
	"tw5":      {"tw5", ref.EqParams{N: 125, K: 5, Personal: "ZelProof", Twist: true}, 140, false},
	"tw6":      {"tw6", ref.EqParams{N: 125, K: 6, Personal: "ZelProof", Twist: true}, 140, false},
	"beam":     {"beam", ref.EqParams{N: 150, K: 5}, 40, true},
}

type level struct {
	a, b []uint32
	bad  []bool
}

type solver struct {
	c      coin
	cbl    uint
	w      int // words per row
	levels []level
	rows   []uint64
	bad    []bool
	n      int
	rng    *rand.Rand
}

func parallel(n int, f func(from, to int)) {
	ws := runtime.GOMAXPROCS(0)
	var wg sync.WaitGroup
	for i := 0; i < ws; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f(n/ws*i, map[bool]int{true: n, false: n / ws * (i + 1)}[i == ws-1])
		}(i)
	}
	wg.Wait()
}

func (s *solver) seg(r []uint64, lvl int) uint32 {
	var v uint32
	for k := uint(0); k < s.cbl; k++ {
		bit := uint(lvl)*s.cbl + k
		v = v<<1 | uint32(r[bit/64]>>(63-bit%64))&1
	}
	return v
}

// expand lists the leaves of node n of a level in tree order (smaller first).
func (s *solver) expand(lvl int, n uint32, out []uint32) []uint32 {
	if lvl == 0 {
		return append(out, n)
	}
	at := len(out)
	out = s.expand(lvl-1, s.levels[lvl].a[n], out)
	mid := len(out)
	out = s.expand(lvl-1, s.levels[lvl].b[n], out)
	if out[mid] < out[at] {
		x := append([]uint32{}, out[at:mid]...)
		copy(out[at:], out[mid:])
		copy(out[len(out)-len(x):], x)
	}
	return out
}

func main() {
	c := coins[os.Args[1]]
	missLevel, _ := strconv.Atoi(os.Args[2]) // -1 none
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	selfLevel := -1
	if len(os.Args) > 4 {
		selfLevel, _ = strconv.Atoi(os.Args[4])
	}
	rng := rand.New(rand.NewSource(seed))
	header := make([]byte, c.header)
	rng.Read(header)
	K := int(c.p.K)
	s := &solver{c: c, rng: rng}
	var leaves int
	extra := make([]byte, 4)
	if c.beam {
		s.cbl, s.w, leaves = 24, 7, 1<<25
		rng.Read(extra)
		keys := ref.BeamKeys(header, extra)
		s.rows = make([]uint64, leaves*s.w)
		parallel(leaves, func(from, to int) {
			for i := from; i < to; i++ {
				l := ref.BeamLeaf(keys, uint32(i))
				copy(s.rows[i*7:], l[:])
			}
		})
	} else {
		s.cbl, s.w, leaves = uint(c.p.Bits()), int(c.p.N+63)/64, int(c.p.Leaves())
		s.rows = make([]uint64, leaves*s.w)
		per := 512 / int(c.p.N)
		// whole 16-groups per worker, so that twisted sums are not recomputed
		block := 16 * per
		parallel((leaves+block-1)/block, func(from, to int) {
			l := ref.NewLeafer(c.p, header)
			seg := make([]uint32, K+1)
			for i := from * block; i < to*block && i < leaves; i++ {
				l.Leaf(uint32(i), seg)
				r := s.rows[i*s.w : (i+1)*s.w]
				for x, v := range seg {
					for k := uint(0); k < s.cbl; k++ {
						bit := uint(x)*s.cbl + k
						r[bit/64] |= uint64(v>>(s.cbl-1-k)&1) << (63 - bit%64)
					}
				}
			}
		})
	}
	fmt.Fprintln(os.Stderr, c.name, "leaves done")
	s.n = leaves
	s.bad = make([]bool, leaves)
	s.levels = append(s.levels, level{})
	capNormal, capBad := leaves+leaves/4, leaves*2
	if leaves >= 1<<25 {
		capBad = leaves / 2
	}
	seen := map[string]bool{}
	dups := 0
	emit := func(a, b uint32, lvl int, label string) {
		x := s.expand(lvl, a, nil)
		y := s.expand(lvl, b, nil)
		if y[0] < x[0] {
			x, y = y, x
		}
		idx := append(x, y...)
		var soln []byte
		var ok bool
		var why string
		if c.beam {
			soln = ref.BeamPack(idx, extra)
			ok, why = ref.BeamVerify(header, soln)
		} else {
			soln = ref.EqPack(c.p, idx)
			ok, why = ref.EqVerify(c.p, header, soln)
		}
		if ok {
			why = "valid"
		}
		key := hex.EncodeToString(soln)
		if why == "duplicate" {
			if dups++; dups > 8 {
				return
			}
		}
		if seen[key] {
			return
		}
		seen[key] = true
		j, _ := json.Marshal(vector{c.name, hex.EncodeToString(header), key, why + label})
		fmt.Println(string(j))
	}
	for lvl := 0; lvl < K; lvl++ {
		last := lvl == K-1
		key := make([]uint32, s.n)
		if c.beam {
			// mix first
			parallel(s.n, func(from, to int) {
				var idx []uint32
				for i := from; i < to; i++ {
					idx = s.expand(lvl, uint32(i), idx[:0])
					var w [7]uint64
					copy(w[:], s.rows[i*7:])
					ref.BeamMix(&w, idx, ref.BeamLens[lvl+1][0])
					copy(s.rows[i*7:], w[:])
					key[i] = uint32(w[0]) & 0xffffff
				}
			})
		} else {
			parallel(s.n, func(from, to int) {
				for i := from; i < to; i++ {
					key[i] = s.seg(s.rows[i*s.w:(i+1)*s.w], lvl)
				}
			})
		}
		masks := []uint32{0}
		if missLevel == lvl {
			for _, b := range rng.Perm(int(s.cbl)) {
				masks = append(masks, 1<<b)
			}
		}
		next := level{}
		var rows []uint64
		var nb []bool
		normal, bads := 0, 0
		if !last {
			room := capNormal
			if missLevel >= 0 && missLevel <= lvl && missLevel < K {
				room += capBad
			}
			if selfLevel == lvl {
				room = s.n
			}
			rows = make([]uint64, 0, room*s.w)
		}
		perMask := capBad / (2 * len(masks))
		for mi, mask := range masks {
			if selfLevel == lvl {
				if mi == 0 {
					for i := 0; i < s.n; i++ {
						next.a, next.b, nb = append(next.a, uint32(i)), append(next.b, uint32(i)), append(nb, false)
					}
					rows = rows[:s.n*s.w]
				}
				continue
			}
			head := make([]uint32, 1<<s.cbl)
			chain := make([]uint32, s.n)
			for i := 0; i < s.n; i++ {
				k := key[i] &^ mask
				chain[i] = head[k]
				head[k] = uint32(i + 1)
			}
			thisMask := 0
			x := make([]uint64, s.w)
			// start at a random bucket so that caps do not favour low keys
			off := rng.Intn(len(head))
		buckets:
			for hb := range head {
				h := head[(hb+off)%len(head)]
				for i := h; i != 0; i = chain[i-1] {
					for j := chain[i-1]; j != 0; j = chain[j-1] {
						p, q := i-1, j-1
						if key[p]^key[q] != mask {
							continue
						}
						bad := s.bad[p] || s.bad[q] || mask != 0
						if s.bad[p] && s.bad[q] || mask != 0 && (s.bad[p] || s.bad[q]) {
							continue
						}
						var any uint64
						for t := 0; t < s.w; t++ {
							x[t] = s.rows[int(p)*s.w+t] ^ s.rows[int(q)*s.w+t]
							any |= x[t]
						}
						if last {
							var rest uint32
							if c.beam {
								rest = uint32(x[0]>>24) & 0xffffff
							} else {
								rest = s.seg(x, K)
							}
							if rest == 0 && (missLevel < 0 || missLevel == K || bad) {
								if len(seen) < 60 {
									emit(p, q, lvl, "")
								}
							} else if missLevel == K && bits.OnesCount32(rest) == 1 && len(seen) < 60 {
								emit(p, q, lvl, fmt.Sprintf(" bit %d", bits.TrailingZeros32(rest)))
							}
							continue
						}
						if any == 0 {
							continue
						}
						if bad {
							if bads >= capBad || mask != 0 && thisMask >= perMask {
								if mask != 0 && thisMask >= perMask {
									break buckets
								}
								continue
							}
							bads++
							thisMask++
						} else {
							if normal >= capNormal {
								continue
							}
							normal++
						}
						if c.beam {
							var u, v [7]uint64
							copy(u[:], s.rows[int(p)*7:])
							copy(v[:], s.rows[int(q)*7:])
							m := ref.BeamMerge(&u, &v, ref.BeamLens[lvl+1][1])
							rows = append(rows, m[:]...)
						} else {
							rows = append(rows, x...)
						}
						next.a, next.b, nb = append(next.a, p), append(next.b, q), append(nb, bad)
					}
				}
			}
		}
		if last {
			break
		}
		s.levels = append(s.levels, next)
		s.rows, s.bad, s.n = rows, nb, len(nb)
		fmt.Fprintln(os.Stderr, c.name, "level", lvl, "nodes", s.n, "bad", bads)
		if s.n == 0 {
			break
		}
	}
}
