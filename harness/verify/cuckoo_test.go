//go:build go1.21 && linux

package verify

import (
	"encoding/binary"
	"fmt"
	"sort"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// A cycleCase is one Verify call. With a table the graph is given edge by edge
// through the client's siphash argument (edges not in it have distinct fresh
// ends); otherwise the graph is the real one.
type cycleCase struct {
	Graph  string               `json:"graph"` // table, legacy, plain, block, aeternity, cortex
	Bits   int                  `json:"bits"`
	Fold   int                  `json:"fold,omitempty"` // real siphash, but only so many bits of a node number
	Size   int                  `json:"size"`
	Header vh.Hex               `json:"header"`
	Table  map[uint64][2]uint64 `json:"table,omitempty"`
	Edges  []uint64             `json:"edges"`
	How    string               `json:"how"`
}

func (c cycleCase) mask() uint64 { return 1<<c.Bits - 1 }

// end gives one end of a tabled edge.
func (c cycleCase) end(e, side uint64) uint64 {
	if v, ok := c.Table[e&c.mask()]; ok {
		return v[side] & c.mask()
	}
	return (e*2654435761 + side) & c.mask()
}

func (c cycleCase) client(cuckaroo bool) *cuckoo.Client {
	if c.Fold > 0 {
		m := uint64(1)<<c.Fold - 1
		switch c.Graph {
		case "legacy":
			return cuckoo.NewCuckoo(c.Bits, c.Size, func(_ uint64, k [4]uint64, e, side uint64) uint64 {
				return crypto.SipNode24Legacy(m, k, e, side)
			}, nil)
		case "plain":
			return cuckoo.NewCuckoo(c.Bits, c.Size, func(_ uint64, k [4]uint64, e, side uint64) uint64 {
				return crypto.SipNode24(m, k, e, side)
			}, nil)
		case "block":
			return cuckoo.NewCuckaroo(c.Bits, c.Size, nil, func(k [4]uint64, e uint64) uint64 {
				return crypto.SipBlock48(k, e) & (m | m<<32)
			})
		}
	}
	switch c.Graph {
	case "aeternity":
		return cuckoo.NewAeternity()
	case "cortex":
		return cuckoo.NewCortex()
	case "legacy":
		return cuckoo.NewCuckoo(c.Bits, c.Size, crypto.SipNode24Legacy, nil)
	case "plain":
		return cuckoo.NewCuckoo(c.Bits, c.Size, crypto.SipNode24, nil)
	case "block":
		return cuckoo.NewCuckaroo(c.Bits, c.Size, nil, crypto.SipBlock48)
	}
	if cuckaroo {
		return cuckoo.NewCuckaroo(c.Bits, c.Size, nil, func(_ [4]uint64, e uint64) uint64 {
			// bits above the mask are noise that the client has to drop
			high := ^c.mask() & 0xffffffff
			noise := e * 0x9e3779b97f4a7c15
			return c.end(e, 0) | noise&high | (c.end(e, 1)|noise>>7&high)<<32
		})
	}
	return cuckoo.NewCuckoo(c.Bits, c.Size, func(mask uint64, _ [4]uint64, e, side uint64) uint64 {
		return c.end(e, side) & mask
	}, nil)
}

func (c cycleCase) ends() func(e uint64) (u, v uint64) {
	k := ref.CuckooKeys(c.Header)
	m := c.mask()
	if c.Fold > 0 {
		m = 1<<c.Fold - 1
		if c.Graph == "block" { // the client takes everything within the edge bits as the first node
			return func(e uint64) (uint64, uint64) {
				x := ref.SipBlock48(k, e) & (m | m<<32)
				return x & c.mask(), x >> 32 & c.mask()
			}
		}
	}
	switch c.Graph {
	case "aeternity", "legacy":
		return func(e uint64) (uint64, uint64) { return ref.SipNode(k, 2*e, 17) & m, ref.SipNode(k, 2*e+1, 17) & m }
	case "plain":
		return func(e uint64) (uint64, uint64) { return ref.SipNode(k, 2*e, 0) & m, ref.SipNode(k, 2*e+1, 0) & m }
	case "cortex", "block":
		return func(e uint64) (uint64, uint64) {
			x := ref.SipBlock48(k, e)
			return x & m, x >> 32 & m
		}
	}
	return func(e uint64) (uint64, uint64) { return c.end(e, 0), c.end(e, 1) }
}

func checkCycle(cuckaroo bool) func(c cycleCase, r *vh.Rec) error {
	return func(c cycleCase, r *vh.Rec) error { return c.check(r, c.client(cuckaroo), nil, nil) }
}

// check makes the call, with the input put in buffers if there are any.
func (c cycleCase) check(r *vh.Rec, cl *cuckoo.Client, hbuf []byte, ebuf []uint64) error {
	want, why := ref.CycleVerify(c.Size, c.mask(), c.Edges, c.ends())
	r.Label("graph %s", c.Graph)
	r.Label("made by %s", c.How)
	if want {
		r.Label("reference: valid")
		switch {
		case c.Size == 2:
			r.Label("valid 2-cycle")
		case c.Size == 42:
			r.Label("valid 42-cycle")
		}
	} else {
		r.Label("reference: %s", why)
		if why != "length" {
			// does only the shape of the graph decide?
			var x, y uint64
			for _, e := range c.Edges {
				u, v := c.ends()(e)
				x, y = x^u, y^v
			}
			if x|y == 0 {
				r.Label("invalid, but node sums are zero")
			}
		}
	}
	if len(c.Edges) == c.Size {
		r.NonTrivial()
	}
	var edges []uint64
	if c.Edges != nil {
		edges = append(ebuf[:0], c.Edges...)
		if edges == nil {
			edges = []uint64{}
		}
	}
	got, err := cl.Verify(append(hbuf[:0], c.Header...), edges)
	at := fmt.Sprintf("%s graph, %d edge bits, %d edges %v (%s)", c.Graph, c.Bits, c.Size, c.Edges, c.How)
	if want && (!got || err != nil) {
		return fmt.Errorf("%s: a single cycle gives (%v, %v)", at, got, err)
	}
	if !want && (got || err == nil) {
		return fmt.Errorf("%s: a list broken by %q gives (%v, %v), want false and an error", at, why, got, err)
	}
	return nil
}

// drawCycleSeries draws calls on one client: a cycle, broken lists made from it,
// others of the same graph, the same list with other headers.
func drawCycleSeries(t *rapid.T, cuckaroo bool) []cycleCase {
	names, coin := []string{"legacy", "plain"}, "aeternity"
	if cuckaroo {
		names, coin = []string{"block"}, "cortex"
	}
	var pool []cycleCase
	if rapid.IntRange(0, 2).Draw(t, "coin") == 0 {
		for n := 0; n < 2; n++ {
			k := known[coin][rapid.IntRange(0, len(known[coin])-1).Draw(t, "known")]
			k.How = "known solution"
			pool = append(pool, k)
		}
	} else {
		// other headers over the same graph size, with cycles of one length
		g := rapid.SampledFrom(names).Draw(t, "siphash")
		bits := rapid.IntRange(6, 13).Draw(t, "bits")
		l := headerLen(t)
		size := 0
		for n := rapid.IntRange(1, 6).Draw(t, "headers"); n > 0; n-- {
			k := cycleCase{Graph: g, Bits: bits, Header: vh.Expand(rapid.Uint64Range(0, 200).Draw(t, "header"), l), How: "cycle of the graph"}
			for _, cyc := range cyclesOf(k) {
				if size == 0 {
					size = len(cyc)
				}
				if len(cyc) == size {
					k.Size, k.Edges = size, cyc
					pool = append(pool, k)
				}
			}
		}
		if size == 0 {
			return []cycleCase{{Graph: g, Bits: bits, Size: 4, Header: vh.Expand(1, l), Edges: []uint64{0, 1, 2, 3}, How: "no cycle in the graph"}}
		}
	}
	var c []cycleCase
	for n := rapid.IntRange(2, 6).Draw(t, "calls"); n > 0; n-- {
		k := rapid.SampledFrom(pool).Draw(t, "cycle")
		k.Edges, k.Header = append([]uint64{}, k.Edges...), append(vh.Hex{}, k.Header...)
		switch rapid.IntRange(0, 5).Draw(t, "call") {
		case 0, 1:
		case 2, 3:
			size := k.Size
			breakList(t, &k)
			k.Size = size
		case 4:
			k.Header, k.How = vh.Kin(t, "header", k.Header), "header like that of a cycle"
		default:
			k.Header, k.How = rapid.SampledFrom(pool).Draw(t, "header").Header, "cycle and header of the pool"
		}
		c = append(c, k)
	}
	return append(c, rapid.SampledFrom(pool).Draw(t, "last"))
}

// drawIDs draws n different node numbers below the mask, low and high ones too.
func drawIDs(t *rapid.T, name string, n int, mask uint64) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	dense := rapid.Bool().Draw(t, name+".dense")
	for len(out) < n {
		var v uint64
		if dense {
			v = rapid.Uint64Range(0, min(mask, uint64(2*n+1))).Draw(t, name)
		} else {
			v = vh.DrawU64(t, name) & mask
		}
		for seen[v] {
			v = (v + 1) & mask
		}
		seen[v] = true
		out = append(out, v)
	}
	return out
}

// drawPlanted plants a structure of size edges in a table graph.
func drawPlanted(t *rapid.T, cuckaroo bool) cycleCase {
	c := cycleCase{Graph: "table", How: "single cycle"}
	switch rapid.IntRange(0, 3).Draw(t, "size.kind") {
	case 0:
		c.Size = 42
	case 1:
		c.Size = rapid.IntRange(1, 6).Draw(t, "size")
	default:
		c.Size = 2 * rapid.IntRange(1, 24).Draw(t, "half size")
	}
	lo, hi := 1, 63
	if cuckaroo {
		hi = 32
	}
	for 1<<lo < 2*c.Size+2 {
		lo++
	}
	c.Bits = rapid.IntRange(lo, hi).Draw(t, "bits")
	if rapid.IntRange(0, 2).Draw(t, "bits.kind") == 0 {
		c.Bits = min(hi, max(lo, rapid.SampledFrom([]int{29, 30, 31, 32, 33, 19, 63}).Draw(t, "bits")))
	}
	c.Header = vh.DrawBytes(t, "header", headerLen(t))
	mask := c.mask()
	n := c.Size

	// edges in cycle order: (node, node) pairs
	var g [][2]uint64
	ring := func(m int, us, vs []uint64) { // m even
		h := m / 2
		for i := 0; i < h; i++ {
			g = append(g, [2]uint64{us[i], vs[i]}, [2]uint64{us[(i+1)%h], vs[i]})
		}
	}
	us, vs := drawIDs(t, "u", n, mask), drawIDs(t, "v", n, mask)
	if rapid.Bool().Draw(t, "same names") {
		vs = us // the two sides are different nodes even when their numbers agree
	}
	shape := rapid.IntRange(0, 9).Draw(t, "shape")
	if n%2 == 1 && shape < 6 {
		shape = 9
	}
	switch {
	case shape <= 1 || n == 2 && shape < 6: // single cycle
		ring(n, us, vs)
	case shape <= 3: // several cycles
		at := 0
		for left := n; left > 0; {
			m := 2 * rapid.IntRange(1, left/2).Draw(t, "ring")
			ring(m, us[at:], vs[at:])
			at += m / 2
			left -= m
		}
		c.How = "disjoint cycles"
	case shape == 4: // two nodes of a cycle become one
		ring(n, us, vs)
		side := rapid.IntRange(0, 1).Draw(t, "side")
		a, b := rapid.IntRange(0, n/2-1).Draw(t, "a"), rapid.IntRange(0, n/2-1).Draw(t, "b")
		ids := us
		if side == 1 {
			ids = vs
		}
		for i := range g {
			if g[i][side] == ids[a] {
				g[i][side] = ids[b]
			}
		}
		c.How = "two nodes joined"
	case shape == 5: // several edge ends moved to other nodes of the cycle
		ring(n, us, vs)
		for k := rapid.IntRange(1, 3).Draw(t, "moves"); k > 0; k-- {
			g[rapid.IntRange(0, n-1).Draw(t, "edge")][rapid.IntRange(0, 1).Draw(t, "end")] =
				us[rapid.IntRange(0, n-1).Draw(t, "to")]
		}
		c.How = "edge ends moved"
	case shape == 6: // dead ends whose node sums vanish
		for i := 0; i < n; i++ {
			g = append(g, [2]uint64{us[i], vs[i]})
		}
		keep := rapid.IntRange(0, n/2).Draw(t, "cycle part") * 2
		if keep == n {
			keep = n - n%2 // nothing or one edge is left over
		}
		r := g
		g = nil
		ring(keep, us, vs)
		g = append(g, r[keep:]...)
		for side := 0; side < 2; side++ {
			var x uint64
			for _, e := range g {
				x ^= e[side]
			}
			g[n-1][side] ^= x
		}
		c.How = "dead ends with zero sums"
	default: // anything over very few nodes
		few := uint64(rapid.IntRange(1, 1+n/2).Draw(t, "nodes"))
		for i := 0; i < n; i++ {
			g = append(g, [2]uint64{us[rapid.Uint64Range(0, few-1).Draw(t, "u")], vs[rapid.Uint64Range(0, few-1).Draw(t, "v")]})
		}
		if rapid.Bool().Draw(t, "balance") {
			for side := 0; side < 2; side++ {
				var x uint64
				for _, e := range g {
					x ^= e[side]
				}
				g[n-1][side] ^= x
			}
		}
		c.How = "random edges over few nodes"
	}

	// edge numbers in ascending order, dealt to the structure in any order
	nums := drawIDs(t, "edge", n, mask)
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	perm := seq(n)
	if rapid.Bool().Draw(t, "shuffle") {
		perm = rapid.Permutation(perm).Draw(t, "deal")
	}
	c.Table = map[uint64][2]uint64{}
	for i, e := range nums {
		c.Table[e] = g[perm[i]]
	}
	c.Edges = nums
	breakList(t, &c)
	return c
}

// breakList sometimes breaks the list itself; the graph keeps the same ends for
// indices beyond the range, so only the rule in question can reject them.
func breakList(t *rapid.T, c *cycleCase) {
	n := len(c.Edges)
	if n == 0 {
		return
	}
	switch rapid.IntRange(0, 19).Draw(t, "list") {
	case 0:
		i, j := rapid.IntRange(0, n-1).Draw(t, "i"), rapid.IntRange(0, n-1).Draw(t, "j")
		c.Edges[i], c.Edges[j] = c.Edges[j], c.Edges[i]
		c.How = "list: two exchanged"
	case 1:
		i := rapid.IntRange(0, n-1).Draw(t, "i")
		c.Edges[i] = c.Edges[rapid.IntRange(0, n-1).Draw(t, "j")]
		c.How = "list: one repeated"
	case 2:
		if c.Bits < 64 {
			i := rapid.SampledFrom([]int{n - 1, 0, n / 2}).Draw(t, "i")
			d := (c.mask() + 1) << rapid.IntRange(0, 63-c.Bits).Draw(t, "beyond")
			if rapid.Bool().Draw(t, "just") {
				c.Edges[n-1] = c.mask() + 1
			} else {
				c.Edges[i] += d
			}
			c.How = "list: out of range"
		}
	case 3:
		switch rapid.IntRange(0, 3).Draw(t, "length") {
		case 0:
			c.Edges = c.Edges[:n-1]
		case 1:
			c.Edges = append(c.Edges, c.mask())
		case 2:
			c.Edges = nil
		default:
			c.Edges = append(c.Edges, c.Edges...)
		}
		c.How = "list: wrong length"
	case 4:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			c.Edges[i], c.Edges[j] = c.Edges[j], c.Edges[i]
		}
		c.How = "list: reversed"
	case 5:
		k := rapid.IntRange(1, n).Draw(t, "by")
		c.Edges = append(append([]uint64{}, c.Edges[k%n:]...), c.Edges[:k%n]...)
		c.How = "list: rotated"
	case 6:
		i := rapid.IntRange(0, n-1).Draw(t, "i")
		c.Edges[i] = vh.DrawU64(t, "edge") & c.mask()
		c.How = "list: one changed"
	}
}

var known = map[string][]cycleCase{
	"aeternity": {
		{Graph: "aeternity", Bits: 29, Size: 42, Header: unhexStatic("69435549583467653534384d6e4e6c4d714b6371365444674a6631446b783548594f4d67705041783249343d71414541414837384141413d000000000000000000000000000000000000000000000000"),
			Edges: []uint64{
				0x003b5d47, 0x00a70508, 0x00d0aa4a, 0x0238a16a, 0x038653bf, 0x03e91d96, 0x03f4baa8, 0x062ef17e,
				0x065d7b41, 0x066fbb1e, 0x079af861, 0x08bd2cf2, 0x0956b89d, 0x0b56fb7f, 0x0c098553, 0x0c6d2c27,
				0x0d8c0fd9, 0x0ddcbb1d, 0x0e3eccde, 0x0e464bef, 0x0fb09bef, 0x1267ebb1, 0x129ef8e6, 0x138432b5,
				0x144d428b, 0x1484e6b6, 0x14efcfba, 0x158d5352, 0x159f3551, 0x15a07563, 0x160a3efd, 0x17c9b61e,
				0x184499bc, 0x1844f434, 0x1919053a, 0x197a9095, 0x1aa04947, 0x1bc3f6e5, 0x1d8b4029, 0x1e6a1fe0,
				0x1e7e4380, 0x1f5a2a50,
			}},
		{Graph: "aeternity", Bits: 29, Size: 42, Header: unhexStatic("5957616c3675576330543433356d6775473877482f4d4378354e45626f6a4837586d38547176614e3862553d566b35374733496f4141413d000000000000000000000000000000000000000000000000"),
			Edges: []uint64{
				0x007791c9, 0x0197cfec, 0x025166a5, 0x025e30b8, 0x03d6aedc, 0x04311736, 0x0516b291, 0x05179816,
				0x056ac771, 0x068b92d8, 0x06aee4f8, 0x0817c500, 0x08c1a751, 0x08f1999c, 0x08f46654, 0x092b8770,
				0x096034f8, 0x09cfcb6f, 0x0d4f1cdb, 0x0d5b8793, 0x0d5c09a8, 0x0da0e97b, 0x0db38171, 0x0dc09c91,
				0x0e34aeaf, 0x0f0251df, 0x10486aa7, 0x14477924, 0x1544daf9, 0x1623e36e, 0x16b55699, 0x16fa6905,
				0x177125c6, 0x17f88a4d, 0x19243b3c, 0x19ebdaa7, 0x1b5383f1, 0x1c614cbf, 0x1de144f9, 0x1df596a7,
				0x1f629453, 0x1f6b9406,
			}},
	},
	"cortex": {
		{Graph: "cortex", Bits: 30, Size: 42, Header: unhexStatic("6281a031a95a7669e42cf56d46b5d921b067ace29c46c89fa2698f3b895d6fcb21208e4e00000165"),
			Edges: []uint64{
				0x017ca085, 0x0181ca71, 0x096b8b98, 0x09d3a607, 0x0b6bb4c8, 0x0c9bbecb, 0x10d1c645, 0x13ba80dc,
				0x13cb4dc9, 0x15ebc37d, 0x164de862, 0x16a7906a, 0x18c28113, 0x199e50ca, 0x1ba70932, 0x1bc435b1,
				0x1caad714, 0x1d94ccd4, 0x1da4b49d, 0x1eff189e, 0x2030c2cf, 0x2084a6c3, 0x2111e51e, 0x241ff2d0,
				0x26bb0111, 0x275fd4a1, 0x27654850, 0x291041de, 0x2a4c1e5b, 0x2a8e54e1, 0x2ba12d29, 0x2d16cbc0,
				0x2e9e0df8, 0x3209259d, 0x32751e22, 0x33107850, 0x332b35f9, 0x33a134d4, 0x354fc224, 0x384052fb,
				0x38cdb22e, 0x3e665fed,
			}},
		{Graph: "cortex", Bits: 30, Size: 42, Header: unhexStatic("a855bfb05489f16720c241b8f89db047fd63b4e7ffc8942c37edd81c6a4ee2e321208e4e00000328"),
			Edges: []uint64{
				0x001b27e9, 0x003af2c7, 0x01eed987, 0x039a8920, 0x050de2d0, 0x07f4dde9, 0x07fd54af, 0x0c4e256a,
				0x0dbfe2b4, 0x0ef70428, 0x0f103eb0, 0x0f3d3c08, 0x103f426f, 0x14f152bd, 0x15f55244, 0x16531636,
				0x16bce128, 0x16ceb3d8, 0x1774ebef, 0x1b25e464, 0x1d837e14, 0x24fcf2ec, 0x264e7881, 0x284f5e09,
				0x2994e92d, 0x2cab769d, 0x2d85985f, 0x2dbc88f1, 0x2f3279b1, 0x2f5984a2, 0x30480ed6, 0x30f44f85,
				0x32452faf, 0x33b1a793, 0x33ea0ab1, 0x3406943e, 0x34587460, 0x34c301cd, 0x36bd7591, 0x386e9b94,
				0x39e03a63, 0x3a7c54c3,
			}},
	},
}

func unhexStatic(s string) []byte { return unhex(s) }

// real graphs are small enough to list all their cycles
type graphKey struct {
	kind   string
	bits   int
	header string
}

var (
	graphMu sync.Mutex
	graphs  = map[graphKey][][]uint64{}
)

func cyclesOf(c cycleCase) [][]uint64 {
	graphMu.Lock()
	defer graphMu.Unlock()
	k := graphKey{c.Graph, c.Bits, string(c.Header)}
	if v, ok := graphs[k]; ok {
		return v
	}
	ends := c.ends()
	if c.Graph == "block" { // one block of hashes at a time
		keys, m := ref.CuckooKeys(c.Header), c.mask()
		var blk [64]uint64
		at := ^uint64(0)
		ends = func(e uint64) (uint64, uint64) {
			if e/64 != at {
				at, blk = e/64, ref.SipBlock48s(keys, e)
			}
			return blk[e%64] & m, blk[e%64] >> 32 & m
		}
	}
	v := ref.FindCycles(c.mask()+1, ends, 200)
	graphs[k] = v
	return v
}

// headerLen is mostly a length that headers have.
func headerLen(t *rapid.T) int {
	if vh.Mix(rapid.Uint64().Draw(t, "header.len.kind"))%24 == 0 {
		return vh.LongLen(t, "header.len")
	}
	return rapid.IntRange(0, 140).Draw(t, "header.len")
}

// drawFolded has edge numbers of any width: the real siphash functions, with
// node numbers cut short so that a few dozen random edges have cycles.
func drawFolded(t *rapid.T, cuckaroo bool) cycleCase {
	names := []string{"legacy", "plain"}
	if cuckaroo {
		names = []string{"block"}
	}
	c := cycleCase{
		Graph:  rapid.SampledFrom(names).Draw(t, "siphash"),
		Bits:   rapid.IntRange(8, 63).Draw(t, "bits"),
		Fold:   rapid.IntRange(3, 6).Draw(t, "fold"),
		Header: vh.Expand(rapid.Uint64().Draw(t, "header"), headerLen(t)),
		How:    "cycle of a folded graph",
	}
	if cuckaroo && c.Bits > 32 {
		// the first node is cut out of the low edge bits of the hash: it holds
		// parts of the second one then, which the reference does alike
		c.Fold = rapid.IntRange(2, 4).Draw(t, "fold.wide")
	}
	seen := map[uint64]bool{}
	var cand []uint64
	spread := rapid.Bool().Draw(t, "spread")
	base := rapid.Uint64().Draw(t, "base") & c.mask()
	raw := vh.Expand(rapid.Uint64().Draw(t, "candidates"), 8*128)
	for i := 0; i < min(128, 2<<c.Fold); i++ {
		e := binary.LittleEndian.Uint64(raw[8*i:])
		if !spread {
			e = base + e%1024
		}
		if e &= c.mask(); !seen[e] {
			seen[e] = true
			cand = append(cand, e)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
	ends := c.ends()
	cyc := ref.FindCycles(uint64(len(cand)), func(i uint64) (uint64, uint64) { return ends(cand[i]) }, 20)
	if len(cyc) == 0 {
		c.Size = min(len(cand), 4)
		c.Edges = append([]uint64{}, cand[:c.Size]...)
		c.How = "no cycle in the graph"
		return c
	}
	for _, i := range cyc[rapid.IntRange(0, len(cyc)-1).Draw(t, "cycle")] {
		c.Edges = append(c.Edges, cand[i])
	}
	c.Size = len(c.Edges)
	breakList(t, &c)
	return c
}

func drawReal(t *rapid.T, cuckaroo bool) cycleCase {
	names := []string{"legacy", "plain"}
	coin := "aeternity"
	if cuckaroo {
		names, coin = []string{"block"}, "cortex"
	}
	if rapid.IntRange(0, 3).Draw(t, "coin") == 0 {
		all := known[coin]
		c := all[rapid.IntRange(0, len(all)-1).Draw(t, "known")]
		c.Edges = append([]uint64{}, c.Edges...)
		c.Header = append(vh.Hex{}, c.Header...)
		c.How = "known solution"
		breakList(t, &c)
		switch rapid.IntRange(0, 7).Draw(t, "header") {
		case 0:
			i := rapid.IntRange(0, len(c.Header)*8-1).Draw(t, "bit")
			c.Header[i/8] ^= 1 << (i % 8)
			c.How += ", header bit flipped"
		case 1:
			if len(c.Edges) > 0 {
				i := rapid.IntRange(0, len(c.Edges)*29-1).Draw(t, "bit")
				c.Edges[i/29] ^= 1 << (i % 29)
				c.How += ", edge bit flipped"
			}
		case 2:
			c.Header = append(c.Header, 0)
			c.How += ", header longer"
		case 3:
			c.Header = c.Header[:len(c.Header)-1]
			c.How += ", header shorter"
		}
		return c
	}
	c := cycleCase{Graph: rapid.SampledFrom(names).Draw(t, "siphash")}
	c.Bits = rapid.IntRange(6, 13).Draw(t, "bits")
	c.Header = vh.Expand(rapid.Uint64Range(0, 200).Draw(t, "header"), headerLen(t))
	cyc := cyclesOf(c)
	if len(cyc) == 0 {
		c.Size = 4
		c.Edges = []uint64{0, 1, 2, 3}
		c.How = "no cycle in the graph"
		return c
	}
	pick := cyc[rapid.IntRange(0, len(cyc)-1).Draw(t, "cycle")]
	c.Edges = append([]uint64{}, pick...)
	c.Size = len(c.Edges)
	c.How = "cycle of the graph"
	if rapid.IntRange(0, 3).Draw(t, "union") == 0 { // two cycles together
		other := cyc[rapid.IntRange(0, len(cyc)-1).Draw(t, "other")]
		seen := map[uint64]bool{}
		for _, e := range append(append([]uint64{}, pick...), other...) {
			seen[e] = true
		}
		c.Edges = nil
		for e := range seen {
			c.Edges = append(c.Edges, e)
		}
		sort.Slice(c.Edges, func(i, j int) bool { return c.Edges[i] < c.Edges[j] })
		c.Size = len(c.Edges)
		c.How = "two cycles of the graph"
	}
	breakList(t, &c)
	return c
}

func cycleProps(t *testing.T, name string, cuckaroo bool) {
	vh.Run(t, vh.Prop[cycleCase]{Name: name + "-planted", Quick: 40000, Thorough: 600000,
		Rule:  "graphs given through the client's siphash argument with a planted structure (one cycle, several, joined nodes, moved ends, dead ends with zero sums, random edges over few nodes) and intact or broken edge lists; non-trivial when the list has the proof size",
		Gen:   func(t *rapid.T) cycleCase { return drawPlanted(t, cuckaroo) },
		Check: checkCycle(cuckaroo)})
	vh.Run(t, vh.Prop[cycleCase]{Name: name + "-real", Quick: 8000, Thorough: 150000,
		Rule:  "real siphash graphs: cycles found in graphs of 6 to 13 edge bits, and known solutions of the coin, intact or broken; non-trivial when the list has the proof size",
		Gen:   func(t *rapid.T) cycleCase { return drawReal(t, cuckaroo) },
		Check: checkCycle(cuckaroo)})
	vh.Run(t, vh.Prop[cycleCase]{Name: name + "-folded", Quick: 8000, Thorough: 150000,
		Rule:  "real siphash functions with node numbers cut short, over edge numbers of 8 to 63 bits: cycles among random edges, intact or broken; non-trivial when the list has the proof size",
		Gen:   func(t *rapid.T) cycleCase { return drawFolded(t, cuckaroo) },
		Check: checkCycle(cuckaroo)})
	vh.Run(t, vh.Prop[[]cycleCase]{Name: name + "-series", Quick: 4000, Thorough: 80000,
		Rule: "several calls on one client from one pair of buffers: cycles of one or several headers, broken lists made from them, headers that share most with that of a cycle; all are non-trivial",
		Gen:  func(t *rapid.T) []cycleCase { return drawCycleSeries(t, cuckaroo) },
		Check: func(c []cycleCase, r *vh.Rec) error {
			r.NonTrivial()
			cl, hbuf, ebuf := c[0].client(cuckaroo), make([]byte, 0, 256), make([]uint64, 0, 200)
			for i, k := range c {
				if err := k.check(r, cl, hbuf, ebuf); err != nil {
					return fmt.Errorf("call %d: %w", i, err)
				}
			}
			return nil
		}})
}

func TestC13(t *testing.T) { cycleProps(t, "cuckoo", false) }
func TestC14(t *testing.T) { cycleProps(t, "cuckaroo", true) }
