//go:build go1.21 && linux

package verify

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// An eqCase is one Verify call. Coin names a ready-made client; without it the
// client is made from the parameters.
type eqCase struct {
	Coin     string `json:"coin,omitempty"`
	N        uint32 `json:"n"`
	K        uint32 `json:"k"`
	Personal vh.Hex `json:"personal"`
	Twist    bool   `json:"twist,omitempty"`
	Header   vh.Hex `json:"header"`
	Soln     vh.Hex `json:"soln"`
	How      string `json:"how"`
}

func (c eqCase) params() ref.EqParams {
	return ref.EqParams{N: c.N, K: c.K, Personal: string(c.Personal), Twist: c.Twist}
}

func (c eqCase) client() *equihash.Client {
	switch c.Coin {
	case "zcash":
		return equihash.NewZCash()
	case "aion":
		return equihash.NewAion()
	case "btg":
		return equihash.NewBitcoinGold()
	case "zclassic":
		return equihash.NewZClassic()
	case "flux":
		return equihash.NewFlux()
	}
	return equihash.New(c.N, c.K, string(c.Personal), c.Twist)
}

// judge runs the call and the reference.
func (c eqCase) judge(r *vh.Rec) (want bool, why string, got bool, err error) {
	return c.judgeOn(r, c.client(), nil, nil)
}

// judgeOn does so with a client, and with the input put in buffers.
func (c eqCase) judgeOn(r *vh.Rec, cl *equihash.Client, hbuf, sbuf []byte) (want bool, why string, got bool, err error) {
	header, soln := append(hbuf[:0], c.Header...), append(sbuf[:0], c.Soln...)
	got, err = cl.Verify(header, soln)
	want, why = ref.EqVerify(c.params(), c.Header, c.Soln)
	name := c.Coin
	if name == "" {
		name = fmt.Sprintf("%d/%d", c.N, c.K)
		if c.Twist {
			name += " twisted"
		}
	}
	r.Label("params %s", name)
	r.Label("made by %s", c.How)
	if want {
		r.Label("reference: valid")
	} else {
		r.Label("reference: %s", why)
	}
	return
}

// params that can be solved while the check runs, with the number of headers each
// process may use.
type tier struct {
	n, k    uint32
	headers uint64
	weight  int
}

var tiers = []tier{
	{32, 3, 1 << 30, 6}, {40, 4, 1 << 30, 6}, {40, 3, 1 << 30, 5}, {48, 5, 1 << 30, 3}, {48, 3, 4000, 2}, {56, 3, 40, 1}, {64, 3, 4, 1},
	{72, 5, 40, 2}, {80, 4, 3, 1}, {96, 5, 2, 1}, {96, 7, 8, 2}, {104, 7, 6, 2}, {112, 7, 3, 1}, {120, 7, 1, 1},
}

var twisted = []tier{{125, 7, 3, 2}, {125, 8, 3, 1}}

// solved quickly
var quickTiers = []tier{{32, 3, 1 << 30, 4}, {40, 4, 1 << 30, 4}, {40, 3, 1 << 30, 4}, {48, 5, 3000, 3}, {72, 5, 4, 1}, {96, 7, 1, 1}}

func pickTier(t *rapid.T, ts []tier) tier {
	sum := 0
	for _, x := range ts {
		sum += x.weight
	}
	v := rapid.IntRange(0, sum-1).Draw(t, "params")
	for _, x := range ts {
		if v < x.weight {
			return x
		}
		v -= x.weight
	}
	panic("unreachable")
}

var personals = []string{"ZcashPoW", "BgoldPoW", "AION0PoW", "ZelProof", "", "x", "abc", "\x00\x00\x00\x00\x00\x00\x00\x00", "\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8", "1234567"}

// makeHeader derives personalisation and header from an id: all short lengths,
// and those around the hash's block size, occur.
func makeHeader(id uint64) (personal, header []byte) {
	b := vh.Expand(id*2654435761+17, 8)
	n := 0
	switch b[0] % 4 {
	case 0:
		n = 120 + int(b[1]%16)
	case 1:
		n = 248 + int(b[1]%16)
	case 2:
		n = int(b[1]) % 64
	default:
		n = (int(b[1])<<8 | int(b[2])) % 420
	}
	if b[4]%16 == 0 {
		n = (int(b[1])<<8 | int(b[2])) % 2100
	}
	return []byte(personals[int(b[3])%len(personals)]), vh.Expand(id*40503+5, n)
}

type poolKey struct {
	p      ref.EqParams
	header string
	miss   ref.Miss
	dups   bool
}

var (
	poolMu sync.Mutex
	pool   = map[poolKey][][]uint32{}
)

func solutions(p ref.EqParams, header []byte, miss ref.Miss, dups bool) [][]uint32 {
	poolMu.Lock()
	defer poolMu.Unlock()
	k := poolKey{p, string(header), miss, dups}
	if s, ok := pool[k]; ok {
		return s
	}
	lim := int(p.Leaves()) * 2
	s := ref.EqSolve(p, header, miss, dups, false, 40, lim)
	pool[k] = s
	return s
}

// A vector is one line of the committed full-size vectors.
type vector struct {
	Coin, Header, Soln, Label string
}

var named = map[string]ref.EqParams{
	"zcash":    {N: 200, K: 9, Personal: "ZcashPoW"},
	"aion":     {N: 210, K: 9, Personal: "AION0PoW"},
	"btg":      {N: 144, K: 5, Personal: "BgoldPoW"},
	"zclassic": {N: 192, K: 7, Personal: "ZcashPoW"},
	"flux":     {N: 125, K: 4, Personal: "ZelProof", Twist: true},
	// fields of more than 25 bits in the compact form
	"wide": {N: 104, K: 3, Personal: "ZcashPoW"},
	// the twist with other tree heights
	"tw5": {N: 125, K: 5, Personal: "ZelProof", Twist: true},
	"tw6": {N: 125, K: 6, Personal: "ZelProof", Twist: true},
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	vh.Must(err)
	return b
}

var vectors = sync.OnceValue(func() map[string][]vector {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VH_DATA"), "vectors.jsonl"))
	vh.Must(err)
	out := map[string][]vector{}
	for _, l := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
		var v vector
		vh.Must(json.Unmarshal(l, &v))
		out[v.Coin] = append(out[v.Coin], v)
	}
	return out
})

func kind(label string) string { return strings.Fields(label)[0] }

// pickVector draws a vector with the wanted property, classes evenly.
func pickVector(t *rapid.T, coin string, want func(label string) bool) vector {
	by := map[string][]vector{}
	var keys []string
	for _, v := range vectors()[coin] {
		if want(v.Label) {
			k := kind(v.Label)
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], v)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		vh.Harnessf("no vector for %s", coin)
	}
	k := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "vector.class")]
	return by[k][rapid.IntRange(0, len(by[k])-1).Draw(t, "vector")]
}

func isValid(l string) bool   { return l == "valid" }
func isInvalid(l string) bool { return l != "valid" }

// drawValid draws a solution that the reference accepts.
func drawValid(t *rapid.T, coins []string, ts []tier) eqCase {
	if len(coins) > 0 && rapid.IntRange(0, 9).Draw(t, "named") == 0 {
		coin := rapid.SampledFrom(coins).Draw(t, "coin")
		v := pickVector(t, coin, isValid)
		p := named[coin]
		return eqCase{Coin: coin, N: p.N, K: p.K, Personal: vh.Hex(p.Personal), Twist: p.Twist, Header: unhex(v.Header), Soln: unhex(v.Soln), How: "solver (full size)"}
	}
	for {
		c := eqCase{How: "solver"}
		ti := pickTier(t, ts)
		id := rapid.Uint64Range(0, ti.headers-1).Draw(t, "header")
		if ti.headers < 1000 { // other headers in every process and for every seed
			id += uint64(vh.Shard)*7919 + vh.Seed*104729
		}
		for try := uint64(0); try < 60; try++ {
			p, h := c.setup(ti, id+try*1000003)
			s := solutions(p, h, ref.Miss{Level: -1}, false)
			if len(s) > 0 {
				i := rapid.IntRange(0, len(s)-1).Draw(t, "solution")
				c.Soln = ref.EqPack(p, s[i])
				return c
			}
			if ti.headers < 1000 && try > 4 {
				break
			}
		}
	}
}

func (c *eqCase) setup(ti tier, id uint64) (ref.EqParams, []byte) {
	personal, header := makeHeader(id)
	c.N, c.K, c.Personal, c.Header, c.Twist = ti.n, ti.k, personal, header, ti.n == 125
	return c.params(), header
}

// subtrees of a valid solution are exchanged, so that only the order is broken.
func swapNodes(idx []uint32, lvl, at int) {
	h := 1 << lvl
	i := at * 2 * h
	for k := 0; k < h; k++ {
		idx[i+k], idx[i+h+k] = idx[i+h+k], idx[i+k]
	}
}

// mutate makes a broken solution out of a valid one.
func (c *eqCase) mutate(t *rapid.T, coins []string, ts []tier) {
	p := c.params()
	idx := ref.EqUnpack(p, c.Soln)
	n, K := len(idx), int(p.K)
	max := p.Leaves() - 1
	repack := func() { c.Soln = ref.EqPack(p, idx) }
	switch how := rapid.IntRange(0, 13).Draw(t, "mutation"); how {
	case 0: // wrong order at one or more nodes
		for m := rapid.IntRange(1, 3).Draw(t, "swaps"); m > 0; m-- {
			lvl := rapid.IntRange(0, K-1).Draw(t, "level")
			swapNodes(idx, lvl, rapid.IntRange(0, n/(2<<lvl)-1).Draw(t, "node"))
		}
		repack()
		c.How = "subtrees swapped"
	case 1: // X X Y Y ... from colliding subtrees of one level
		lvl := rapid.IntRange(0, K-1).Draw(t, "level")
		h := 1 << lvl
		var subs [][]uint32
		if lvl == 0 && rapid.Bool().Draw(t, "any leaves") {
			for i := 0; i < n/2; i++ {
				subs = append(subs, []uint32{rapid.Uint32Range(0, max).Draw(t, "leaf")})
			}
		} else {
			perm := rapid.Permutation(seq(n/h)).Draw(t, "subtrees")
			rep := rapid.IntRange(0, 3).Draw(t, "repeat") == 0
			for i := 0; i < n/h/2; i++ {
				s := perm[i]
				if rep {
					s = perm[i/2]
				}
				subs = append(subs, idx[s*h:(s+1)*h])
			}
		}
		sort.SliceStable(subs, func(i, j int) bool { return subs[i][0] < subs[j][0] })
		var out []uint32
		for _, s := range subs {
			out = append(append(out, s...), s...)
		}
		idx = out
		repack()
		c.How = "subtrees doubled"
	case 2, 3: // solver results with repeated indices
		if c.Coin != "" {
			v := pickVector(t, c.Coin, func(l string) bool { return l == "duplicate" })
			c.Header, c.Soln = unhex(v.Header), unhex(v.Soln)
			c.How = "solver, repeated index"
			return
		}
		if s := solutions(p, c.Header, ref.Miss{Level: -1}, true); len(s) > 0 {
			c.Soln = ref.EqPack(p, s[rapid.IntRange(0, len(s)-1).Draw(t, "dup")])
			c.How = "solver, repeated index"
			return
		}
		swapNodes(idx, K-1, 0)
		repack()
		c.How = "subtrees swapped"
	case 4, 5, 6: // near misses: one bit of one collision
		if c.Coin != "" {
			v := pickVector(t, c.Coin, func(l string) bool { return l != "valid" && l != "duplicate" })
			c.Header, c.Soln = unhex(v.Header), unhex(v.Soln)
			c.How = "solver, one collision bit broken"
			return
		}
		m := ref.Miss{Level: rapid.IntRange(0, K).Draw(t, "miss.level"), Bit: uint32(rapid.IntRange(0, int(p.Bits())-1).Draw(t, "miss.bit"))}
		if p.Leaves() > 1<<12 {
			// one bit per level and header, so that the solver runs less often
			m.Bit = uint32(m.Level*7+len(c.Header)) % p.Bits()
			if p.Leaves() > 1<<15 {
				m.Level, m.Bit = len(c.Header)%(K+1), uint32(len(c.Header)*5)%p.Bits()
			}
		}
		if s := solutions(p, c.Header, m, false); len(s) > 0 {
			c.Soln = ref.EqPack(p, s[rapid.IntRange(0, len(s)-1).Draw(t, "near")])
			c.How = "solver, one collision bit broken"
			return
		}
		i := rapid.IntRange(0, n-1).Draw(t, "index")
		idx[i] ^= 1 << rapid.IntRange(0, int(p.Bits())).Draw(t, "bit")
		repack()
		c.How = "index changed"
	case 7:
		i := rapid.IntRange(0, n-1).Draw(t, "index")
		switch rapid.IntRange(0, 3).Draw(t, "change") {
		case 0:
			idx[i] = (idx[i] + 1) & max
		case 1:
			idx[i] = (idx[i] - 1) & max
		case 2:
			idx[i] ^= 1 << rapid.IntRange(0, int(p.Bits())).Draw(t, "bit")
		default:
			idx[i] = idx[rapid.IntRange(0, n-1).Draw(t, "from")]
		}
		repack()
		c.How = "index changed"
	case 8:
		i, j := rapid.IntRange(0, n-1).Draw(t, "i"), rapid.IntRange(0, n-1).Draw(t, "j")
		idx[i], idx[j] = idx[j], idx[i]
		repack()
		c.How = "indices exchanged"
	case 9:
		if len(c.Header) > 0 {
			i := rapid.IntRange(0, len(c.Header)*8-1).Draw(t, "bit")
			c.Header[i/8] ^= 1 << (i % 8)
		} else {
			c.Header = []byte{0}
		}
		c.How = "header bit flipped"
	case 10:
		if rapid.Bool().Draw(t, "append") || len(c.Header) == 0 {
			c.Header = append(c.Header, make([]byte, rapid.IntRange(1, 130).Draw(t, "zeros"))...)
		} else {
			c.Header = c.Header[:len(c.Header)-rapid.IntRange(1, len(c.Header)).Draw(t, "cut")]
		}
		c.How = "header length changed"
	case 11:
		switch rapid.IntRange(0, 6).Draw(t, "length") {
		case 0:
			c.Soln = c.Soln[:len(c.Soln)-1]
		case 1:
			c.Soln = append(c.Soln, rapid.Byte().Draw(t, "extra"))
		case 2:
			c.Soln = vh.Hex{}
		case 3:
			c.Soln = append(c.Soln, c.Soln...)
		case 4:
			c.Soln = c.Soln[:len(c.Soln)/2]
		case 5:
			c.Soln = append(c.Soln, make([]byte, rapid.IntRange(1, 300).Draw(t, "zeros"))...)
		default:
			c.Soln = c.Soln[:rapid.IntRange(0, len(c.Soln)).Draw(t, "keep")]
		}
		c.How = "solution length changed"
	case 12:
		for m := rapid.IntRange(1, 3).Draw(t, "flips"); m > 0; m-- {
			i := rapid.IntRange(0, len(c.Soln)*8-1).Draw(t, "bit")
			c.Soln[i/8] ^= 1 << (i % 8)
		}
		c.How = "solution bits flipped"
	default:
		switch rapid.IntRange(0, 2).Draw(t, "wild") {
		case 0:
			for i := range idx {
				idx[i] = 0
			}
			repack()
			c.How = "all zero"
		case 1: // ascending indices
			for i := range idx {
				idx[i] = uint32(i) & max
			}
			repack()
			c.How = "0, 1, 2, ..."
		default:
			c.Soln = vh.DrawBytes(t, "random", p.SolLen())
			c.How = "random bytes"
		}
	}
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

var plainCoins = []string{"zcash", "aion", "btg", "zclassic", "wide"}

func TestC09(t *testing.T) {
	vh.Run(t, vh.Prop[eqCase]{Name: "equihash-accept", Quick: 5000, Thorough: 60000,
		Rule: "solutions found by an independent Wagner solver for generated headers and parameters (and committed full-size ones for the named coins); every one is a valid solution by the reference, so every case is non-trivial",
		Gen:  func(t *rapid.T) eqCase { return drawValid(t, plainCoins, tiers) },
		Check: func(c eqCase, r *vh.Rec) error {
			want, why, got, err := c.judge(r)
			if !want {
				vh.Harnessf("the solver made an invalid solution: %s", why)
			}
			r.NonTrivial()
			if !got || err != nil {
				return fmt.Errorf("%v: valid solution gives (%v, %v)", c.params(), got, err)
			}
			return nil
		}})
	vh.Run(t, vh.Prop[eqSeries]{Name: "equihash-series", Quick: 1200, Thorough: 20000, Rule: seriesRule,
		Gen:   func(t *rapid.T) eqSeries { return drawSeries(t, plainCoins, quickTiers) },
		Check: func(c eqSeries, r *vh.Rec) error { return c.check(r) }})
}

// An eqSeries is a number of calls on one client, around one valid solution: that
// one, broken ones made from it, others of the same header, headers like it, and
// another valid one with its own header.
type eqSeries []eqCase

func drawSeries(t *rapid.T, coins []string, ts []tier) eqSeries {
	a := drawValid(t, coins, ts)
	pool := []eqCase{a}
	p := a.params()
	if a.Coin == "" {
		for _, s := range solutions(p, a.Header, ref.Miss{Level: -1}, false) {
			k := a
			k.Soln = ref.EqPack(p, s)
			pool = append(pool, k)
		}
	} else {
		for n := rapid.IntRange(0, 2).Draw(t, "others"); n > 0; n-- {
			v := pickVector(t, a.Coin, isValid)
			k := a
			k.Header, k.Soln = unhex(v.Header), unhex(v.Soln)
			pool = append(pool, k)
		}
	}
	c := eqSeries{}
	for n := rapid.IntRange(2, 6).Draw(t, "calls"); n > 0; n-- {
		k := rapid.SampledFrom(pool).Draw(t, "solution")
		k.Header, k.Soln = append(vh.Hex{}, k.Header...), append(vh.Hex{}, k.Soln...)
		switch rapid.IntRange(0, 5).Draw(t, "call") {
		case 0, 1:
		case 2, 3:
			k.mutate(t, coins, ts)
			if k.params() != p {
				continue
			}
		case 4:
			k.Header, k.How = vh.Kin(t, "header", k.Header), "header like a valid one's"
		default:
			k.Header = append(vh.Kin(t, "header", k.Header), make([]byte, rapid.IntRange(0, 3).Draw(t, "zeros"))...)
			k.How = "header like a valid one's, longer"
		}
		c = append(c, k)
	}
	return append(c, rapid.SampledFrom(pool).Draw(t, "last"))
}

func (c eqSeries) check(r *vh.Rec) error {
	cl := c[0].client()
	hbuf, sbuf := make([]byte, 0, 4096), make([]byte, 0, 4096)
	for i, k := range c {
		want, why, got, err := k.judgeOn(r, cl, hbuf, sbuf)
		if want {
			r.NonTrivial()
		}
		if want && (!got || err != nil) {
			return fmt.Errorf("%v: call %d: valid solution gives (%v, %v)", k.params(), i, got, err)
		}
		if !want && got {
			return fmt.Errorf("%v: call %d: solution broken by %q (%s) is accepted", k.params(), i, why, k.How)
		}
	}
	return nil
}

const seriesRule = "several calls on one client from one pair of buffers: valid solutions of one or several headers, broken ones made from them, and headers that share most with a valid one's; non-trivial when one solution is valid"

func checkReject(c eqCase, r *vh.Rec) error {
	want, why, got, err := c.judge(r)
	if want {
		return nil // a mutation can leave the solution valid; C09 is about those
	}
	r.NonTrivial()
	if got {
		return fmt.Errorf("%v: solution broken by %q (%s) is accepted (true, %v)", c.params(), why, c.How, err)
	}
	return nil
}

func TestC10(t *testing.T) {
	vh.Run(t, vh.Prop[eqCase]{Name: "equihash-reject", Quick: 8000, Thorough: 100000,
		Rule: "valid solutions broken by one mutation, solver results that repeat an index, and near misses that break one bit of one collision at one tree level; non-trivial when the reference finds a broken rule",
		Gen: func(t *rapid.T) eqCase {
			c := drawValid(t, plainCoins, tiers)
			c.mutate(t, plainCoins, tiers)
			return c
		}, Check: checkReject})
	vh.Run(t, vh.Prop[eqSeries]{Name: "equihash-series", Quick: 1200, Thorough: 20000, Rule: seriesRule,
		Gen:   func(t *rapid.T) eqSeries { return drawSeries(t, plainCoins, quickTiers) },
		Check: func(c eqSeries, r *vh.Rec) error { return c.check(r) }})
}

func TestC11(t *testing.T) {
	vh.Run(t, vh.Prop[eqCase]{Name: "zelhash", Quick: 2500, Thorough: 40000,
		Rule: "twisted Equihash calls on valid solutions and on mutated, repeating and near-miss ones, for Flux (125,4) and for n = 125 with other k; non-trivial when the solution has the right length",
		Gen: func(t *rapid.T) eqCase {
			var c eqCase
			if rapid.Bool().Draw(t, "full size") {
				coin := "flux"
				if o := rapid.IntRange(0, 3).Draw(t, "params"); o >= 2 {
					coin = []string{"tw5", "tw6"}[o-2]
				}
				v := pickVector(t, coin, func(string) bool { return true })
				p := named[coin]
				c = eqCase{Coin: coin, N: p.N, K: p.K, Personal: vh.Hex(p.Personal), Twist: true, Header: unhex(v.Header), Soln: unhex(v.Soln), How: "solver (full size)"}
				if !isValid(v.Label) {
					return c
				}
			} else {
				ts := twisted
				if vh.Thorough {
					ts = []tier{{125, 7, 8, 3}, {125, 6, 2, 1}, {125, 8, 12, 2}}
				}
				c = drawValid(t, nil, ts)
			}
			if rapid.IntRange(0, 4).Draw(t, "keep") != 0 {
				c.mutate(t, nil, twisted)
			}
			return c
		},
		Check: func(c eqCase, r *vh.Rec) error {
			want, why, got, err := c.judge(r)
			if len(c.Soln) == c.params().SolLen() {
				r.NonTrivial()
			}
			if want && (!got || err != nil) {
				return fmt.Errorf("%v: valid solution gives (%v, %v)", c.params(), got, err)
			}
			if !want && got {
				return fmt.Errorf("%v: solution broken by %q (%s) is accepted", c.params(), why, c.How)
			}
			return nil
		}})
	vh.Run(t, vh.Prop[eqSeries]{Name: "zelhash-series", Quick: 400, Thorough: 8000, Rule: seriesRule,
		Gen:   func(t *rapid.T) eqSeries { return drawSeries(t, []string{"flux", "flux", "tw5", "tw6"}, twisted) },
		Check: func(c eqSeries, r *vh.Rec) error { return c.check(r) }})
}
