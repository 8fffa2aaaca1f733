//go:build go1.21 && linux

package pow

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/progpow"
	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// A sized case runs calls on one in-memory client of scaled-down size.
type sized struct {
	Coin  int          `json:"coin"`
	Z     coins.Sizing `json:"sizing"`
	Calls []coins.Call `json:"calls"`
}

func drawSized(which ...int) func(t *rapid.T) sized {
	return func(t *rapid.T) sized {
		c := sized{Coin: rapid.SampledFrom(which).Draw(t, "coin")}
		maxEpoch := uint64(40)
		if rapid.IntRange(0, 2).Draw(t, "long") == 0 {
			// few huge epochs, so that heights reach 2^64
			c.Z.EpochLen = 1 << rapid.IntRange(57, 61).Draw(t, "epoch_len")
			maxEpoch = ^uint64(0) / c.Z.EpochLen
		}
		far := c.Z.EpochLen == 0 && rapid.IntRange(0, 3).Draw(t, "far") == 0
		if far {
			maxEpoch = 2100
		}
		l := c.Z.EpochLen
		c.Z = coins.DrawSizing(t, c.Coin, maxEpoch)
		c.Z.EpochLen = l
		if l == 0 {
			l = coins.All[c.Coin].EpochLen
		}
		if far {
			c.Z.CacheInit, c.Z.CacheGrowth = 128*20, min(c.Z.CacheGrowth, 128)
		}
		// the chain's own dataset sizes, from its table and past its end
		c.Z.OwnData = maxEpoch <= 2100 && rapid.IntRange(0, 2).Draw(t, "own_data") == 0
		epoch := rapid.Uint64Range(0, maxEpoch).Draw(t, "epoch")
		for n := rapid.IntRange(1, 4).Draw(t, "calls"); n > 0; n-- {
			e := epoch
			switch rapid.IntRange(0, 3).Draw(t, "next") {
			case 0:
				e = min(e+1, maxEpoch)
			case 1:
				if far {
					// epochs that share their low bits or digits
					d := rapid.SampledFrom([]uint64{16, 64, 100, 128, 256, 512, 1000, 1024}).Draw(t, "apart")
					if e+d <= maxEpoch {
						e += d
					} else if e >= d {
						e -= d
					}
				}
			}
			epoch = e
			c.Calls = append(c.Calls, coins.Call{
				Hash:   vh.DrawBytes(t, "hash", 32),
				Height: coins.DrawHeight(t, e, l),
				Nonce:  vh.DrawU64(t, "nonce"),
			})
			if i := len(c.Calls) - 1; i > 0 && rapid.Bool().Draw(t, "kin") {
				kin(t, &c.Calls[i], c.Calls[rapid.IntRange(0, i-1).Draw(t, "of")])
			}
		}
		return c
	}
}

// kin makes a call share the header hash, the nonce or the height with an earlier
// one, or all but little of them.
func kin(t *rapid.T, k *coins.Call, old coins.Call) {
	near := func(name string, x uint64) uint64 {
		switch rapid.IntRange(0, 3).Draw(t, name+".near") {
		case 0:
			return x ^ 1<<rapid.IntRange(0, 63).Draw(t, name+".bit")
		case 1:
			return x + 1
		}
		return x
	}
	if rapid.IntRange(0, 3).Draw(t, "hash.kin") > 0 {
		k.Hash = append(vh.Hex{}, old.Hash...)
		if rapid.IntRange(0, 3).Draw(t, "hash.near") == 0 {
			b := rapid.IntRange(0, 255).Draw(t, "hash.bit")
			k.Hash[b/8] ^= 1 << (b % 8)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "nonce.kin") > 0 {
		k.Nonce = near("nonce", old.Nonce)
	}
	if rapid.IntRange(0, 2).Draw(t, "height.kin") == 0 {
		k.Height = old.Height
	}
}

func checkSized(c sized, r *vh.Rec) error {
	cl := coins.NewClient(c.Coin, c.Z, "")
	m := coins.NewModel(c.Coin, c.Z)
	r.Label("%s", cl.Coin.Name)
	buf := make([]byte, 32) // one buffer for all calls
	for i, k := range c.Calls {
		copy(buf, k.Hash)
		for _, old := range c.Calls[:i] {
			if bytes.Equal(old.Hash, k.Hash) && (old.Nonce == k.Nonce) != (old.Height == k.Height) {
				r.Label("hash and either nonce or height of an earlier call")
				break
			}
		}
		ep := m.Epoch(k.Height)
		if c.Z.OwnData {
			r.Label("the chain's dataset sizes")
		}
		if m.DataSize(ep) > 1<<32 {
			r.Label("dataset over 4 GiB")
		}
		if ep > 0 {
			r.NonTrivial()
			r.Label("epoch above 0")
		}
		if ep > 255 {
			r.Label("epoch above 255")
		}
		if k.Nonce >= 1<<32 {
			r.Label("nonce over 32 bits")
		}
		if k.Height >= 1<<32 {
			r.Label("height over 32 bits")
		}
		if k.Height%m.EpochLen() == 0 || (k.Height+1)%m.EpochLen() == 0 {
			r.Label("epoch boundary")
		}
		if c.Coin == coins.CFX {
			r.Label("nonce mod 32 = %d..%d", k.Nonce%32/8*8, k.Nonce%32/8*8+7)
			if n := ref.OctopusDegenerate(k.Hash); n > 0 {
				r.Label("degenerate quadratic")
				if n > 1 {
					r.Label("several degenerate quadratics in a row")
				}
			}
		}
		if err := coins.Agree(cl, m, buf, k.Height, k.Nonce); err != nil {
			return err
		}
	}
	return nil
}

const sizedRule = "calls on a client whose cache, dataset and epoch sizes are drawn, against the reference; non-trivial when the epoch is above 0"

// A full case uses the client exactly as its constructor made it, in memory.
type full struct {
	Coin  int          `json:"coin"`
	Calls []coins.Call `json:"calls"`
}

func drawFull(which ...int) func(t *rapid.T) full {
	return func(t *rapid.T) full {
		c := full{Coin: rapid.SampledFrom(which).Draw(t, "coin")}
		e := rapid.Uint64Range(0, 12).Draw(t, "epoch")
		if vh.Thorough {
			switch rapid.IntRange(0, 3).Draw(t, "epoch.kind") {
			case 0:
				e = rapid.Uint64Range(0, 500).Draw(t, "epoch")
			case 1:
				e = rapid.Uint64Range(2040, 2050).Draw(t, "epoch")
			}
		}
		for n := 6; n > 0; n-- {
			c.Calls = append(c.Calls, coins.Call{
				Hash:   vh.DrawBytes(t, "hash", 32),
				Height: coins.DrawHeight(t, e, coins.All[c.Coin].EpochLen),
				Nonce:  vh.DrawU64(t, "nonce"),
			})
		}
		return c
	}
}

func checkFull(c full, r *vh.Rec) error {
	z := coins.Sizing{Full: true}
	cl := coins.NewClient(c.Coin, z, "")
	m := coins.NewModel(c.Coin, z)
	r.Label("%s", cl.Coin.Name)
	r.NonTrivial()
	for _, k := range c.Calls {
		r.Label("epoch %d", m.Epoch(k.Height))
		if err := coins.Agree(cl, m, k.Hash, k.Height, k.Nonce); err != nil {
			return err
		}
	}
	for e := uint64(0); e <= 2100; e++ {
		if err := cl.CheckSizes(m, e); err != nil {
			return err
		}
	}
	return nil
}

const fullRule = "six calls in one real epoch of the client with its own sizes, and its sizes in epochs 0 to 2100; all are non-trivial"

func TestC01(t *testing.T) {
	vh.Run(t, vh.Prop[sized]{Name: "ethash-sized", Quick: 8000, Thorough: 40000, Rule: sizedRule, Gen: drawSized(coins.ETH, coins.ETC), Check: checkSized})
	vh.Run(t, vh.Prop[full]{Name: "ethash-full", Quick: 8, Thorough: 40, Rule: fullRule, Gen: drawFull(coins.ETH, coins.ETC), Check: checkFull})
}

func TestC02(t *testing.T) {
	vh.Run(t, vh.Prop[sized]{Name: "kawpow-sized", Quick: 3000, Thorough: 40000, Rule: sizedRule, Gen: drawSized(coins.RVN), Check: checkSized})
	vh.Run(t, vh.Prop[full]{Name: "kawpow-full", Quick: 8, Thorough: 40, Rule: fullRule, Gen: drawFull(coins.RVN), Check: checkFull})
}

func TestC03(t *testing.T) {
	vh.Run(t, vh.Prop[sized]{Name: "firopow-sized", Quick: 3000, Thorough: 40000, Rule: sizedRule, Gen: drawSized(coins.FIRO), Check: checkSized})
	vh.Run(t, vh.Prop[full]{Name: "firopow-full", Quick: 8, Thorough: 40, Rule: fullRule, Gen: drawFull(coins.FIRO), Check: checkFull})
}

// An engine case runs the ProgPoW engine on a dataset and L1 cache of its own.
type engine struct {
	Seed     uint64 `json:"seed"`
	Height   uint64 `json:"height"`
	DataSize uint64 `json:"dataset_size"`
	Period   uint64 `json:"period"`
	Lanes    int    `json:"lanes"`
	Regs     int    `json:"registers"`
	Rounds   int    `json:"rounds"`
	Cache    int    `json:"cache_accesses"`
	Maths    int    `json:"math_operations"`
	Words    int    `json:"l1_words"`
	Fill     uint64 `json:"fill"`
	Steer    int    `json:"steer_percent"`
}

func drawEngine(t *rapid.T) engine {
	c := engine{
		Seed: vh.DrawU64(t, "seed"), Height: vh.DrawU64(t, "height"),
		Period: rapid.Uint64Range(1, 20).Draw(t, "period"),
		Lanes:  16, Regs: 32, Rounds: 64, Cache: 11, Maths: 18, Words: 4096,
		Fill:  rapid.Uint64().Draw(t, "fill"),
		Steer: rapid.SampledFrom([]int{0, 10, 50, 90, 100}).Draw(t, "steer"),
	}
	// seeds whose generators start in awkward states: a zero shift register in some
	// lane (w equal to its number) or in the program (w equal to the low half), zeros,
	// and the fixed points of the multiply-with-carry halves
	awkward := func(name string, old uint64) uint64 {
		switch rapid.IntRange(0, 7).Draw(t, name+".start") {
		case 0:
			return ref.PPSeed(uint32(rapid.Uint64().Draw(t, name+".z")), uint32(rapid.IntRange(0, 15).Draw(t, name+".lane")))
		case 1:
			lo := vh.DrawU32(t, name+".low")
			return ref.PPSeedLow(lo, lo)
		case 2:
			odd := []uint32{0, 1, 0xffff, 0x10000, 0xffff0000, 0xffffffff, 0x9068ffff, 0x464fffff, 0x80000000}
			return ref.PPSeed(rapid.SampledFrom(odd).Draw(t, name+".z"), rapid.SampledFrom(odd).Draw(t, name+".w"))
		}
		return old
	}
	c.Seed = awkward("seed", c.Seed)
	if period := awkward("period", ^uint64(0)); period <= ^uint64(0)/c.Period && period != ^uint64(0) {
		c.Height = period*c.Period + c.Height%c.Period
	}
	c.DataSize = 256 * rapid.Uint64Range(1, 1<<rapid.IntRange(1, 32).Draw(t, "items.mag")-1).Draw(t, "items")
	c.DataSize += rapid.SampledFrom([]uint64{0, 128}).Draw(t, "half")
	if rapid.IntRange(0, 2).Draw(t, "params") > 0 {
		c.Lanes = rapid.SampledFrom([]int{1, 2, 4, 8, 16, 32, 64}).Draw(t, "lanes")
		if l := rapid.Uint64().Draw(t, "any lanes"); vh.Mix(l)%4 == 0 {
			c.Lanes = int(vh.Mix(l)/4%64) + 1 // most of these divide nothing
		}
		c.Regs = rapid.IntRange(2, 70).Draw(t, "regs")
		c.Rounds = rapid.IntRange(1, 80).Draw(t, "rounds")
		c.Cache = rapid.IntRange(0, 30).Draw(t, "cache")
		c.Maths = rapid.IntRange(0, 30).Draw(t, "maths")
		c.Words = rapid.IntRange(1, 5000).Draw(t, "words")
		// one count that does not fit into eight or sixteen bits, the others small
		if x := vh.Mix(rapid.Uint64().Draw(t, "large")); x%64 == 0 {
			c.Lanes, c.Rounds = (c.Lanes+3)/4, c.Rounds%4+1
			switch x / 64 % 5 {
			case 0:
				c.Regs = int(256 + x/512%400)
			case 1:
				c.Rounds = int(256 + x/512%300)
				c.Cache, c.Maths = c.Cache%4, c.Maths%4
			case 2:
				c.Cache = int(256 + x/512%300)
			case 3:
				c.Maths = int(256 + x/512%300)
			case 4:
				c.Words = int(1<<14 + x/512%(1<<16))
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
		// next to a period boundary
		c.Height = c.Height/c.Period*c.Period + rapid.SampledFrom([]uint64{0, c.Period - 1}).Draw(t, "at")
	}
	return c
}

func checkEngine(c engine, r *vh.Rec) error {
	p := ref.PPParams{Period: c.Period, Lanes: c.Lanes, Regs: c.Regs, Rounds: c.Rounds, Cache: c.Cache, Maths: c.Maths, CacheWords: uint32(c.Words)}
	src := ref.NewSteered(c.Fill, c.Steer, c.Words)
	want := ref.PPHash(p, c.Height, c.Seed, c.DataSize, src)
	l1, item := src.Freeze()
	cfg := &progpow.Config{
		PeriodLength: c.Period, DagLoads: 64 / c.Lanes, CacheBytes: uint32(c.Words) * 4, LaneCount: c.Lanes,
		RegisterCount: c.Regs, RoundCount: c.Rounds, RoundCacheAccesses: c.Cache, RoundMathOperations: c.Maths,
	}
	got := progpow.Hash(cfg, c.Height, c.Seed, c.DataSize, item, l1)
	if src.Count > 0 {
		r.Label("steered to awkward operands")
		r.NonTrivial()
	}
	if c.Lanes&(c.Lanes-1) != 0 {
		r.Label("lanes are no power of two")
	}
	if c.Regs > 255 || c.Rounds > 255 || c.Cache > 255 || c.Maths > 255 || c.Words >= 1<<14 {
		r.Label("a count of more than eight or fourteen bits")
	}
	if c.Lanes != 16 || c.Regs != 32 {
		r.Label("other parameters")
		r.NonTrivial()
	}
	zero := false
	for _, x := range []uint64{c.Seed, c.Height / c.Period} {
		z := (uint32(x) ^ 0x811c9dc5) * 0x01000193
		w := (uint32(x>>32) ^ z) * 0x01000193
		zero = zero || w < 16 || w == uint32(x)
	}
	if zero {
		r.Label("a generator starts with a zero register")
	}
	if c.Height/c.Period >= 1<<32 {
		r.Label("period over 32 bits")
	}
	return vh.Diff("mix hash", got, want)
}

func TestC04(t *testing.T) {
	vh.Run(t, vh.Prop[engine]{Name: "progpow-engine", Quick: 150000, Thorough: 1500000,
		Rule: "engine runs over drawn parameters, dataset and L1 words, against the reference; non-trivial when words were steered so that registers take awkward values (0, all ones, powers of two, small, equal), or the parameters are not the usual ones",
		Gen:  drawEngine, Check: checkEngine})
}

func drawOctopus(t *rapid.T) sized {
	c := drawSized(coins.CFX)(t)
	for i := range c.Calls {
		k := &c.Calls[i]
		for at := 0; at < 32; at += 8 {
			if rapid.IntRange(0, 3).Draw(t, "exponent") > 0 {
				continue
			}
			// an exponent with high powers of the factors of the group's order
			e := uint64(1)
			for _, p := range rapid.SliceOfN(rapid.SampledFrom([]uint64{2, 2, 2, 3, 3, 3, 7, 7}), 0, 24).Draw(t, "factors") {
				if e*p < ref.OctopusOrder {
					e *= p
				}
			}
			e *= rapid.Uint64Range(1, (ref.OctopusOrder-1)/e).Draw(t, "rest")
			binary.LittleEndian.PutUint64(k.Hash[at:], ref.OctopusWord(e, rapid.Uint64Range(0, 17e12).Draw(t, "lap")))
		}
		if rapid.IntRange(0, 3).Draw(t, "degenerate") == 0 {
			v2, ok := ref.OctopusDegenerateWord(binary.LittleEndian.Uint64(k.Hash), binary.LittleEndian.Uint64(k.Hash[8:]))
			if ok {
				v2 += 1032191 * rapid.Uint64Range(0, 17e12).Draw(t, "lap")
				binary.LittleEndian.PutUint64(k.Hash[16:], v2)
			}
		} else if rapid.IntRange(0, 15).Draw(t, "degenerate run") == 7 {
			// several candidates for c in a row are degenerate
			if v0, ok := ref.OctopusDegenerateRun(binary.LittleEndian.Uint64(k.Hash[8:])); ok {
				binary.LittleEndian.PutUint64(k.Hash, v0)
				e := rapid.SampledFrom([]uint64{1, 2, 3, 6, 7, 8, 27, 48, 63, 1032191}).Draw(t, "first")
				binary.LittleEndian.PutUint64(k.Hash[16:], ref.OctopusWord(e, rapid.Uint64Range(0, 17e12).Draw(t, "lap")))
			}
		}
	}
	return c
}

func TestC05(t *testing.T) {
	vh.Run(t, vh.Prop[sized]{Name: "octopus-sized", Quick: 9000, Thorough: 60000, Rule: sizedRule, Gen: drawOctopus, Check: checkSized})
	vh.Run(t, vh.Prop[full]{Name: "octopus-full", Quick: 8, Thorough: 40, Rule: fullRule, Gen: drawFull(coins.CFX), Check: checkFull})
}

// Sizes of every epoch of every coin.
type sizesCase struct {
	Beyond []uint64 `json:"beyond"`
	Hard   []uint64 `json:"hard"`
}

func TestC17(t *testing.T) {
	vh.Run(t, vh.Prop[sizesCase]{Name: "sizes", Quick: 48, Thorough: 800,
		Rule: "epochs 0 to 2100 of all five coins, drawn later epochs, and later epochs where the search for a prime passes a pseudoprime or a square of a prime, against the size rule; every case is non-trivial",
		Gen: func(t *rapid.T) sizesCase {
			c := sizesCase{Beyond: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint64 {
				return rapid.Uint64Range(2040, 2048<<rapid.IntRange(0, 25).Draw(t, "mag")).Draw(t, "epoch")
			}), 20, 60).Draw(t, "beyond")}
			for n := rapid.IntRange(4, 16).Draw(t, "hard"); n > 0; n-- {
				x := coins.All[rapid.IntRange(0, 4).Draw(t, "of coin")]
				if rapid.Bool().Draw(t, "of cache") {
					c.Hard = append(c.Hard, coins.DrawHardEpoch(t, x.CacheInit, x.CacheGrowth, 64))
				} else {
					c.Hard = append(c.Hard, coins.DrawHardEpoch(t, x.DataInit, x.DataGrowth, x.Row))
				}
			}
			return c
		},
		Check: func(c sizesCase, r *vh.Rec) error {
			r.NonTrivial()
			for _, e := range c.Hard {
				if e > 0 {
					r.Label("an epoch that starts at a pseudoprime or square")
				}
			}
			for i, coin := range coins.All {
				d := coins.FindDAG(coin.New())
				m := coins.NewModel(i, coins.Sizing{Full: true})
				one := func(e uint64) error { return (&coins.Client{Coin: coin, DAG: d}).CheckSizes(m, e) }
				for e := uint64(0); e <= 2100; e++ {
					if err := one(e); err != nil {
						return err
					}
				}
				r.Label("%s: epochs 0..2100", coin.Name)
				for _, e := range append(append([]uint64{}, c.Beyond...), c.Hard...) {
					if err := one(e); err != nil {
						return err
					}
				}
			}
			return nil
		}})
}

// A seed case looks at the epochs and seeds of heights of one coin.
type seedCase struct {
	Coin   int    `json:"coin"`
	Epoch  uint64 `json:"epoch"`
	Height uint64 `json:"height"`
	Rows   uint64 `json:"cache_rows"`
	Far    uint64 `json:"far_height"`
	// an epoch no chain will see for long
	Distant uint64 `json:"distant,omitempty"`
}

func TestC18(t *testing.T) {
	vh.Run(t, vh.Prop[seedCase]{Name: "epochs-and-seeds", Quick: 10000, Thorough: 100000,
		Rule: "heights of drawn epochs of the real chains, mostly at epoch edges: epoch number, seed hash, and the seed the generated cache starts from (read off a cache of zero mixing rounds); non-trivial when the epoch is above 0",
		Gen: func(t *rapid.T) seedCase {
			c := seedCase{Coin: rapid.IntRange(0, 4).Draw(t, "coin")}
			c.Epoch = rapid.Uint64Range(0, rapid.SampledFrom([]uint64{3, 60, 800, 2100}).Draw(t, "max")).Draw(t, "epoch")
			c.Height = coins.DrawHeight(t, c.Epoch, coins.All[c.Coin].EpochLen)
			c.Rows = 2 * rapid.Uint64Range(2, 40).Draw(t, "rows")
			c.Far = vh.DrawU64(t, "far")
			if rapid.IntRange(0, 99).Draw(t, "very far") == 0 {
				c.Distant = rapid.Uint64Range(1<<15, 1<<17).Draw(t, "distant")
			}
			return c
		},
		Check: func(c seedCase, r *vh.Rec) error {
			coin := coins.All[c.Coin]
			r.Label("%s", coin.Name)
			if c.Epoch > 0 {
				r.NonTrivial()
			}
			cl := coins.NewClient(c.Coin, coins.Sizing{CacheInit: c.Rows * 64, DataInit: 1 << 30, DataGrowth: 1 << 23}, "")
			m := coins.NewModel(c.Coin, coins.Sizing{Full: true})
			d := cl.DAG
			if e := d.CalcEpoch(c.Height); e != c.Epoch {
				return fmt.Errorf("%s height %d: epoch %d, want %d", coin.Name, c.Height, e, c.Epoch)
			}
			if e, w := d.CalcEpoch(c.Far), c.Far/coin.EpochLen; e != w {
				return fmt.Errorf("%s height %d: epoch %d, want %d", coin.Name, c.Far, e, w)
			}
			want := m.SeedOf(c.Epoch)
			first := c.Epoch * coin.EpochLen
			err := vh.FirstErr(
				vh.Diff(fmt.Sprintf("%s seed at height %d, the first of epoch %d", coin.Name, first, c.Epoch), d.SeedHash(first), want),
				vh.Diff(fmt.Sprintf("%s seed at height %d", coin.Name, c.Height), d.SeedHash(c.Height), ref.Seed(c.Height/coin.SeedLen)),
			)
			if err != nil {
				return err
			}
			if c.Distant > 0 {
				r.Label("seed of an epoch above 32767")
				if err := vh.Diff(fmt.Sprintf("%s seed of epoch %d", coin.Name, c.Distant), d.SeedHash(c.Distant*coin.EpochLen), m.SeedOf(c.Distant)); err != nil {
					return err
				}
			}
			d.CacheRounds = 0
			data := d.GetCache(c.Epoch).Cache()
			return vh.DiffWords(fmt.Sprintf("%s epoch %d: first cache row", coin.Name, c.Epoch), data[:16], ref.Words(ref.Keccak512(want)))
		}})
}

// An items case builds caches and items for a free-form configuration.
type itemsCase struct {
	Epoch   uint64   `json:"epoch"`
	Rows    uint64   `json:"rows"`
	Rounds  int      `json:"rounds"`
	Parents uint32   `json:"parents"`
	L1Rows  uint64   `json:"l1_rows"`
	Index   []uint32 `json:"index"`
	Disk    bool     `json:"disk"`
}

// A huge case is one cache of more than 4 GiB.
type hugeCase struct {
	Rows    uint64   `json:"rows"`
	Parents uint32   `json:"parents"`
	Index   []uint32 `json:"index"`
}

func (c hugeCase) check(r *vh.Rec) error {
	r.NonTrivial()
	d := dag.New(dag.Config{
		Name: "T", Revision: 1,
		DatasetInitBytes: 1 << 30, CacheInitBytes: 1 << 14,
		CacheSizes: dag.NewLookupTable([]uint64{c.Rows * 64, 64}, 2),
		MixBytes:   128, DatasetParents: c.Parents, EpochLength: 100, SeedEpochLength: 100,
		CacheRounds: 1, CachesCount: 2,
	})
	wants := make(chan []byte)
	go func() { wants <- ref.CacheBytes(c.Rows*64, ref.Seed(0), 1) }()
	ch := d.GetCache(0)
	want := <-wants
	have := ch.Cache()
	if uint64(len(have)) != c.Rows*16 {
		return fmt.Errorf("%d words, want %d", len(have), c.Rows*16)
	}
	for i, x := range have {
		if y := binary.LittleEndian.Uint32(want[4*i:]); x != y {
			return fmt.Errorf("word %d of a cache of %d rows: have %08x, want %08x", i, c.Rows, x, y)
		}
	}
	look := d.NewLookupFunc512(ch, 0)
	for _, i := range c.Index {
		// have equals the reference cache by now
		if err := vh.DiffWords(fmt.Sprintf("item %d", i), look(i), ref.Items(have, i, 1, c.Parents)); err != nil {
			return err
		}
	}
	runtime.KeepAlive(ch)
	return nil
}

func (c hugeCase) sparse(r *vh.Rec) error {
	r.NonTrivial()
	r.Label("over 2^%d rows", bits.Len64(c.Rows)-1)
	dir, err := os.MkdirTemp("", "sparse")
	vh.Must(err)
	defer os.RemoveAll(dir)
	cfg := dag.Config{
		Name: "T", Revision: 1, StorageDir: dir,
		DatasetInitBytes: 1 << 30, CacheInitBytes: 1 << 14,
		CacheSizes: dag.NewLookupTable([]uint64{64 * 13, 64 * 7}, 2),
		MixBytes:   128, DatasetParents: c.Parents, EpochLength: 100, SeedEpochLength: 100,
		CacheRounds: 1, CachesCount: 2,
	}
	// a small cache shows what the file is called and starts with
	base := coins.Goroutines()
	small := dag.New(cfg).GetCache(0)
	first := ref.Bytes(small.Cache())
	coins.Settle(base)
	var path string
	var head int64
	es, err := os.ReadDir(dir)
	vh.Must(err)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		vh.Must(err)
		if n := len(b) - len(first); n >= 0 && bytes.Equal(b[n:], first) {
			path, head = filepath.Join(dir, e.Name()), int64(n)
		}
	}
	if path == "" {
		vh.Harnessf("no file holds the cache: %v", es)
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0644)
	vh.Must(err)
	defer f.Close()
	vh.Must(f.Truncate(head + 64*int64(c.Rows)))
	row := func(i uint32) []uint32 {
		b := vh.Expand(uint64(i)<<1|1, 64)
		_, err := f.WriteAt(b, head+64*int64(i))
		vh.Must(err)
		return ref.Words(b)
	}
	var want [][16]uint32
	for _, i := range c.Index {
		want = append(want, ref.ItemOf(uint32(c.Rows), row, i, c.Parents))
	}
	cfg.CacheSizes = dag.NewLookupTable([]uint64{c.Rows * 64, 64 * 7}, 2)
	d := dag.New(cfg)
	ch := d.GetCache(0)
	look := d.NewLookupFunc512(ch, 0)
	for n, i := range c.Index {
		if err := vh.DiffWords(fmt.Sprintf("item %d of a cache of %d rows", i, c.Rows), look(i), want[n][:]); err != nil {
			return err
		}
	}
	runtime.KeepAlive(ch)
	coins.Settle(base)
	return nil
}

func TestC19(t *testing.T) {
	vh.Run(t, vh.Prop[itemsCase]{Name: "caches-and-items", Quick: 12000, Thorough: 120000,
		Rule: "cache, L1 cache and items of drawn configurations, in memory and on disk, against the reference; non-trivial when the epoch is above 0 and there is at least one mixing round and one parent",
		Gen: func(t *rapid.T) itemsCase {
			c := itemsCase{
				Epoch:   rapid.Uint64Range(0, 300).Draw(t, "epoch"),
				Rows:    rapid.Uint64Range(1, 8<<rapid.IntRange(0, 7).Draw(t, "rows.mag")).Draw(t, "rows"),
				Rounds:  rapid.IntRange(0, 5).Draw(t, "rounds"),
				Parents: uint32(rapid.IntRange(0, 600).Draw(t, "parents")),
				Disk:    rapid.Bool().Draw(t, "disk"),
			}
			switch rapid.IntRange(0, 79).Draw(t, "large") {
			case 33:
				// row numbers of more than 16 bits
				c.Rows = rapid.Uint64Range(1<<16-3, 1<<17+3).Draw(t, "rows")
				c.Rounds = rapid.IntRange(0, 2).Draw(t, "rounds")
			case 47:
				c.Parents = rapid.Uint32Range(1<<16-3, 1<<16+300).Draw(t, "parents")
			case 51, 53:
				// cleaning up a directory takes time in the square of the epoch
				c.Disk = false
				c.Epoch = rapid.SampledFrom([]uint64{301, 1000, 4095, 4096, 32768, 65535, 65536, 65537, 66000}).Draw(t, "epoch")
			}
			if c.Rows < 1<<15 && c.Parents < 1<<15 && rapid.Bool().Draw(t, "usual") {
				c.Rounds, c.Parents = 3, rapid.SampledFrom([]uint32{256, 512}).Draw(t, "usual.parents")
			}
			if rapid.Bool().Draw(t, "l1") {
				c.L1Rows = rapid.Uint64Range(1, 64).Draw(t, "l1_rows")
			}
			c.Index = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint32 { return vh.DrawU32(t, "index") }), 1, 4).Draw(t, "indices")
			return c
		},
		Check: func(c itemsCase, r *vh.Rec) error {
			if c.Epoch > 0 && c.Rounds > 0 && c.Parents > 0 {
				r.NonTrivial()
			}
			sizes := make([]uint64, c.Epoch+2)
			for i := range sizes {
				sizes[i] = c.Rows * 64
			}
			cfg := dag.Config{
				Name: "T", Revision: 1,
				DatasetInitBytes: 1 << 30, CacheInitBytes: 1 << 14,
				CacheSizes: dag.NewLookupTable(sizes, uint64(len(sizes))),
				MixBytes:   128, DatasetParents: c.Parents, EpochLength: 100, SeedEpochLength: 100,
				CacheRounds: c.Rounds, CachesCount: 2,
				L1Enabled: c.L1Rows > 0, L1CacheSize: c.L1Rows * 64, L1CacheNumItems: uint(c.L1Rows * 16),
			}
			if c.Rows > 1<<16 {
				r.Label("over 65536 rows")
			}
			if c.Parents > 1<<16 {
				r.Label("over 65536 parents")
			}
			if c.Epoch > 1<<16 {
				r.Label("epoch over 65536")
			}
			if c.Disk {
				dir, err := os.MkdirTemp("", "items")
				vh.Must(err)
				defer os.RemoveAll(dir)
				cfg.StorageDir = dir
				r.Label("on disk")
			}
			base := coins.Goroutines()
			d := dag.New(cfg)
			ch := d.GetCache(c.Epoch)
			want := ref.Cache(c.Rows*64, ref.Seed(c.Epoch), c.Rounds)
			if err := vh.DiffWords("cache", ch.Cache(), want); err != nil {
				return err
			}
			if c.L1Rows > 0 {
				r.Label("L1 cache")
				if err := vh.DiffWords("L1 cache", ch.L1(), ref.L1(want, int(c.L1Rows*16), c.Parents)); err != nil {
					return err
				}
			}
			for _, n := range []uint32{1, 2, 4} {
				look := map[uint32]dag.LookupFunc{1: d.NewLookupFunc512(ch, c.Epoch), 2: d.NewLookupFunc1024(ch, c.Epoch), 4: d.NewLookupFunc2048(ch, c.Epoch)}[n]
				for _, i := range c.Index {
					i /= n
					if i*n > 1<<31 {
						r.Label("item index over 31 bits")
					}
					if err := vh.DiffWords(fmt.Sprintf("%d-byte item %d", n*64, i), look(i), ref.Items(want, i, n, c.Parents)); err != nil {
						return err
					}
				}
			}
			coins.Settle(base)
			runtime.KeepAlive(ch)
			return nil
		}})
	if ^uint(0)>>32 == 0 {
		return // no room for huge caches
	}
	vh.Run(t, vh.Prop[hugeCase]{Name: "items-of-huge-caches", Quick: 320, Thorough: 4000, CPULimit: 600,
		Rule: "items of sparse cache files of 2^20 to 2^30 rows, of which just the rows are filled in that the reference reads, against the reference; all are non-trivial",
		Gen: func(t *rapid.T) hugeCase {
			return hugeCase{
				Rows:    1<<20 + binary.LittleEndian.Uint64(vh.Expand(rapid.Uint64().Draw(t, "rows"), 8))>>(33+rapid.Uint64().Draw(t, "mag")%12),
				Parents: rapid.SampledFrom([]uint32{256, 512}).Draw(t, "parents"),
				Index:   rapid.SliceOfN(rapid.Uint32(), 1, 20).Draw(t, "indices"),
			}
		},
		Check: func(c hugeCase, r *vh.Rec) error { return c.sparse(r) }})
	if vh.Thorough || os.Getenv("VH_REPLAY") != "" {
		// takes 9 GB of memory and some minutes
		vh.Run(t, vh.Prop[hugeCase]{Name: "cache-over-4-GiB", Quick: 1, Thorough: 1, CPULimit: 1800, Slow: true,
			Rule: "one cache of more than 2^26 rows and items of it against the reference; all are non-trivial",
			Gen: func(t *rapid.T) hugeCase {
				return hugeCase{
					Rows:    1<<26 + rapid.Uint64Range(1<<16, 1<<20).Draw(t, "rows"),
					Parents: 512,
					Index:   rapid.SliceOfN(rapid.Uint32(), 200, 200).Draw(t, "indices"),
				}
			},
			Check: func(c hugeCase, r *vh.Rec) error { return c.check(r) }})
	}
}
