//go:build go1.21 && linux

// Package api holds the checks that run over every public client at once.
package api

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// out is everything a call returned.
type out struct {
	A, B []byte
	OK   bool
	Err  string
}

// A target is one public client behind one signature: a is the hash, message or
// header, b the solution, list the edges; unused ones are ignored.
type target struct {
	name   string
	kind   string // targets of one kind take each other's calls
	coin   int    // for kind "dag"
	verify bool
	lenA   int // required length, -1 for any
	lenB   int // required solution or list length, -1 for any
	list   bool
	make   func() func(a, b []byte, list []uint64, x, y uint64) ([]byte, []byte, bool, error)
}

type fn = func(a, b []byte, list []uint64, x, y uint64) ([]byte, []byte, bool, error)

var small = coins.Sizing{CacheInit: 128 * 40, CacheGrowth: 128, DataInit: 1 << 20, DataGrowth: 1 << 14}

// other sizes and epoch lengths for a second client of the same coin
var other = coins.Sizing{CacheInit: 128 * 56, CacheGrowth: 256, DataInit: 3 << 19, DataGrowth: 1 << 13}

func dagTarget(name string, coin int, z coins.Sizing) target {
	return target{name: name, kind: "dag", coin: coin, lenA: 32, lenB: -1, make: func() fn {
		c := coins.NewClient(coin, z, "")
		return func(a, _ []byte, _ []uint64, x, y uint64) ([]byte, []byte, bool, error) {
			m, d, err := c.Compute(a, x, y)
			return m, d, false, err
		}
	}}
}

type verifier interface {
	Verify(header, soln []byte) (bool, error)
}

func eqTarget(name string, header, soln int, mk func() verifier) target {
	return target{name: name, kind: "equihash", verify: true, lenA: header, lenB: soln, make: func() fn {
		c := mk()
		return func(a, b []byte, _ []uint64, _, _ uint64) ([]byte, []byte, bool, error) {
			ok, err := c.Verify(a, b)
			return nil, nil, ok, err
		}
	}}
}

func ergTarget(name string, mk func() *autolykos2.Client) target {
	return target{name: name, kind: "autolykos", lenA: 32, lenB: -1, make: func() fn {
		c := mk()
		return func(a, _ []byte, _ []uint64, x, y uint64) ([]byte, []byte, bool, error) {
			d, err := c.Compute(a, x, y)
			return d, nil, false, err
		}
	}}
}

func songTarget(name string, mk func() *eaglesong.Client) target {
	return target{name: name, kind: "song", lenA: -1, lenB: -1, make: func() fn {
		c := mk()
		return func(a, _ []byte, _ []uint64, _, _ uint64) ([]byte, []byte, bool, error) {
			return c.Compute(a), nil, false, nil
		}
	}}
}

func cuckooTarget(name string, size int, mk func() *cuckoo.Client) target {
	return target{name: name, kind: "cuckoo", verify: true, lenA: -1, lenB: size, list: true, make: func() fn {
		c := mk()
		return func(a, _ []byte, l []uint64, _, _ uint64) ([]byte, []byte, bool, error) {
			ok, err := c.Verify(a, l)
			return nil, nil, ok, err
		}
	}}
}

var targets = []target{
	dagTarget("ETH", coins.ETH, small), dagTarget("ETC", coins.ETC, small), dagTarget("RVN", coins.RVN, small),
	dagTarget("FIRO", coins.FIRO, small), dagTarget("CFX", coins.CFX, small),
	dagTarget("ETH/other", coins.ETH, other), dagTarget("ETC/other", coins.ETC, other), dagTarget("RVN/other", coins.RVN, other),
	dagTarget("FIRO/other", coins.FIRO, other), dagTarget("CFX/other", coins.CFX, other),
	ergTarget("ERG", autolykos2.NewErgo),
	ergTarget("ERG/20", func() *autolykos2.Client { return autolykos2.New(32, 20) }),
	ergTarget("ERG/k8", func() *autolykos2.Client { return autolykos2.New(8, 26) }),
	{name: "KAS", lenA: 32, lenB: -1, make: func() fn {
		c := heavyhash.NewKaspa()
		return func(a, _ []byte, _ []uint64, x, y uint64) ([]byte, []byte, bool, error) {
			d, err := c.Compute(a, int64(x), y)
			return d, nil, false, err
		}
	}},
	songTarget("CKB", eaglesong.NewNervos),
	songTarget("CKB/8", func() *eaglesong.Client { return eaglesong.New(8, 256, 256, 64, 0x06) }),
	songTarget("CKB/d1", func() *eaglesong.Client { return eaglesong.New(43, 256, 256, 32, 0x01) }),
	eqTarget("zcash", -1, 1344, func() verifier { return equihash.NewZCash() }),
	eqTarget("aion", -1, 1408, func() verifier { return equihash.NewAion() }),
	eqTarget("btg", -1, 100, func() verifier { return equihash.NewBitcoinGold() }),
	eqTarget("zclassic", -1, 400, func() verifier { return equihash.NewZClassic() }),
	eqTarget("flux", -1, 52, func() verifier { return equihash.NewFlux() }),
	eqTarget("eq96", -1, 68, func() verifier { return equihash.New(96, 5, "ZcashPoW", false) }),
	eqTarget("beam", 40, 104, func() verifier { return beamhashiii.NewBeam() }),
	eqTarget("zcash/p", -1, 1344, func() verifier { return equihash.New(200, 9, "PowkitPW", false) }),
	eqTarget("zcash/t", -1, 1344, func() verifier { return equihash.New(200, 9, "ZcashPoW", true) }),
	cuckooTarget("aeternity", 42, cuckoo.NewAeternity),
	cuckooTarget("cortex", 42, cuckoo.NewCortex),
	cuckooTarget("aeternity/31", 42, func() *cuckoo.Client { return cuckoo.NewCuckoo(31, 42, crypto.SipNode24Legacy, nil) }),
	cuckooTarget("aeternity/12", 12, func() *cuckoo.Client { return cuckoo.NewCuckoo(29, 12, crypto.SipNode24Legacy, nil) }),
	cuckooTarget("cortex/29", 42, func() *cuckoo.Client { return cuckoo.NewCuckaroo(29, 42, nil, crypto.SipBlock48) }),
}

func find(name string) target {
	for _, x := range targets {
		if x.name == name {
			return x
		}
	}
	vh.Harnessf("no target %q", name)
	panic("")
}

// A vector is one committed full-size solution.
type vector struct{ Coin, Header, Soln, Label string }

var vectors = sync.OnceValue(func() map[string][]vector {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VH_DATA"), "vectors.jsonl"))
	vh.Must(err)
	out := map[string][]vector{}
	for _, l := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
		var v vector
		vh.Must(json.Unmarshal(l, &v))
		out[v.Coin] = append(out[v.Coin], v)
	}
	return out
})

// base is the coin a target with other parameters derives from.
func base(name string) string { n, _, _ := strings.Cut(name, "/"); return n }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	vh.Must(err)
	return b
}

var cycles = map[string]struct {
	header string
	edges  []uint64
}{
	"aeternity": {"69435549583467653534384d6e4e6c4d714b6371365444674a6631446b783548594f4d67705041783249343d71414541414837384141413d000000000000000000000000000000000000000000000000",
		[]uint64{0x003b5d47, 0x00a70508, 0x00d0aa4a, 0x0238a16a, 0x038653bf, 0x03e91d96, 0x03f4baa8, 0x062ef17e,
			0x065d7b41, 0x066fbb1e, 0x079af861, 0x08bd2cf2, 0x0956b89d, 0x0b56fb7f, 0x0c098553, 0x0c6d2c27,
			0x0d8c0fd9, 0x0ddcbb1d, 0x0e3eccde, 0x0e464bef, 0x0fb09bef, 0x1267ebb1, 0x129ef8e6, 0x138432b5,
			0x144d428b, 0x1484e6b6, 0x14efcfba, 0x158d5352, 0x159f3551, 0x15a07563, 0x160a3efd, 0x17c9b61e,
			0x184499bc, 0x1844f434, 0x1919053a, 0x197a9095, 0x1aa04947, 0x1bc3f6e5, 0x1d8b4029, 0x1e6a1fe0,
			0x1e7e4380, 0x1f5a2a50}},
	"cortex": {"6281a031a95a7669e42cf56d46b5d921b067ace29c46c89fa2698f3b895d6fcb21208e4e00000165",
		[]uint64{0x017ca085, 0x0181ca71, 0x096b8b98, 0x09d3a607, 0x0b6bb4c8, 0x0c9bbecb, 0x10d1c645, 0x13ba80dc,
			0x13cb4dc9, 0x15ebc37d, 0x164de862, 0x16a7906a, 0x18c28113, 0x199e50ca, 0x1ba70932, 0x1bc435b1,
			0x1caad714, 0x1d94ccd4, 0x1da4b49d, 0x1eff189e, 0x2030c2cf, 0x2084a6c3, 0x2111e51e, 0x241ff2d0,
			0x26bb0111, 0x275fd4a1, 0x27654850, 0x291041de, 0x2a4c1e5b, 0x2a8e54e1, 0x2ba12d29, 0x2d16cbc0,
			0x2e9e0df8, 0x3209259d, 0x32751e22, 0x33107850, 0x332b35f9, 0x33a134d4, 0x354fc224, 0x384052fb,
			0x38cdb22e, 0x3e665fed}},
}
