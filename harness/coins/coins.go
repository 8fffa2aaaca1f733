//go:build go1.21 && linux

// Package coins gives the checks one view of the five DAG clients: the public
// client, the DAG inside it (found by type, so that sizes and storage can be set),
// and the reference evaluation with the chain's published parameters.
package coins

import (
	"fmt"
	"reflect"
	"sync"
	"unsafe"

	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

// Coin holds a chain's published parameters.
type Coin struct {
	Name                                         string
	EpochLen, SeedLen                            uint64
	CacheInit, CacheGrowth, DataInit, DataGrowth uint64
	Row                                          uint64
	Parents                                      uint32
	Nodes                                        uint32 // nodes per lookup the algorithm makes
	L1                                           bool
	New                                          func() any
}

const (
	ETH = iota
	ETC
	RVN
	FIRO
	CFX
)

var All = []*Coin{
	{"ETH", 30000, 30000, 1 << 24, 1 << 17, 1 << 30, 1 << 23, 128, 256, 1, false, func() any { return ethash.NewEthereum() }},
	{"ETC", 60000, 30000, 1 << 24, 1 << 17, 1 << 30, 1 << 23, 128, 256, 1, false, func() any { return ethash.NewEthereumClassic() }},
	{"RVN", 7500, 7500, 1 << 24, 1 << 17, 1 << 30, 1 << 23, 128, 512, 4, true, func() any { return kawpow.NewRavencoin() }},
	{"FIRO", 1300, 1300, 1 << 24, 1 << 17, 3 << 29, 1 << 23, 128, 512, 4, true, func() any { return firopow.NewFiro() }},
	{"CFX", 1 << 19, 1 << 19, 1 << 24, 1 << 16, 1 << 32, 1 << 24, 256, 256, 1, false, func() any { return octopus.NewConflux() }},
}

// Sizing replaces the parts of a client's configuration a check varies. Zero
// epoch length keeps the chain's own.
type Sizing struct {
	CacheInit   uint64 `json:"cache_init"`
	CacheGrowth uint64 `json:"cache_growth"`
	DataInit    uint64 `json:"data_init"`
	DataGrowth  uint64 `json:"data_growth"`
	EpochLen    uint64 `json:"epoch_len,omitempty"`
	Full        bool   `json:"full,omitempty"`     // leave all sizes as the client has them
	OwnData     bool   `json:"own_data,omitempty"` // leave the dataset sizes as the client has them
}

// Client is one client under test.
type Client struct {
	Coin *Coin
	Z    Sizing
	DAG  *dag.DAG
	raw  any
}

type compute2 interface {
	Compute([]byte, uint64, uint64) ([]byte, []byte, error)
}
type compute1 interface {
	Compute([]byte, uint64, uint64) ([]byte, error)
}

// FindDAG looks for the *dag.DAG a client holds.
func FindDAG(v any) *dag.DAG {
	want := reflect.TypeOf((*dag.DAG)(nil))
	var walk func(reflect.Value, int) *dag.DAG
	walk = func(x reflect.Value, depth int) *dag.DAG {
		if depth > 6 {
			return nil
		}
		switch x.Kind() {
		case reflect.Interface:
			return walk(x.Elem(), depth+1)
		case reflect.Ptr:
			if x.Type() == want && !x.IsNil() {
				return (*dag.DAG)(unsafe.Pointer(x.Pointer()))
			}
			if !x.IsNil() {
				return walk(x.Elem(), depth+1)
			}
		case reflect.Struct:
			if x.Type() == want.Elem() && x.CanAddr() {
				return (*dag.DAG)(unsafe.Pointer(x.UnsafeAddr()))
			}
			for i := 0; i < x.NumField(); i++ {
				if d := walk(x.Field(i), depth+1); d != nil {
					return d
				}
			}
		}
		return nil
	}
	return walk(reflect.ValueOf(v), 0)
}

// NewClient makes the coin's own client and then applies sizes and the storage
// directory ("" keeps everything in memory).
func NewClient(coin int, z Sizing, dir string) *Client {
	c := &Client{Coin: All[coin], Z: z, raw: All[coin].New()}
	c.DAG = FindDAG(c.raw)
	if c.DAG == nil {
		vh.Harnessf("no DAG inside the %s client", c.Coin.Name)
	}
	d := c.DAG
	d.StorageDir = dir
	if !z.Full {
		d.CacheInitBytes, d.CacheGrowthBytes = z.CacheInit, z.CacheGrowth
		d.CacheSizes = nil
		if !z.OwnData {
			d.DatasetInitBytes, d.DatasetGrowthBytes = z.DataInit, z.DataGrowth
			d.DatasetSizes = nil
		}
	}
	if z.EpochLen != 0 {
		// keep the ratio the client itself has
		d.SeedEpochLength = z.EpochLen / (d.EpochLength / d.SeedEpochLength)
		d.EpochLength = z.EpochLen
	}
	return c
}

// CheckSizes compares cache and dataset size of one epoch of a client that has its
// own sizes with the chain's definition.
func (c *Client) CheckSizes(m *Model, epoch uint64) error {
	if cs, w := c.DAG.CacheSize(epoch), m.CacheSize(epoch); cs != w {
		return fmt.Errorf("%s epoch %d: cache size %d, want %d", c.Coin.Name, epoch, cs, w)
	}
	if ds, w := c.DAG.DatasetSize(epoch), m.DataSize(epoch); ds != w {
		return fmt.Errorf("%s epoch %d: dataset size %d, want %d", c.Coin.Name, epoch, ds, w)
	}
	return nil
}

// Compute calls the client; mix is nil for coins without one.
func (c *Client) Compute(hash []byte, height, nonce uint64) (mix, digest []byte, err error) {
	switch x := c.raw.(type) {
	case compute2:
		return x.Compute(hash, height, nonce)
	case compute1:
		digest, err = x.Compute(hash, height, nonce)
		return nil, digest, err
	}
	vh.Harnessf("no Compute on %T", c.raw)
	return
}

// Raw is the public client value.
func (c *Client) Raw() any { return c.raw }

// Model is the reference for one sizing of a coin, with its caches memoized.
type Model struct {
	Coin *Coin
	Z    Sizing
	mu   sync.Mutex
	ep   map[uint64]*EpochRef
}

// EpochRef is the reference data of an epoch.
type EpochRef struct {
	Seed     []byte
	Cache    []uint32
	L1       []uint32
	DataSize uint64
	CacheLen uint64
}

func NewModel(coin int, z Sizing) *Model {
	c := All[coin]
	if z.Full {
		l := z.EpochLen
		z = Sizing{CacheInit: c.CacheInit, CacheGrowth: c.CacheGrowth, DataInit: c.DataInit, DataGrowth: c.DataGrowth, EpochLen: l, Full: true}
	}
	if z.OwnData {
		z.DataInit, z.DataGrowth = c.DataInit, c.DataGrowth
	}
	return &Model{Coin: c, Z: z, ep: map[uint64]*EpochRef{}}
}

func (m *Model) EpochLen() uint64 {
	if m.Z.EpochLen != 0 {
		return m.Z.EpochLen
	}
	return m.Coin.EpochLen
}

func (m *Model) Epoch(height uint64) uint64 { return height / m.EpochLen() }

// SeedOf is the seed hash of an epoch: one Keccak per seed epoch completed at its
// first block.
func (m *Model) SeedOf(epoch uint64) []byte {
	per := m.Coin.EpochLen / m.Coin.SeedLen
	return ref.Seed(epoch * per)
}

func (m *Model) CacheSize(epoch uint64) uint64 {
	return ref.SizeAt(m.Z.CacheInit, m.Z.CacheGrowth, 64, epoch)
}

func (m *Model) DataSize(epoch uint64) uint64 {
	return ref.SizeAt(m.Z.DataInit, m.Z.DataGrowth, m.Coin.Row, epoch)
}

func (m *Model) At(epoch uint64) *EpochRef {
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := m.ep[epoch]; e != nil {
		return e
	}
	e := &EpochRef{Seed: m.SeedOf(epoch), DataSize: m.DataSize(epoch), CacheLen: m.CacheSize(epoch)}
	e.Cache = ref.Cache(e.CacheLen, e.Seed, 3)
	if m.Coin.L1 {
		e.L1 = ref.L1(e.Cache, 4096, m.Coin.Parents)
	}
	m.ep[epoch] = e
	return e
}

// Compute is the specified result of a call.
func (m *Model) Compute(hash []byte, height, nonce uint64) (mix, digest []byte) {
	e := m.At(m.Epoch(height))
	items := func(i uint32) []uint32 { return ref.Items(e.Cache, i, m.Coin.Nodes, m.Coin.Parents) }
	switch m.Coin.Name {
	case "ETH", "ETC":
		return ref.Hashimoto(hash, nonce, e.DataSize, e.Cache, m.Coin.Parents)
	case "RVN":
		return ref.KawPow(hash, height, nonce, e.DataSize, items, e.L1)
	case "FIRO":
		return ref.FiroPow(hash, height, nonce, e.DataSize, items, e.L1)
	}
	return nil, ref.Octopus(hash, nonce, e.DataSize, e.Cache, m.Coin.Parents)
}

// Agree runs one call on the client and compares it with the model.
func Agree(c *Client, m *Model, hash []byte, height, nonce uint64) error {
	mix, digest, err := c.Compute(hash, height, nonce)
	if err != nil {
		return fmt.Errorf("%s Compute(%x, %d, %d): unexpected error %v", c.Coin.Name, hash, height, nonce, err)
	}
	wm, wd := m.Compute(hash, height, nonce)
	at := fmt.Sprintf("%s height %d (epoch %d) nonce %#x hash %x", c.Coin.Name, height, m.Epoch(height), nonce, hash)
	return vh.FirstErr(vh.Diff(at+": mix hash", mix, wm), vh.Diff(at+": digest", digest, wd))
}
