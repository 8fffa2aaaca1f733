//go:build go1.21 && linux && amd64

// Package store checks what the library keeps on disk: where caches are stored,
// damaged files, killed processes, failing storage, shared directories, retention.
package store

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"syscall"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// scratchDir makes an empty directory that the caller removes.
func scratchDir() string {
	d, err := os.MkdirTemp("", "st")
	vh.Must(err)
	d, err = filepath.EvalSymlinks(d)
	vh.Must(err)
	return d
}

func remove(dir string) {
	if dir == "" || dir == "/" {
		return
	}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

// A file is what a directory holds under one name.
type file struct {
	Data  []byte
	Ino   uint64
	Mtime int64
	Mode  os.FileMode
}

func readDir(dir string) map[string]file {
	out := map[string]file{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return out
	}
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		i, err := os.Lstat(p)
		if err != nil {
			continue
		}
		f := file{Mode: i.Mode()}
		if st, ok := i.Sys().(*syscall.Stat_t); ok {
			f.Ino, f.Mtime = st.Ino, st.Mtim.Nano()
		}
		if i.Mode().IsRegular() {
			f.Data, err = os.ReadFile(p)
			if err != nil {
				continue
			}
		}
		out[e.Name()] = f
	}
	return out
}

func names(m map[string]file) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// gold is what an undisturbed client stores for each epoch.
type gold struct {
	files map[string][]byte   // by name
	epoch map[string]uint64   // by name
	of    map[uint64][]string // names by epoch, sorted
}

var (
	goldMu sync.Mutex
	golds  = map[string]*gold{}
)

// epochs of cases stay below this
const maxEpoch = 9

// top is the last epoch a case may ask for.
func (s setup) top() uint64 {
	if s.Z.CacheInit > 1<<20 {
		return 2
	}
	return maxEpoch
}

// goldOf runs the client alone in an empty directory per epoch, with room for all
// of them, and notes which files belong to which epoch: those that are there both
// after a call for the epoch and after one for the epoch before.
func goldOf(s setup) *gold {
	g := goldFiles(s)
	if err := g.whole(s); err != nil {
		vh.Harnessf("%v", err)
	}
	return g
}

// whole reports an epoch for which not exactly a cache and, if the coin has one, an
// L1 cache are stored.
func (g *gold) whole(s setup) error {
	for e := uint64(0); e <= s.top()+1; e++ {
		want := 1
		if coins.All[s.Coin].L1 {
			want = 2
		}
		if len(g.of[e]) != want {
			return fmt.Errorf("%s stores %d files %q for epoch %d", coins.All[s.Coin].Name, len(g.of[e]), g.of[e], e)
		}
	}
	return nil
}

func goldFiles(s setup) *gold {
	s.Count, s.Lock = 100, false
	b, _ := json.Marshal(s)
	goldMu.Lock()
	defer goldMu.Unlock()
	if g := golds[string(b)]; g != nil {
		return g
	}
	run := func(e uint64) map[string]file {
		dir := scratchDir()
		defer remove(dir)
		p := &process{setups: []setup{s}, dir: dir}
		p.do(step{Epoch: e, Settle: true})
		return readDir(dir)
	}
	g := &gold{map[string][]byte{}, map[string]uint64{}, map[uint64][]string{}}
	add := func(e uint64, a, b map[string]file) {
		for _, n := range names(a) {
			if _, both := b[n]; !both {
				continue
			}
			if _, known := g.files[n]; !known {
				g.files[n] = a[n].Data
				g.epoch[n] = e
				g.of[e] = append(g.of[e], n)
			}
		}
	}
	first, before := run(0), run(0)
	for e := uint64(1); e <= s.top()+1; e++ {
		now := run(e)
		add(e, now, before)
		before = now
	}
	// the call for epoch 0 stores epoch 1 as well
	add(0, run(0), first)
	golds[string(b)] = g
	return g
}

var (
	memMu   sync.Mutex
	memSeen = map[string]result{}
	memCl   = map[string]*coins.Client{}
)

// alone is the result of a call on a client that keeps everything in memory.
func alone(s setup, st step) result {
	s.Count, s.Lock = 0, false
	memMu.Lock()
	defer memMu.Unlock()
	kc, _ := json.Marshal(s)
	st.Client, st.Fresh, st.Settle = 0, false, false
	kr, _ := json.Marshal(st)
	key := string(kc) + string(kr)
	if r, ok := memSeen[key]; ok {
		return r
	}
	c := memCl[string(kc)]
	if c == nil {
		c = s.client("")
		c.DAG.CachesCount = maxEpoch + 3
		memCl[string(kc)] = c
	}
	if len(memCl) > 300 {
		memCl = map[string]*coins.Client{string(kc): c}
	}
	base := coins.Goroutines()
	mix, digest, err := c.Compute(st.hash(), st.height(s), st.Nonce)
	coins.Settle(base)
	r := result{Mix: mix, Digest: digest}
	if err != nil {
		r.Err = err.Error()
	}
	if len(memSeen) > 200000 {
		memSeen = map[string]result{}
	}
	memSeen[key] = r
	return r
}

// expect compares a result with the in-memory one.
func expect(where string, s setup, st step, got result) error {
	want := alone(s, st)
	if !got.same(want) {
		return fmt.Errorf("%s: %s %v gives %v, an in-memory client gives %v", where, coins.All[s.Coin].Name, st, got, want)
	}
	return nil
}

// setups come from a small pool, so that reference runs are shared between cases.
func drawSetup(t *rapid.T) setup {
	s := setup{Coin: rapid.IntRange(0, 4).Draw(t, "coin")}
	switch rapid.IntRange(0, 3).Draw(t, "sizing") {
	case 0: // same size in every epoch
		s.Z = coins.Sizing{CacheInit: 128 * 9, CacheGrowth: 0, DataInit: 1 << 20}
	case 1:
		s.Z = coins.Sizing{CacheInit: 128 * 70, CacheGrowth: 128 * 3, DataInit: 1 << 22, DataGrowth: 1 << 16}
	case 2: // more than a page, and not a multiple of it
		s.Z = coins.Sizing{CacheInit: 128 * 200, CacheGrowth: 128 * 16, DataInit: 5 << 30, DataGrowth: 1 << 23}
	default:
		s.Z = coins.Sizing{CacheInit: 128 * 2, CacheGrowth: 128, DataInit: 1 << 16, DataGrowth: 1 << 12}
	}
	if rapid.IntRange(0, 2).Draw(t, "short epochs") == 0 {
		s.Z.EpochLen = 20
	}
	return s
}

func drawStep(t *rapid.T, clients int, top uint64) step {
	return step{Client: rapid.IntRange(0, clients-1).Draw(t, "client"), Epoch: rapid.Uint64Range(0, top).Draw(t, "epoch"),
		Off: rapid.SampledFrom([]uint64{0, 1, 7, ^uint64(0) >> 1}).Draw(t, "block"), Nonce: rapid.Uint64Range(0, 7).Draw(t, "nonce"),
		Seed: rapid.Uint64Range(0, 3).Draw(t, "hash")}
}

func drawSteps(t *rapid.T, clients int, top uint64, lo, hi int) []step {
	var out []step
	n := rapid.IntRange(lo, hi).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := drawStep(t, clients, top)
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "next epoch") == 0 {
			s.Epoch = min(top, out[i-1].Epoch+1)
			s.Client = out[i-1].Client
		}
		s.Fresh = rapid.IntRange(0, 5).Draw(t, "fresh") == 0
		s.Settle = rapid.Bool().Draw(t, "settle")
		out = append(out, s)
	}
	return out
}

// complete reports the first file under a final name of one of the setups that
// does not hold the bytes an undisturbed run stores there.
func complete(where string, dir map[string]file, setups ...setup) error {
	for _, s := range setups {
		g := goldOf(s)
		for n, f := range dir {
			want, final := g.files[n]
			if final && f.Mode.IsRegular() && !bytes.Equal(f.Data, want) {
				return fmt.Errorf("%s: file %s (%s, epoch %d) is not complete: %s", where, n, coins.All[s.Coin].Name, g.epoch[n], differ(f.Data, want))
			}
		}
	}
	return nil
}

func differ(have, want []byte) string {
	if len(have) != len(want) {
		return fmt.Sprintf("%d bytes of %d", len(have), len(want))
	}
	for i := range have {
		if have[i] != want[i] {
			return fmt.Sprintf("byte %d of %d differs", i, len(want))
		}
	}
	return "equal"
}

// strangers lists names that are neither final names of the setups nor in allowed.
func strangers(dir map[string]file, allowed map[string]bool, setups ...setup) []string {
	var out []string
	for _, n := range names(dir) {
		ok := allowed[n]
		for _, s := range setups {
			if _, final := goldOf(s).files[n]; final {
				ok = true
			}
		}
		if !ok {
			out = append(out, n)
		}
	}
	return out
}

func sum(b []byte) string { h := sha256.Sum256(b); return fmt.Sprintf("%x", h[:4]) }

func (g *gold) sorted() []string {
	var out []string
	for n := range g.files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// spoil makes a file that is not complete from one that is.
func spoil(how int, good []byte) []byte {
	b := append([]byte{}, good...)
	switch how {
	case 1: // of the right size, but not filled in
		return make([]byte, len(b))
	case 2, 3: // all but the magic
		b[(how-2)*5] ^= 0x10
		return b
	case 4:
		return append(b, make([]byte, 64)...)
	case 5:
		return nil
	case 6:
		return b[:len(b)-4]
	case 7: // the right size and the first word of the magic
		x := make([]byte, len(b))
		copy(x, b[:4])
		return x
	case 8:
		return b[:len(b)/3]
	}
	return b[:len(b)/2]
}

var spoilt = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
