//go:build go1.24 && linux && amd64

package store

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"
	"weak"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// lru is the model of what a client keeps.
type lru struct {
	n    int
	keep []uint64 // least recently used first
}

func (l *lru) has(e uint64) bool {
	for _, k := range l.keep {
		if k == e {
			return true
		}
	}
	return false
}

// use makes e the latest, and reports the epoch that goes.
func (l *lru) use(e uint64) (gone uint64, evicted bool) {
	for i, k := range l.keep {
		if k == e {
			l.keep = append(append(l.keep[:i:i], l.keep[i+1:]...), e)
			return
		}
	}
	if len(l.keep) >= l.n {
		gone, evicted = l.keep[0], true
		l.keep = l.keep[1:]
	}
	l.keep = append(l.keep, e)
	return
}

type memoryCase struct {
	S      setup    `json:"s"`
	Epochs []uint64 `json:"epochs"`
	Wait   []bool   `json:"wait"`
}

// one thing that happens to a storage directory
type retainOp struct {
	Do    string `json:"do"` // get, call, drop (its files vanish), plant (its files appear)
	Epoch uint64 `json:"epoch"`
	Nonce uint64 `json:"nonce,omitempty"`
}

type diskCase struct {
	S       setup      `json:"s"`
	Have    []uint64   `json:"have,omitempty"`
	Foreign []string   `json:"foreign,omitempty"`
	Ops     []retainOp `json:"ops"`
}

func drawWalk(t *rapid.T, n int, top uint64) []uint64 {
	var out []uint64
	cur := rapid.Uint64Range(0, top).Draw(t, "start")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "move") {
		case 0, 1:
			cur = min(top, cur+1)
		case 2:
			if cur > 0 {
				cur--
			}
		case 3:
			if len(out) > 0 {
				cur = out[rapid.IntRange(0, len(out)-1).Draw(t, "back")]
			}
		default:
			cur = rapid.Uint64Range(0, top).Draw(t, "jump")
		}
		out = append(out, cur)
	}
	return out
}

var foreignKinds = []string{"other coin", "other revision", "revision prefix", "suffix", "temp like", "prefix", "upper case", "subdirectory", "l1 for cache", "plain", "directory", "link", "hidden", "short seed", "long seed"}

func TestC26(t *testing.T) {
	vh.Run(t, vh.Prop[memoryCase]{
		Name: "epochs in memory", Quick: 4000, Thorough: 100000,
		Rule: "a case counts when an epoch was evicted and another was served from memory",
		Gen: func(t *rapid.T) memoryCase {
			c := memoryCase{S: drawSetup(t)}
			c.S.Z.CacheInit, c.S.Z.CacheGrowth = 128*9, 128
			c.S.Count = rapid.IntRange(1, 6).Draw(t, "count")
			c.Epochs = drawWalk(t, rapid.IntRange(1, 25).Draw(t, "n"), uint64(rapid.SampledFrom([]int{3, 9, 9, 30}).Draw(t, "top")))
			for range c.Epochs {
				c.Wait = append(c.Wait, rapid.Bool().Draw(t, "wait"))
			}
			return c
		},
		Check: func(c memoryCase, r *vh.Rec) error {
			cl := c.S.client("")
			m := &lru{n: c.S.Count}
			g0 := coins.Goroutines()
			defer coins.Settle(g0)
			seen := map[uint64][]weak.Pointer[uint32]{}
			evictions, hits := 0, 0
			err := func() error {
				held := map[uint64][][]uint32{} // old data stays alive, so that new data has new addresses
				for i, e := range c.Epochs {
					data := cl.DAG.GetCache(e).Cache()
					if len(data) == 0 {
						return fmt.Errorf("call %d: no data for epoch %d", i, e)
					}
					had := held[e]
					if m.has(e) {
						hits++
						if &had[len(had)-1][0] != &data[0] {
							return fmt.Errorf("call %d: epoch %d was generated again, although it was among the %d most recently used epochs %v", i, e, c.S.Count, m.keep)
						}
					} else {
						for _, h := range had {
							if &h[0] == &data[0] {
								return fmt.Errorf("call %d: epoch %d was still in memory, although %d epochs %v were used since", i, e, c.S.Count, m.keep)
							}
						}
						held[e] = append(had, data)
						seen[e] = append(seen[e], weak.Make(&data[0]))
					}
					if _, ev := m.use(e); ev {
						evictions++
					}
					if c.Wait[i] {
						coins.Settle(g0)
					}
				}
				return nil
			}()
			if err != nil {
				return err
			}
			coins.Settle(g0)
			if evictions > 0 && hits > 0 {
				r.NonTrivial()
				r.Label("evicted and served from memory")
			}
			r.Label("%d kept", c.S.Count)
			// what was evicted is not kept alive; one more epoch is being prepared
			if evictions > 0 {
				live := 0
				for try := 0; try < 40; try++ {
					runtime.GC()
					live = 0
					for _, ws := range seen {
						for _, w := range ws {
							if w.Value() != nil {
								live++
							}
						}
					}
					if live <= c.S.Count+1 {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				if live > c.S.Count+1 {
					return fmt.Errorf("%d caches are still in memory after %v, %d are to be kept", live, c.Epochs, c.S.Count)
				}
			}
			runtime.KeepAlive(cl)
			return nil
		},
	})
	vh.Run(t, vh.Prop[diskCase]{
		Name: "files of a coin", Quick: 1600, Thorough: 40000,
		Rule: "a case counts when generating an epoch had older files to remove, or a prepared epoch was used",
		Gen: func(t *rapid.T) diskCase {
			c := diskCase{S: drawSetup(t)}
			c.S.Count = rapid.IntRange(1, 6).Draw(t, "count")
			c.S.Rev = rapid.SampledFrom([]int{0, 1, 2, 11}).Draw(t, "rev")
			for e := uint64(0); e <= 10; e++ {
				if rapid.IntRange(0, 2).Draw(t, "have") == 0 {
					c.Have = append(c.Have, e)
				}
			}
			c.Foreign = rapid.SliceOfNDistinct(rapid.SampledFrom(foreignKinds), 0, 6, rapid.ID[string]).Draw(t, "foreign")
			walk := drawWalk(t, rapid.IntRange(1, 12).Draw(t, "n"), maxEpoch)
			for _, e := range walk {
				for rapid.IntRange(0, 2).Draw(t, "extra") == 0 {
					x := retainOp{Do: rapid.SampledFrom([]string{"drop", "drop", "plant"}).Draw(t, "do"), Epoch: rapid.Uint64Range(0, 10).Draw(t, "epoch")}
					if rapid.Bool().Draw(t, "aim") {
						x.Epoch = e
					}
					c.Ops = append(c.Ops, x)
				}
				do := "get"
				if rapid.Bool().Draw(t, "call") {
					do = "call"
				}
				c.Ops = append(c.Ops, retainOp{Do: do, Epoch: e, Nonce: rapid.Uint64Range(0, 3).Draw(t, "nonce")})
			}
			return c
		},
		Check: checkDisk,
	})
}

func checkDisk(c diskCase, r *vh.Rec) error {
	base := scratchDir()
	defer remove(base)
	dir := filepath.Join(base, "d")
	vh.Must(os.Mkdir(dir, 0755))
	g := goldOf(c.S)
	there := map[uint64]bool{}
	plant := func(e uint64) {
		for _, n := range g.of[e] {
			vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
		}
		there[e] = true
	}
	drop := func(e uint64) {
		for _, n := range g.of[e] {
			os.Remove(filepath.Join(dir, n))
		}
		there[e] = false
	}
	for _, e := range c.Have {
		plant(e)
	}
	c.plantForeign(dir, g)
	// on present files of the coin, and all files that are not the coin's
	look := func(racy uint64) (map[uint64]bool, map[string]file, error) {
		now := readDir(dir)
		have := map[uint64]bool{}
		for e, ns := range g.of {
			k := 0
			for _, n := range ns {
				if f, ok := now[n]; ok {
					k++
					if !bytes.Equal(f.Data, g.files[n]) {
						return nil, nil, fmt.Errorf("file %s (epoch %d) was altered: %s", n, e, differ(f.Data, g.files[n]))
					}
				}
				delete(now, n)
			}
			if k != 0 && k != len(ns) && e == racy {
				drop(e)
				k = 0
			}
			if k != 0 && k != len(ns) {
				return nil, nil, fmt.Errorf("of the files %q of epoch %d only %d are left", ns, e, k)
			}
			have[e] = k > 0
		}
		if sub := filepath.Join(dir, "sub"); true {
			for n, f := range readDir(sub) {
				now["sub/"+n] = f
			}
		}
		return have, now, nil
	}
	_, foreign, err := look(^uint64(0))
	if err != nil {
		return err
	}
	cl := c.S.client(dir)
	g0 := coins.Goroutines()
	defer coins.Settle(g0)
	n := uint64(c.S.Count)
	m := &lru{n: c.S.Count}
	const none = ^uint64(0)
	prepared := map[uint64]bool{none: true} // possible epochs prepared ahead
	var history []string
	for _, op := range c.Ops {
		history = append(history, fmt.Sprintf("%s %d", op.Do, op.Epoch))
		e := op.Epoch
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s keeping %d epochs, after %s: %s", c.S.name(), n, strings.Join(history, ", "), fmt.Sprintf(f, a...))
		}
		switch op.Do {
		case "drop":
			drop(e)
			continue
		case "plant":
			if !there[e] {
				plant(e)
			}
			continue
		case "call":
			s := step{Epoch: e, Nonce: op.Nonce}
			mix, digest, err := cl.Compute(s.hash(), s.height(c.S), s.Nonce)
			got := result{Mix: mix, Digest: digest}
			if err != nil {
				got.Err = err.Error()
			}
			if err := expect("call", c.S, s, got); err != nil {
				return fail("%v", err)
			}
		case "get":
			words := cl.DAG.GetCache(e).Cache()
			b := make([]byte, 0, 4*len(words))
			for _, w := range words {
				b = binary.LittleEndian.AppendUint32(b, w)
			}
			if want := g.files[g.of[e][0]][8:]; !bytes.Equal(b, want) {
				return fail("the data of epoch %d is not that which other runs store", e)
			}
		}
		coins.Settle(g0)
		racy := ^uint64(0)
		if n == 1 {
			racy = e // preparing the next epoch removes its files, while they are being written
		}
		now, others, err := look(racy)
		if err != nil {
			return fail("%v", err)
		}
		// what the files have to be
		may := map[uint64]bool{}
		want := map[uint64]bool{}
		for x := range g.of {
			want[x] = there[x]
		}
		generated := func(x uint64) {
			want[x] = true
			if x >= n {
				for y := uint64(0); y <= x-n; y++ {
					if want[y] {
						r.Label("removed old files")
						r.NonTrivial()
					}
					want[y] = false
				}
			}
		}
		if !m.has(e) {
			served := prepared[e]
			if served && len(prepared) > 1 && !there[e] {
				// either is possible, and shows
				served = !now[e]
			}
			if served && !there[e] {
				r.Label("prepared epoch used, its files gone")
				r.NonTrivial()
			} else if served {
				r.Label("prepared epoch used")
				r.NonTrivial()
			} else if !there[e] {
				r.Label("generated")
				generated(e)
			} else {
				r.Label("loaded")
			}
			next := map[uint64]bool{}
			sure := true
			for f := range prepared {
				if f == none || f <= e {
					next[e+1] = true
				} else {
					// an epoch ahead is prepared already; it may stay, or be replaced
					next[f] = true
					next[e+1] = true
					sure = false
				}
			}
			if !there[e+1] {
				if sure || now[e+1] && !prepared[e+1] {
					r.Label("prepared the next epoch")
					generated(e + 1)
					if n == 1 {
						may[e] = true // removed by this, or written after it
					}
				} else if prepared[e+1] && now[e+1] {
					generated(e + 1)
				}
			}
			if !sure && !there[e+1] && !prepared[e+1] {
				// it shows whether the next epoch was prepared
				if now[e+1] {
					next = map[uint64]bool{e + 1: true}
				} else {
					delete(next, e+1)
				}
			}
			prepared = next
		} else {
			r.Label("served from memory")
		}
		m.use(e)
		for x := range g.of {
			if now[x] == want[x] || may[x] {
				continue
			}
			if now[x] {
				return fail("the files of epoch %d are there, although they should not be", x)
			}
			return fail("the files of epoch %d are missing", x)
		}
		there = now
		for k, f := range foreign {
			x, ok := others[k]
			if !ok {
				return fail("the foreign file %s was removed", k)
			}
			if !bytes.Equal(x.Data, f.Data) || x.Ino != f.Ino || x.Mtime != f.Mtime || x.Mode != f.Mode {
				return fail("the foreign file %s was altered", k)
			}
		}
		for k := range others {
			if _, ok := foreign[k]; !ok {
				return fail("there is a file %s that no undisturbed run stores", k)
			}
		}
	}
	for _, k := range c.Foreign {
		r.Label("foreign: %s", k)
	}
	return nil
}

func (s setup) name() string { return coins.All[s.Coin].Name }

// plantForeign puts files next to those of the coin that are none of its business.
func (c diskCase) plantForeign(dir string, g *gold) {
	put := func(n string) {
		p := filepath.Join(dir, n)
		if _, own := g.files[n]; own {
			return
		}
		if _, err := os.Lstat(p); err == nil {
			return
		}
		vh.Must(os.MkdirAll(filepath.Dir(p), 0755))
		vh.Must(os.WriteFile(p, []byte("foreign "+n), 0644))
	}
	for _, k := range c.Foreign {
		switch k {
		case "other coin":
			for i := range coins.All {
				s := c.S
				s.Coin, s.Rev = i, 0
				if i != c.S.Coin {
					for _, n := range goldOf(s).sorted() {
						put(n)
					}
				}
			}
		case "other revision":
			s := c.S
			for s.Rev = 1; s.Rev <= 12; s.Rev += 11 {
				for _, n := range goldOf(s).sorted() {
					put(n)
				}
			}
		case "revision prefix":
			s := c.S
			for s.Rev = 110; s.Rev <= 111; s.Rev++ {
				for _, n := range goldOf(s).sorted() {
					put(n)
				}
			}
		case "link":
			os.Symlink("nowhere", filepath.Join(dir, "link"))
		case "directory":
			vh.Must(os.MkdirAll(filepath.Join(dir, "some dir"), 0755))
		case "plain":
			put("README")
			put("cache")
			put("l1")
		}
		for _, n := range g.sorted() {
			switch k {
			case "suffix":
				put(n + ".bak")
				put(n + "~")
				put(n + "00")
			case "temp like":
				put(n + ".123")
				put(n + ".1286182666805750136")
			case "prefix":
				put("x" + n)
				put("." + n)
			case "upper case":
				put(strings.ToUpper(n))
			case "hidden":
				put("." + n + ".swp")
			case "subdirectory":
				put("sub/" + n)
			case "l1 for cache":
				if coins.All[c.S.Coin].L1 {
					put(strings.Replace(n, "cache-", "c-", 1))
				}
			case "short seed":
				put(n[:len(n)-1])
			case "long seed":
				put(n + "0000000000000000")
			}
		}
	}
}
