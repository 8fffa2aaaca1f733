//go:build go1.21 && linux

// Package conc checks what one DAG client does when many goroutines call it.
package conc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

type call struct {
	Epoch uint64 `json:"epoch"`
	Off   uint64 `json:"off"`
	Nonce uint64 `json:"nonce"`
	Seed  uint64 `json:"seed"`
	Pause int    `json:"pause,omitempty"` // us before the call
}

type concCase struct {
	Coin  int          `json:"coin"`
	Z     coins.Sizing `json:"z"`
	Count int          `json:"count"`
	Disk  bool         `json:"disk,omitempty"`
	Warm  bool         `json:"warm,omitempty"` // files of an earlier run are there
	Lock  bool         `json:"lock,omitempty"`
	GC    int          `json:"gc"` // collector: 0 as usual, 1 often, 2 all the time
	Procs int          `json:"procs"`
	Calls [][]call     `json:"calls"` // by goroutine
}

type key struct {
	S string
	C call
}

var (
	seen    = map[key][2][]byte{}
	clients = map[string]*coins.Client{}
)

// alone is what a call returns on a client that only this goroutine uses.
func (c *concCase) alone(x call) (mix, digest []byte) {
	z, _ := json.Marshal([]any{c.Coin, c.Z})
	x.Pause = 0
	k := key{string(z), x}
	if r, ok := seen[k]; ok {
		return r[0], r[1]
	}
	cl := clients[string(z)]
	if cl == nil {
		if len(clients) > 40 {
			clients = map[string]*coins.Client{}
		}
		cl = coins.NewClient(c.Coin, c.Z, "")
		cl.DAG.CachesCount = 20
		clients[string(z)] = cl
	}
	base := coins.Goroutines()
	m, d, err := cl.Compute(vh.Expand(x.Seed, 32), c.height(x), x.Nonce)
	if err != nil {
		vh.Harnessf("alone: %v", err)
	}
	coins.Settle(base)
	if len(seen) > 100000 {
		seen = map[key][2][]byte{}
	}
	seen[k] = [2][]byte{m, d}
	return m, d
}

func (c *concCase) height(x call) uint64 {
	return x.Epoch*coins.All[c.Coin].EpochLen + x.Off%coins.All[c.Coin].EpochLen
}

func draw(t *rapid.T) concCase {
	c := concCase{Coin: rapid.IntRange(0, 4).Draw(t, "coin"), Count: rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "count")}
	rows := rapid.SampledFrom([]uint64{8, 40, 100, 400}).Draw(t, "rows")
	c.Z = coins.Sizing{CacheInit: 128 * rows, CacheGrowth: 128 * rapid.SampledFrom([]uint64{0, 1, 7}).Draw(t, "growth"), DataInit: 1 << 22, DataGrowth: 1 << 16}
	c.Disk = rapid.IntRange(0, 2).Draw(t, "disk") > 0
	c.Warm = rapid.Bool().Draw(t, "warm")
	c.Lock = rapid.IntRange(0, 5).Draw(t, "lock") == 0
	c.GC = rapid.IntRange(0, 2).Draw(t, "gc")
	c.Procs = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
	g := rapid.IntRange(2, 8).Draw(t, "goroutines")
	first := rapid.Uint64Range(0, 5).Draw(t, "first")
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	for i := 0; i < g; i++ {
		var cs []call
		e := first
		for k, n := 0, rapid.IntRange(1, 5).Draw(t, "calls"); k < n; k++ {
			switch kind {
			case 0: // all move forward together
				if k > 0 {
					e++
				}
			case 1: // anywhere
				e = rapid.Uint64Range(0, 7).Draw(t, "epoch")
			case 2: // neighbours
				e = first + rapid.Uint64Range(0, 2).Draw(t, "epoch")
			default: // each goroutine its own way
				e = (first + uint64(i)*3 + uint64(k)) % 8
			}
			x := call{Epoch: e, Off: rapid.SampledFrom([]uint64{0, 1, 9, 1 << 40}).Draw(t, "block"), Nonce: rapid.Uint64Range(0, 3).Draw(t, "nonce"), Seed: rapid.Uint64Range(0, 3).Draw(t, "hash")}
			if rapid.IntRange(0, 3).Draw(t, "pause") == 0 {
				x.Pause = rapid.IntRange(1, 3000).Draw(t, "us")
			}
			cs = append(cs, x)
		}
		c.Calls = append(c.Calls, cs)
	}
	return c
}

func check(c concCase, r *vh.Rec) error {
	want := make([][][2][]byte, len(c.Calls))
	epochs := map[uint64]int{}
	for i, cs := range c.Calls {
		mine := map[uint64]bool{}
		for _, x := range cs {
			m, d := c.alone(x)
			want[i] = append(want[i], [2][]byte{m, d})
			mine[x.Epoch] = true
		}
		for e := range mine {
			epochs[e]++
		}
	}
	dir := ""
	if c.Disk {
		var err error
		dir, err = os.MkdirTemp("", "conc")
		vh.Must(err)
		defer os.RemoveAll(dir)
	}
	base := coins.Goroutines()
	if c.Disk && c.Warm {
		w := coins.NewClient(c.Coin, c.Z, dir)
		w.DAG.CachesCount = 100
		for e := range epochs {
			if e%2 == 0 {
				w.DAG.GetCache(e)
			}
		}
		coins.Settle(base)
		r.Label("some epochs on disk")
	}
	cl := coins.NewClient(c.Coin, c.Z, dir)
	cl.DAG.CachesCount = c.Count
	cl.DAG.CachesLockMmap = c.Lock
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	if c.GC > 0 {
		defer debug.SetGCPercent(debug.SetGCPercent(1))
	}
	var stop atomic.Bool
	var gc sync.WaitGroup
	if c.GC == 2 {
		gc.Add(1)
		go func() {
			defer gc.Done()
			for !stop.Load() {
				runtime.GC()
				time.Sleep(10 * time.Microsecond)
			}
		}()
	}
	errs := make([]error, len(c.Calls))
	var wg, ready sync.WaitGroup
	ready.Add(len(c.Calls))
	start := make(chan struct{})
	for i := range c.Calls {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			defer func() {
				if e := recover(); e != nil && errs[i] == nil {
					errs[i] = fmt.Errorf("goroutine %d: panic: %v", i, e)
				}
			}()
			hashes := make([][]byte, len(c.Calls[i]))
			for k, x := range c.Calls[i] {
				hashes[k] = vh.Expand(x.Seed, 32)
			}
			ready.Done()
			<-start
			for k, x := range c.Calls[i] {
				if x.Pause > 0 {
					time.Sleep(time.Duration(x.Pause) * time.Microsecond)
				}
				m, d, err := cl.Compute(hashes[k], c.height(x), x.Nonce)
				if err != nil {
					errs[i] = fmt.Errorf("goroutine %d call %d: %v", i, k, err)
					return
				}
				if !bytes.Equal(m, want[i][k][0]) || !bytes.Equal(d, want[i][k][1]) {
					errs[i] = fmt.Errorf("goroutine %d call %d (%s epoch %d) gives (%x, %x), alone it gives (%x, %x)", i, k, coins.All[c.Coin].Name, x.Epoch, m, d, want[i][k][0], want[i][k][1])
					return
				}
			}
		}(i)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	stop.Store(true)
	gc.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	coins.Settle(base)
	shared := false
	for _, n := range epochs {
		shared = shared || n > 1
	}
	if shared && len(epochs) > c.Count {
		r.NonTrivial()
		r.Label("shared epochs and eviction")
	} else if shared {
		r.NonTrivial()
		r.Label("shared epochs")
	} else {
		r.Label("separate epochs")
	}
	r.Label("collector %d", c.GC)
	if c.Disk {
		r.Label("on disk")
	} else {
		r.Label("in memory")
	}
	r.Label("%s", coins.All[c.Coin].Name)
	return nil
}

func TestC24(t *testing.T) {
	q, th := 1600, 24000
	if os.Getenv("VH_UNIT") == "race" {
		q, th = 400, 8000
	}
	vh.Run(t, vh.Prop[concCase]{
		Name: "goroutines on one client " + os.Getenv("VH_UNIT"), Quick: q, Thorough: th, Flaky: true, CPULimit: 400,
		Rule: "2 to 8 goroutines call one client at once, over shared and separate epochs, with eviction and collections; a case counts when two goroutines used the same epoch",
		Gen:  draw, Check: check})
}
