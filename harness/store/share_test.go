//go:build go1.21 && linux && amd64

package store

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// several processes, each with one or more clients, over one directory
type shareCase struct {
	Have  []uint64    `json:"have,omitempty"` // epochs of the first setup already stored
	Cut   []uint64    `json:"cut,omitempty"`  // stored but damaged
	How   []int       `json:"how,omitempty"`  // in what way
	Procs []shareProc `json:"procs"`
	Kill  int         `json:"kill_us,omitempty"` // the first process is killed after this time
}

type shareProc struct {
	Setups []setup `json:"setups"`
	Steps  []step  `json:"steps"`
	Par    bool    `json:"par"`
	Rand   int64   `json:"rand,omitempty"`
}

func shareSetup(t *rapid.T) setup {
	s := setup{Coin: rapid.IntRange(0, 4).Draw(t, "coin")}
	rows := rapid.SampledFrom([]uint64{4, 200, 1200, 4000}).Draw(t, "rows")
	s.Z = coins.Sizing{CacheInit: 128 * rows, CacheGrowth: 128, DataInit: 1 << 20, DataGrowth: 1 << 16}
	return s
}

func TestC25(t *testing.T) {
	vh.Run(t, vh.Prop[shareCase]{
		Name: "processes sharing a directory", Quick: 640, Thorough: 16000, Flaky: true,
		Rule: "a case counts when two processes or clients asked for the same epoch of a coin, not stored before",
		Gen: func(t *rapid.T) shareCase {
			var c shareCase
			var pool []setup
			for i, n := 0, rapid.IntRange(1, 2).Draw(t, "pool"); i < n; i++ {
				pool = append(pool, shareSetup(t))
			}
			for i := range pool {
				// the same chain has the same sizes wherever it runs
				for k := 0; k < i; k++ {
					if pool[k].Coin == pool[i].Coin {
						pool[i].Z = pool[k].Z
					}
				}
			}
			first := rapid.Uint64Range(0, 4).Draw(t, "epoch")
			count := rapid.SampledFrom([]int{1, 2, 3, 100}).Draw(t, "count")
			seed := rapid.SampledFrom([]int64{0, 0, 1, 42}).Draw(t, "rand")
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "procs"); i < n; i++ {
				var p shareProc
				for k, m := 0, rapid.IntRange(1, 3).Draw(t, "clients"); k < m; k++ {
					s := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "which")]
					s.Count = count
					if rapid.IntRange(0, 5).Draw(t, "other count") == 0 {
						s.Count = rapid.IntRange(1, 4).Draw(t, "count")
					}
					s.Lock = rapid.IntRange(0, 9).Draw(t, "lock") == 0
					p.Setups = append(p.Setups, s)
				}
				p.Par = rapid.IntRange(0, 3).Draw(t, "par") > 0
				p.Steps = drawSteps(t, len(p.Setups), 6, 1, 6)
				for k := range p.Steps {
					p.Steps[k].Settle = p.Steps[k].Settle && rapid.Bool().Draw(t, "wait")
				}
				if rapid.IntRange(0, 3).Draw(t, "together") > 0 {
					p.Steps[0].Epoch = first
				}
				p.Rand = seed
				c.Procs = append(c.Procs, p)
			}
			for e := uint64(0); e <= 6; e++ {
				switch rapid.IntRange(0, 7).Draw(t, "have") {
				case 0:
					c.Have = append(c.Have, e)
				case 1:
					c.Cut = append(c.Cut, e)
					c.How = append(c.How, rapid.SampledFrom(spoilt).Draw(t, "how"))
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "kill") == 0 {
				c.Kill = rapid.IntRange(100, 20000).Draw(t, "kill after")
			}
			return c
		},
		Check: func(c shareCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			dir := filepath.Join(base, "d")
			vh.Must(os.Mkdir(dir, 0755))
			g := goldOf(c.Procs[0].Setups[0])
			for _, e := range c.Have {
				for _, n := range g.of[e] {
					vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
				}
			}
			cut := map[string]bool{}
			for i, e := range c.Cut {
				how := 0
				if i < len(c.How) {
					how = c.How[i]
				}
				for _, n := range g.of[e] {
					vh.Must(os.WriteFile(filepath.Join(dir, n), spoil(how, g.files[n]), 0644))
					cut[n] = true
				}
			}
			was := readDir(dir)
			var all []setup
			asked := map[string]int{}
			for _, p := range c.Procs {
				all = append(all, p.Setups...)
				seen := map[string]bool{}
				for _, s := range p.Steps {
					st := p.Setups[s.Client]
					k := fmt.Sprintf("%d/%d", st.Coin, s.Epoch)
					if p.Par {
						k2 := fmt.Sprintf("%s/%d", k, s.Client)
						if !seen[k2] {
							asked[k]++
						}
						seen[k2] = true
					} else {
						if !seen[k] {
							asked[k]++
						}
						seen[k] = true
					}
				}
			}
			whole := func(where string) error {
				now := readDir(dir)
				for n := range cut {
					if bytes.Equal(now[n].Data, was[n].Data) {
						delete(now, n)
					}
				}
				return complete(where, now, all...)
			}
			// reference results before the race, which they would only slow down
			for _, s := range all {
				goldOf(s)
			}
			var run []*child
			for _, p := range c.Procs {
				// what is done in the background gets its time before the process ends
				p.Steps[len(p.Steps)-1].Settle = true
				run = append(run, startChild(job{Setups: p.Setups, Dir: dir, Steps: p.Steps, Par: p.Par, Wait: true, Rand: p.Rand, At: -1}, base))
			}
			defer func() {
				for _, ch := range run {
					ch.cmd.Process.Kill()
				}
			}()
			for _, ch := range run {
				for !ch.ready() && !ch.ended() {
					time.Sleep(200 * time.Microsecond)
				}
			}
			for _, ch := range run {
				ch.goAhead()
			}
			start := time.Now()
			for live := true; live; {
				live = false
				for i, ch := range run {
					if i == 0 && c.Kill > 0 && time.Since(start) > time.Duration(c.Kill)*time.Microsecond {
						ch.cmd.Process.Kill()
					}
					live = live || !ch.ended()
				}
				if err := whole("while the processes run"); err != nil {
					return err
				}
			}
			for i, ch := range run {
				p := c.Procs[i]
				rep, killed, err := ch.finish()
				if err != nil {
					return fmt.Errorf("process %d: %v", i, err)
				}
				if rep.Skipped != "" {
					vh.Harnessf("process %d: %s", i, rep.Skipped)
				}
				if killed && (i > 0 || c.Kill == 0) {
					vh.Harnessf("process %d was killed", i)
				}
				if killed {
					r.Label("with one process killed")
					continue
				}
				for k, got := range rep.Results {
					if err := expect(fmt.Sprintf("process %d call %d", i, k), p.Setups[p.Steps[k].Client], p.Steps[k], got); err != nil {
						return err
					}
				}
			}
			if err := whole("after all processes are done"); err != nil {
				return err
			}
			if c.Kill == 0 {
				if x := strangers(readDir(dir), nil, all...); len(x) > 0 {
					return fmt.Errorf("temporary files %q are left behind", x)
				}
			}
			for k, n := range asked {
				var coin int
				var e uint64
				fmt.Sscanf(k, "%d/%d", &coin, &e)
				stored := false
				for _, h := range c.Have {
					stored = stored || h == e && coin == c.Procs[0].Setups[0].Coin
				}
				if n > 1 && !stored {
					r.NonTrivial()
					r.Label("same missing epoch")
				}
			}
			r.Label("%d processes", len(c.Procs))
			kinds := map[int]bool{}
			for _, s := range all {
				kinds[s.Coin] = true
			}
			r.Label("%d coins", len(kinds))
			if c.Procs[0].Rand != 0 && len(c.Procs) > 1 {
				r.Label("same random numbers in all processes")
			}
			return nil
		},
	})
}
