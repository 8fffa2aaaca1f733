//go:build go1.21 && linux && amd64

package store

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// a process that is killed, and one that comes after it
type crashCase struct {
	S     setup    `json:"s"`
	Have  []uint64 `json:"have,omitempty"` // epochs already stored
	Cut   []uint64 `json:"cut,omitempty"`  // epochs stored but damaged
	How   []int    `json:"how,omitempty"`  // in what way
	Steps []step   `json:"steps"`
	At    int      `json:"at"`
	Kill  string   `json:"kill,omitempty"`     // system call that is never survived
	Delay int      `json:"delay_us,omitempty"` // or the time it has
	Left  []left   `json:"left,omitempty"`     // what processes killed before left
	Age   int      `json:"age_s,omitempty"`    // and how long ago that was
	Next  []step   `json:"next"`
}

// left is a file under a name that is not final, as a process leaves it that
// was killed while generating: of the full size, but only partly filled in
type left struct {
	Epoch uint64 `json:"epoch"`
	File  int    `json:"file,omitempty"`
	Tail  string `json:"tail"`
	Full  int    `json:"full"` // 16ths of the file that are there; -1 for the first word only
	Short bool   `json:"short,omitempty"`
}

func drawLeft(t *rapid.T, hi uint64) []left {
	var out []left
	for n := rapid.IntRange(0, 2).Draw(t, "left"); n > 0; n-- {
		out = append(out, left{
			Epoch: rapid.Uint64Range(0, hi).Draw(t, "leftEpoch"),
			File:  rapid.IntRange(0, 1).Draw(t, "leftFile"),
			Tail:  fmt.Sprintf(".%d", rapid.Uint64().Draw(t, "tail")),
			Full:  rapid.SampledFrom([]int{-1, -1, 0, 1, 8, 15, 16}).Draw(t, "full"),
			Short: rapid.IntRange(0, 3).Draw(t, "short") == 0,
		})
	}
	return out
}

func (l left) put(dir string, g *gold) {
	names := g.of[l.Epoch]
	if len(names) == 0 {
		return
	}
	n := names[l.File%len(names)]
	whole := g.files[n]
	k := len(whole) * l.Full / 16
	if l.Full < 0 {
		k = 8
	}
	b := make([]byte, len(whole))
	copy(b, whole[:k])
	if l.Short {
		b = b[:k]
	}
	vh.Must(os.MkdirAll(dir, 0755))
	vh.Must(os.WriteFile(filepath.Join(dir, n+l.Tail), b, 0644))
}

// age makes every file in dir seem that much older
func age(dir string, seconds int) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	when := time.Now().Add(-time.Duration(seconds) * time.Second)
	for _, e := range es {
		os.Chtimes(filepath.Join(dir, e.Name()), when, when)
	}
}

var ages = []int{0, 0, 2, 3600, 86400 * 400, -3600}

func bigSetup(t *rapid.T) setup {
	s := setup{Coin: rapid.SampledFrom([]int{coins.ETH, coins.RVN, coins.CFX}).Draw(t, "coin")}
	rows := rapid.SampledFrom([]uint64{9000, 20000}).Draw(t, "rows")
	s.Z = coins.Sizing{CacheInit: 128 * rows, CacheGrowth: 128 * 16, DataInit: 1 << 20, DataGrowth: 1 << 16}
	return s
}

func (c crashCase) run(r *vh.Rec, base string, watch bool) error {
	dir := filepath.Join(base, "d")
	g := goldOf(c.S)
	if len(c.Have)+len(c.Cut) > 0 {
		vh.Must(os.Mkdir(dir, 0755))
	}
	for _, e := range c.Have {
		for _, n := range g.of[e] {
			vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
		}
	}
	cut := map[string]bool{}
	for i, e := range c.Cut {
		how := 0
		if i < len(c.How) {
			how = c.How[i]
		}
		for _, n := range g.of[e] {
			vh.Must(os.WriteFile(filepath.Join(dir, n), spoil(how, g.files[n]), 0644))
			cut[n] = true
		}
	}
	for _, l := range c.Left {
		l.put(dir, g)
	}
	age(dir, c.Age)
	was := readDir(dir)
	// what stands under a final name is complete, but for what was cut before
	whole := func(where string) error {
		now := readDir(dir)
		for n := range cut {
			if bytes.Equal(now[n].Data, was[n].Data) {
				delete(now, n)
			}
		}
		return complete(where, now, c.S)
	}
	j := job{Setups: []setup{c.S}, Dir: dir, Steps: c.Steps, At: c.At, Wait: watch}
	if c.Kill != "" {
		j.Faults = []string{c.Kill}
	}
	ch := startChild(j, base)
	looks := 0
	if watch {
		for !ch.ready() {
			time.Sleep(200 * time.Microsecond)
			if ch.ended() {
				break
			}
		}
		ch.goAhead()
		end := time.Now().Add(time.Duration(c.Delay) * time.Microsecond)
		for !ch.ended() && (c.Delay == 0 || time.Now().Before(end)) {
			if err := whole("while it was being generated"); err != nil {
				ch.cmd.Process.Kill()
				return err
			}
			looks++
		}
		if c.Delay != 0 {
			ch.cmd.Process.Kill()
		}
	}
	rep, killed, err := ch.finish()
	if err != nil {
		return err
	}
	if rep.Skipped != "" {
		r.Label("skipped: %s", rep.Skipped)
		return nil
	}
	for i, got := range rep.Results {
		if err := expect(fmt.Sprintf("call %d before the end", i), c.S, c.Steps[i], got); err != nil {
			return err
		}
	}
	left := readDir(dir)
	how := "a process"
	if killed {
		r.NonTrivial()
		how = fmt.Sprintf("a process killed during call %d", len(rep.Results))
		if c.Kill != "" {
			r.Label("killed at %s", c.Kill)
			how += " at " + c.Kill
		} else {
			r.Label("killed after some time")
		}
		if looks > 3 {
			r.Label("directory read more than 3 times before")
		}
		if x := strangers(left, nil, c.S); len(x) > 0 {
			r.Label("left incomplete files")
		}
	} else {
		r.Label("ran to the end")
	}
	if err := whole("after " + how); err != nil {
		return err
	}
	age(dir, c.Age)
	g0 := coins.Goroutines()
	p := &process{setups: []setup{c.S}, dir: dir}
	for i, s := range c.Next {
		if err := expect(fmt.Sprintf("call %d of the process after %s (files left: %q)", i, how, names(left)), c.S, s, p.do(s)); err != nil {
			return err
		}
	}
	coins.Settle(g0)
	now := readDir(dir)
	for _, s := range c.Next {
		for _, n := range g.of[s.Epoch] {
			if f := now[n]; !bytes.Equal(f.Data, g.files[n]) {
				return fmt.Errorf("file %s of epoch %d is not complete once the process after %s is done: %s", n, s.Epoch, how, differ(f.Data, g.files[n]))
			}
		}
	}
	return nil
}

func TestC22(t *testing.T) {
	vh.Run(t, vh.Prop[crashCase]{
		Name: "killed at a system call", Quick: 800, Thorough: 16000,
		Rule: "a case counts when the process was killed at the chosen system call",
		Gen: func(t *rapid.T) crashCase {
			c := crashCase{S: drawSetup(t)}
			c.S.Count = 100
			c.S.Lock = rapid.IntRange(0, 5).Draw(t, "lock") == 0
			empty := rapid.IntRange(0, 3).Draw(t, "empty") == 0
			for e := uint64(0); e <= 5 && !empty; e++ {
				switch rapid.IntRange(0, 6).Draw(t, "have") {
				case 0, 1:
					c.Have = append(c.Have, e)
				case 2:
					c.Cut = append(c.Cut, e)
					c.How = append(c.How, rapid.SampledFrom(spoilt).Draw(t, "how"))
				}
			}
			c.Steps = drawSteps(t, 1, 5, 1, 4)
			c.At = rapid.IntRange(0, len(c.Steps)-1).Draw(t, "at")
			c.Kill = rapid.SampledFrom([]string{"create", "reserve", "map write", "unmap", "map read", "rename", "mkdir", "open", "close", "lock"}).Draw(t, "kill")
			if c.Kill == "lock" {
				c.S.Lock = true
			}
			c.Next = drawSteps(t, 1, 5, 1, 3)
			if rapid.Bool().Draw(t, "same") {
				c.Next[0].Epoch = c.Steps[c.At].Epoch
			}
			c.Left = drawLeft(t, 5)
			c.Age = rapid.SampledFrom(ages).Draw(t, "age")
			return c
		},
		Check: func(c crashCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			return c.run(r, base, false)
		},
	})
	vh.Run(t, vh.Prop[crashCase]{
		Name: "killed at any time", Quick: 240, Thorough: 6000, Flaky: true,
		Rule: "a case counts when the process was killed before it was done",
		Gen: func(t *rapid.T) crashCase {
			c := crashCase{S: bigSetup(t)}
			c.S.Count = 100
			for e := uint64(0); e <= 2; e++ {
				switch rapid.IntRange(0, 6).Draw(t, "have") {
				case 0:
					c.Have = append(c.Have, e)
				case 1, 2:
					c.Cut = append(c.Cut, e)
					c.How = append(c.How, rapid.SampledFrom(spoilt).Draw(t, "how"))
				}
			}
			c.Steps = drawSteps(t, 1, 2, 1, 3)
			if rapid.IntRange(0, 5).Draw(t, "kill") > 0 {
				c.Delay = rapid.IntRange(100, 1<<rapid.IntRange(9, 18).Draw(t, "mag")).Draw(t, "delay")
			}
			c.Next = drawSteps(t, 1, 2, 1, 2)
			c.Left = drawLeft(t, 2)
			c.Age = rapid.SampledFrom(ages).Draw(t, "age")
			return c
		},
		Check: func(c crashCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			return c.run(r, base, true)
		},
	})
}
