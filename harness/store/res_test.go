//go:build go1.21 && linux && amd64

package store

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// A resCase is a history of calls over a directory that is damaged or fails at
// times; what the process holds of the directory is counted.
type resCase struct {
	Setups  []setup  `json:"setups"`
	Have    []uint64 `json:"have,omitempty"`
	Damages []damage `json:"damages,omitempty"`
	Steps   []step   `json:"steps"`
	Count   []bool   `json:"count"` // count after this step
	Place   string   `json:"place,omitempty"`
	Calls   []string `json:"calls,omitempty"`
	Errno   uint32   `json:"errno,omitempty"`
}

func (c resCase) most() (n int) {
	for _, s := range c.Setups {
		parts := 1
		if s.Coin == coins.RVN || s.Coin == coins.FIRO {
			parts = 2
		}
		n += (s.Count + 1) * parts
	}
	return
}

func (c resCase) fill(dir string) {
	for _, s := range c.Setups {
		g := goldOf(s)
		for _, e := range c.Have {
			for _, n := range g.of[e] {
				vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
			}
		}
	}
}

func (c resCase) inProcess(r *vh.Rec) error {
	base := scratchDir()
	defer remove(base)
	dir := filepath.Join(base, "d")
	vh.Must(os.Mkdir(dir, 0755))
	c.fill(dir)
	arg := dir
	if c.Place == "a file" {
		arg = filepath.Join(base, "f")
		vh.Must(os.WriteFile(arg, nil, 0644))
	}
	g0 := coins.Goroutines()
	peak := 0
	done := make(chan error)
	go func() { // the clients are only known to this goroutine
		p := &process{setups: c.Setups, dir: arg}
		done <- func() error {
			for i, s := range c.Steps {
				for _, d := range c.Damages {
					if d.At == i {
						st := c.Setups[d.Part/2%len(c.Setups)]
						g := goldOf(st)
						of := g.of[d.Epoch]
						n := of[d.Part%len(of)]
						// a file that is mapped stays as it is: another takes its name
						apply(d.Kind, d.N, filepath.Join(dir, n), g.files[n], g.files[n][:len(g.files[n])-8])
					}
				}
				if err := expect(fmt.Sprintf("call %d", i), c.Setups[s.Client], s, p.do(s)); err != nil {
					return err
				}
				if !c.Count[i] {
					continue
				}
				coins.Settle(g0)
				fds, maps, ok := released(base, c.most())
				peak = max(peak, len(maps))
				if !ok {
					return fmt.Errorf("after call %d, %d clients that keep %d epochs in all hold %d mappings %q and %d open files %q below the storage directory", i, len(c.Setups), c.most(), len(maps), maps, len(fds), fds)
				}
			}
			coins.Settle(g0)
			_, maps := holdings(base)
			peak = max(peak, len(maps))
			return nil
		}()
	}()
	if err := <-done; err != nil {
		return err
	}
	r.Label("up to %d mappings at once", (peak+3)/4*4)
	if peak > 0 {
		r.NonTrivial()
	}
	if fds, maps, ok := released(base, 0); !ok {
		return fmt.Errorf("when the clients are gone, the process still holds the mappings %q and the open files %q", maps, fds)
	}
	return nil
}

func (c resCase) inChild(r *vh.Rec) error {
	base := scratchDir()
	defer remove(base)
	dir := filepath.Join(base, "d")
	vh.Must(os.Mkdir(dir, 0755))
	c.fill(dir)
	for _, x := range c.Calls {
		r.Label("%s fails", x)
	}
	rep, killed, err := startChild(job{Setups: c.Setups, Dir: dir, Steps: c.Steps, Faults: c.Calls, Errno: c.Errno, Res: true}, base).finish()
	name := fmt.Sprintf("%s gives %v", strings.Join(c.Calls, " and "), syscall.Errno(c.Errno))
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if rep.Skipped != "" {
		r.Label("skipped: %s", rep.Skipped)
		return nil
	}
	if killed || !rep.Done {
		vh.Harnessf("%s: the process did not finish", name)
	}
	r.NonTrivial()
	if len(rep.Fds)+len(rep.Maps) > 0 {
		return fmt.Errorf("%s: when the clients are gone, the process still holds the mappings %q and the open files %q", name, rep.Maps, rep.Fds)
	}
	return nil
}

func drawRes(t *rapid.T) resCase {
	var c resCase
	for n := rapid.IntRange(1, 2).Draw(t, "clients"); n > 0; n-- {
		s := drawSetup(t)
		if len(c.Setups) > 0 && s.Coin == c.Setups[0].Coin {
			s.Coin = (s.Coin + 1) % 5 // a coin has one configuration
		}
		s.Count = rapid.IntRange(1, 4).Draw(t, "count")
		s.Lock = rapid.IntRange(0, 4).Draw(t, "lock") == 0
		c.Setups = append(c.Setups, s)
	}
	for e := uint64(0); e <= 5; e++ {
		if rapid.IntRange(0, 2).Draw(t, "have") == 0 {
			c.Have = append(c.Have, e)
		}
	}
	c.Steps = drawSteps(t, len(c.Setups), 8, 2, 14)
	for range c.Steps {
		c.Count = append(c.Count, rapid.IntRange(0, 2).Draw(t, "count now") == 0)
	}
	return c
}

func TestC29(t *testing.T) {
	vh.Run(t, vh.Prop[resCase]{
		Name: "files and mappings held", Quick: 1600, Thorough: 40000,
		Rule: "a case counts when the clients held a mapping at some time",
		Gen: func(t *rapid.T) resCase {
			c := drawRes(t)
			if rapid.IntRange(0, 9).Draw(t, "place") == 5 {
				c.Place = "a file"
			}
			for n := rapid.IntRange(0, 5).Draw(t, "damages"); n > 0; n-- {
				at := rapid.IntRange(0, len(c.Steps)-1).Draw(t, "at")
				d := damage{rapid.Uint64Range(0, 8).Draw(t, "epoch"), rapid.IntRange(0, 3).Draw(t, "part"),
					rapid.SampledFrom(damageKinds).Draw(t, "kind"), rapid.Uint64().Draw(t, "n"), at}
				if rapid.Bool().Draw(t, "aim") {
					d.Epoch = c.Steps[at].Epoch
				}
				c.Damages = append(c.Damages, d)
			}
			return c
		},
		Check: func(c resCase, r *vh.Rec) error { return c.inProcess(r) },
	})
	vh.Run(t, vh.Prop[resCase]{
		Name: "after failing system calls", Quick: 600, Thorough: 12000,
		Rule: "a case counts when the process made its calls with the fault in place",
		Gen: func(t *rapid.T) resCase {
			c := drawRes(t)
			c.Calls = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"create", "reserve", "extend", "map write", "map read", "map", "rename", "mkdir", "stat", "fstat", "lock", "unlink"}), 1, 2, rapid.ID[string]).Draw(t, "calls")
			c.Errno = uint32(rapid.SampledFrom(errnos).Draw(t, "errno"))
			return c
		},
		Check: func(c resCase, r *vh.Rec) error { return c.inChild(r) },
	})
}
