//go:build go1.21 && linux && amd64

package store

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// one process with one client, run several times over one directory
type modeCase struct {
	S    setup    `json:"s"`
	Kind string   `json:"kind"` // how the directory is named
	Runs [][]step `json:"runs"`
}

var modeKinds = []string{"existing", "missing", "nested missing", "relative", "relative missing", "dot dot", "trailing slash", "unicode and space", "symlink", "percent", "long"}

// place makes the directory argument of a kind inside base, and says where the
// files should end up.
func place(kind, base string) (arg, real string) {
	switch kind {
	case "existing":
		real = filepath.Join(base, "d")
		vh.Must(os.Mkdir(real, 0755))
		return real, real
	case "missing":
		return filepath.Join(base, "d"), filepath.Join(base, "d")
	case "nested missing":
		real = filepath.Join(base, "a", ".b", "c-d")
		return real, real
	case "relative":
		vh.Must(os.Mkdir(filepath.Join(base, "rel"), 0755))
		return "rel", filepath.Join(base, "rel")
	case "relative missing":
		return "./x/y", filepath.Join(base, "x/y")
	case "dot dot":
		vh.Must(os.Mkdir(filepath.Join(base, "z"), 0755))
		return base + "/z/../w//v", filepath.Join(base, "w/v")
	case "trailing slash":
		return filepath.Join(base, "t") + "/", filepath.Join(base, "t")
	case "unicode and space":
		real = filepath.Join(base, "ключ 鍵 *?")
		return real, real
	case "percent":
		real = filepath.Join(base, "%d%s%x")
		return real, real
	case "long":
		real = filepath.Join(base, string(bytes.Repeat([]byte("l"), 180)))
		return real, real
	case "symlink":
		real = filepath.Join(base, "target")
		vh.Must(os.Mkdir(real, 0755))
		vh.Must(os.Symlink(real, filepath.Join(base, "link")))
		return filepath.Join(base, "link"), real
	}
	vh.Harnessf("no kind %q", kind)
	return
}

func TestC20(t *testing.T) {
	vh.Run(t, vh.Prop[modeCase]{
		Name: "storage modes", Quick: 1600, Thorough: 40000,
		Rule: "a case counts when at least two clients ran over one directory",
		Gen: func(t *rapid.T) modeCase {
			c := modeCase{S: drawSetup(t), Kind: rapid.SampledFrom(modeKinds).Draw(t, "kind")}
			c.S.Lock = rapid.IntRange(0, 3).Draw(t, "lock") == 0
			c.S.Count = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5}).Draw(t, "count")
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "runs"); i < n; i++ {
				c.Runs = append(c.Runs, drawSteps(t, 1, 6, 1, 5))
			}
			return c
		},
		Check: func(c modeCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			if err := goldFiles(c.S).whole(c.S); err != nil {
				return err
			}
			arg, real := place(c.Kind, base)
			if !filepath.IsAbs(arg) {
				wd, err := os.Getwd()
				vh.Must(err)
				vh.Must(os.Chdir(base))
				defer os.Chdir(wd)
			}
			r.Label("directory: %s", c.Kind)
			if c.S.Lock {
				r.Label("locked in memory")
			}
			loaded := false
			for i, run := range c.Runs {
				p := &process{setups: []setup{c.S}, dir: arg}
				g0 := coins.Goroutines()
				for _, s := range run {
					if len(readDir(real)) > 0 {
						loaded = true
					}
					got := p.do(s)
					if err := expect(fmt.Sprintf("run %d, storage directory %q", i, c.Kind), c.S, s, got); err != nil {
						return err
					}
				}
				coins.Settle(g0)
				now := readDir(real)
				if err := complete(fmt.Sprintf("after run %d", i), now, c.S); err != nil {
					return err
				}
				if len(now) == 0 {
					return fmt.Errorf("run %d stored nothing in %q", i, c.Kind)
				}
				if x := strangers(now, nil, c.S); len(x) > 0 {
					return fmt.Errorf("run %d left files %q that no undisturbed run stores", i, x)
				}
			}
			if len(c.Runs) > 1 {
				r.NonTrivial()
				r.Label("several runs")
			}
			if loaded {
				r.Label("files of an earlier run present")
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[modeCase]{
		Name: "reuse", Quick: 800, Thorough: 20000,
		Rule: "a case counts when a client asked for an epoch that was complete on disk",
		Gen: func(t *rapid.T) modeCase {
			c := modeCase{S: drawSetup(t), Kind: "existing"}
			c.S.Lock = rapid.IntRange(0, 3).Draw(t, "lock") == 0
			// room for every epoch, so that nothing is cleaned up
			c.S.Count = rapid.IntRange(8, 100).Draw(t, "count")
			for i, n := 0, rapid.IntRange(2, 4).Draw(t, "runs"); i < n; i++ {
				c.Runs = append(c.Runs, drawSteps(t, 1, 6, 1, 5))
			}
			return c
		},
		Check: func(c modeCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			g := goldFiles(c.S)
			if err := g.whole(c.S); err != nil {
				return err
			}
			for i, run := range c.Runs {
				p := &process{setups: []setup{c.S}, dir: base}
				for k, s := range run {
					was := readDir(base)
					g0 := coins.Goroutines()
					s.Settle = true
					got := p.do(s)
					coins.Settle(g0)
					at := fmt.Sprintf("run %d call %d", i, k)
					if err := expect(at, c.S, s, got); err != nil {
						return err
					}
					now := readDir(base)
					for n, f := range was {
						x, ok := now[n]
						if !ok {
							return fmt.Errorf("%s: complete file %s (epoch %d) was removed", at, n, g.epoch[n])
						}
						if x.Ino != f.Ino || x.Mtime != f.Mtime || !bytes.Equal(x.Data, f.Data) {
							return fmt.Errorf("%s (epoch %d): complete file %s (epoch %d) was written again", at, s.Epoch, n, g.epoch[n])
						}
						if g.epoch[n] == s.Epoch {
							r.NonTrivial()
							r.Label("epoch on disk")
						}
					}
					for _, n := range g.of[s.Epoch] {
						if x, ok := now[n]; !ok || !bytes.Equal(x.Data, g.files[n]) {
							return fmt.Errorf("%s: file %s of epoch %d is not stored, or differs from that of another run", at, n, s.Epoch)
						}
					}
				}
			}
			if c.S.Lock {
				r.Label("locked in memory")
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[twinCase]{
		Name: "epochs that look alike", Quick: 480, Thorough: 12000,
		Rule: "a case counts when two different epochs were asked for over one directory",
		Gen: func(t *rapid.T) twinCase {
			c := twinCase{S: drawSetup(t)}
			if c.S.Z.CacheInit > 1<<14 {
				c.S.Z.CacheInit = 128 * 30
			}
			if rapid.Bool().Draw(t, "same size") {
				c.S.Z.CacheGrowth, c.S.Z.DataGrowth = 0, 0
			}
			// a client with room for all epochs has no old ones to look for
			c.S.Count = 3000
			top := uint64(2048)
			if rapid.IntRange(0, 7).Draw(t, "usual count") == 0 {
				c.S.Count, top = 0, 150
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "pairs"); i < n; i++ {
				var a, b uint64
				kind := rapid.SampledFrom(twinKinds).Draw(t, "kind")
				if ps := twins(kind, top); len(ps) > 0 {
					p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "pair")]
					a, b = p[0], p[1]
				} else {
					d := rapid.SampledFrom([]uint64{1, 2, 8, 10, 16, 64, 100, 128, 256, 512, 1000, 1024, 2048}).Draw(t, "apart")
					a = rapid.Uint64Range(0, top).Draw(t, "epoch")
					b = a + d
					if b > top {
						b = rapid.Uint64Range(0, top).Draw(t, "other")
					}
				}
				if rapid.IntRange(0, 3).Draw(t, "swap") == 0 {
					a, b = b, a
				}
				c.Kinds = append(c.Kinds, kind)
				c.Epochs = append(c.Epochs, a, b)
			}
			for range c.Epochs {
				c.Fresh = append(c.Fresh, rapid.Bool().Draw(t, "fresh"))
			}
			return c
		},
		Check: func(c twinCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			p := &process{setups: []setup{c.S}, dir: base}
			for i, e := range c.Epochs {
				for nonce := uint64(0); nonce < 2; nonce++ {
					s := step{Epoch: e, Nonce: nonce, Fresh: c.Fresh[i] && nonce == 0, Settle: true}
					if err := expect(fmt.Sprintf("call %d of epochs %v over one directory", i, c.Epochs), c.S, s, p.do(s)); err != nil {
						return err
					}
				}
				if e != c.Epochs[0] {
					r.NonTrivial()
				}
			}
			for _, k := range c.Kinds {
				r.Label("epochs with %s", k)
			}
			return nil
		},
	})
}

// epochs that a name, key or fingerprint made of too little could confuse
type twinCase struct {
	S      setup    `json:"s"`
	Kinds  []string `json:"kinds"`
	Epochs []uint64 `json:"epochs"`
	Fresh  []bool   `json:"fresh"`
}

var twinKinds = []string{"seeds that start alike", "seeds that end alike", "seeds with equal words", "some distance"}

var twinPairs = map[string][][2]uint64{}

// twins finds the pairs of epochs whose seeds agree most.
func twins(kind string, top uint64) [][2]uint64 {
	key := fmt.Sprint(kind, top)
	if ps, ok := twinPairs[key]; ok || kind == "some distance" {
		return ps
	}
	seeds := make([][]byte, top+1)
	seeds[0] = make([]byte, 32)
	for e := uint64(1); e <= top; e++ {
		seeds[e] = ref.Keccak256(seeds[e-1])
	}
	same := func(a, b []byte) int {
		n := 0
		switch kind {
		case "seeds that start alike":
			for n < 32 && a[n] == b[n] {
				n++
			}
		case "seeds that end alike":
			for n < 32 && a[31-n] == b[31-n] {
				n++
			}
		default:
			// two bytes at one aligned place
			for i := 0; i < 32; i += 2 {
				if a[i] == b[i] && a[i+1] == b[i+1] {
					n++
				}
			}
		}
		return n
	}
	best := 1
	var out [][2]uint64
	for a := uint64(0); a <= top; a++ {
		for b := a + 1; b <= top; b++ {
			n := same(seeds[a], seeds[b])
			if n > best {
				best, out = n, nil
			}
			if n == best {
				out = append(out, [2]uint64{a, b})
			}
		}
	}
	twinPairs[key] = out
	return out
}
