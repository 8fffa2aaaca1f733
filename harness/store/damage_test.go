//go:build go1.21 && linux && amd64

package store

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// A damage replaces the file that stands for one part of one epoch.
type damage struct {
	Epoch uint64 `json:"epoch"`
	Part  int    `json:"part"` // cache or L1, as far as the coin has one
	Kind  string `json:"kind"`
	N     uint64 `json:"n"`
	At    int    `json:"at,omitempty"` // happens before this step, which new clients take
}

type damageCase struct {
	S       setup    `json:"s"`
	Have    []uint64 `json:"have"` // epochs whose files are there
	Damages []damage `json:"damages"`
	Steps   []step   `json:"steps"`
}

var damageKinds = []string{"empty", "header only", "part of the header", "cut anywhere", "cut half", "one byte short", "one word short",
	"one row short", "one byte long", "one word long", "one row long", "twice", "first header word", "second header word",
	"header bit", "header zero", "header swapped", "header other byte order", "all zero", "reserved, not written", "text",
	"directory", "full directory", "fifo", "socket", "dangling link", "link to directory", "link to itself", "link to device",
	"link to cut file", "another part", "another epoch"}

// apply puts the damaged thing at path; it reports whether a regular file stands there.
func apply(kind string, n uint64, path string, good []byte, other []byte) (regular bool) {
	vh.Must(os.RemoveAll(path))
	put := func(b []byte) bool {
		vh.Must(os.WriteFile(path, b, 0644))
		return true
	}
	cut := func(k int) bool { return put(good[:max(0, len(good)-k)]) }
	flip := func(f func(b []byte)) bool {
		b := append([]byte(nil), good...)
		f(b)
		return put(b)
	}
	switch kind {
	case "empty":
		return put(nil)
	case "header only":
		return put(good[:8])
	case "part of the header":
		return put(good[:n%8])
	case "cut anywhere":
		return put(good[:n%uint64(len(good))])
	case "cut half":
		return cut(len(good) / 2)
	case "one byte short":
		return cut(1)
	case "one word short":
		return cut(4)
	case "one row short":
		return cut(64)
	case "one byte long":
		return put(append(append([]byte(nil), good...), byte(n)))
	case "one word long":
		return put(append(append([]byte(nil), good...), vh.Expand(n, 4)...))
	case "one row long":
		return put(append(append([]byte(nil), good...), vh.Expand(n, 64)...))
	case "twice":
		return put(append(append([]byte(nil), good...), good...))
	case "first header word":
		return flip(func(b []byte) { copy(b, vh.Expand(n, 4)) })
	case "second header word":
		return flip(func(b []byte) { copy(b[4:], vh.Expand(n, 4)) })
	case "header bit":
		return flip(func(b []byte) { b[n%64/8] ^= 1 << (n % 8) })
	case "header zero":
		return flip(func(b []byte) { copy(b, make([]byte, 8)) })
	case "header swapped":
		return flip(func(b []byte) { copy(b, good[4:8]); copy(b[4:], good[:4]) })
	case "header other byte order":
		return flip(func(b []byte) {
			for i := 0; i < 4; i++ {
				b[i], b[4+i] = good[3-i], good[7-i]
			}
		})
	case "all zero":
		return put(make([]byte, len(good)))
	case "reserved, not written":
		put(nil)
		vh.Must(os.Truncate(path, int64(len(good))))
		return true
	case "text":
		b := bytes.Repeat([]byte("not a cache\n"), len(good)/12+1)
		return put(b[:len(good)])
	case "directory":
		vh.Must(os.Mkdir(path, 0755))
	case "full directory":
		vh.Must(os.Mkdir(path, 0755))
		vh.Must(os.WriteFile(filepath.Join(path, "x"), good, 0644))
	case "fifo":
		vh.Must(syscall.Mkfifo(path, 0644))
	case "socket":
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		vh.Must(err)
		defer syscall.Close(fd)
		wd, err := os.Getwd()
		vh.Must(err)
		vh.Must(os.Chdir(filepath.Dir(path)))
		defer os.Chdir(wd)
		vh.Must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: filepath.Base(path)}))
	case "dangling link":
		vh.Must(os.Symlink("nowhere/at/all", path))
	case "link to directory":
		vh.Must(os.Symlink(".", path))
	case "link to itself":
		vh.Must(os.Symlink(filepath.Base(path), path))
	case "link to device":
		vh.Must(os.Symlink("/dev/zero", path))
	case "link to cut file":
		side := filepath.Join(filepath.Dir(filepath.Dir(path)), "side")
		vh.Must(os.WriteFile(side, good[:n%uint64(len(good))], 0644))
		vh.Must(os.Symlink(side, path))
	case "another part", "another epoch":
		return put(other)
	default:
		vh.Harnessf("no damage %q", kind)
	}
	return false
}

func TestC21(t *testing.T) {
	vh.Run(t, vh.Prop[damageCase]{
		Name: "damaged files", Quick: 3000, Thorough: 80000,
		Rule: "a case counts when a call asked for an epoch one of whose files was damaged",
		Gen: func(t *rapid.T) damageCase {
			c := damageCase{S: drawSetup(t)}
			c.S.Count = 100
			c.S.Lock = rapid.IntRange(0, 5).Draw(t, "lock") == 0
			for e := uint64(0); e <= 5; e++ {
				if rapid.IntRange(0, 3).Draw(t, "have") > 0 {
					c.Have = append(c.Have, e)
				}
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "damages"); i < n; i++ {
				c.Damages = append(c.Damages, damage{rapid.Uint64Range(0, 5).Draw(t, "epoch"), rapid.IntRange(0, 1).Draw(t, "part"),
					rapid.SampledFrom(damageKinds).Draw(t, "kind"), rapid.Uint64().Draw(t, "n"), 0})
			}
			c.Steps = drawSteps(t, 1, 5, 1, 4)
			if rapid.IntRange(0, 2).Draw(t, "later") == 0 {
				for i := range c.Damages {
					c.Damages[i].At = rapid.IntRange(0, len(c.Steps)-1).Draw(t, "at")
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "aim") > 0 {
				c.Steps[0].Epoch = c.Damages[0].Epoch
			}
			return c
		},
		Check: func(c damageCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			dir := filepath.Join(base, "d")
			vh.Must(os.Mkdir(dir, 0755))
			g := goldOf(c.S)
			for _, e := range c.Have {
				for _, n := range g.of[e] {
					vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
				}
			}
			what := map[string]string{} // damage by name
			regular := map[string]bool{}
			p := &process{setups: []setup{c.S}, dir: dir}
			g0 := coins.Goroutines()
			asked := map[uint64]bool{}
			for i, s := range c.Steps {
				for _, d := range c.Damages {
					if d.At != i {
						continue
					}
					if i > 0 {
						coins.Settle(g0)
						s.Fresh = true
					}
					of := g.of[d.Epoch]
					n := of[d.Part%len(of)]
					good := g.files[n]
					other := good[:len(good)-8]
					if d.Kind == "another part" && len(of) > 1 {
						other = g.files[of[(d.Part+1)%2]]
					} else if d.Kind == "another epoch" {
						other = g.files[g.of[(d.Epoch+1+d.N%5)%9][d.Part%len(of)]]
					}
					if len(other) == len(good) {
						// the right size and header: outside the guarantee
						other = other[:len(other)-8]
					}
					delete(what, n)
					delete(asked, d.Epoch)
					regular[n] = apply(d.Kind, d.N, filepath.Join(dir, n), good, other)
					if regular[n] {
						if b, err := os.ReadFile(filepath.Join(dir, n)); err == nil && bytes.Equal(b, good) {
							continue // drew the right header
						}
					}
					what[n] = d.Kind
				}
				var list []string
				for _, n := range g.sorted() {
					if what[n] != "" {
						list = append(list, fmt.Sprintf("%s (epoch %d): %s", n, g.epoch[n], what[n]))
					}
				}
				got := p.do(s)
				if err := expect(fmt.Sprintf("call %d with damaged files %q", i, list), c.S, s, got); err != nil {
					return err
				}
				asked[s.Epoch] = true
			}
			coins.Settle(g0)
			now := readDir(dir)
			for n, k := range what {
				part := "cache"
				if len(g.of[g.epoch[n]]) > 1 && n[:2] == "l1" {
					part = "l1"
				}
				if !asked[g.epoch[n]] {
					continue
				}
				r.NonTrivial()
				r.Label("%s: %s", part, k)
				if regular[n] {
					if f := now[n]; !bytes.Equal(f.Data, g.files[n]) {
						return fmt.Errorf("damaged file %s (%s, epoch %d) was not replaced by a complete one after calls for its epoch: %s", n, k, g.epoch[n], differ(f.Data, g.files[n]))
					}
				}
			}
			return nil
		},
	})
}
