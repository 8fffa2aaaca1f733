//go:build go1.21 && linux && amd64

package store

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// a client whose storage fails
type failCase struct {
	S     setup    `json:"s"`
	Have  []uint64 `json:"have,omitempty"`
	Steps []step   `json:"steps"`
	At    int      `json:"at"` // the failure starts before this step
	Kind  string   `json:"kind"`
	Calls []string `json:"calls,omitempty"`
	Errno uint32   `json:"errno,omitempty"`
	N     int64    `json:"n,omitempty"`
	Epoch uint64   `json:"epoch,omitempty"`
	Next  []step   `json:"next,omitempty"`
}

var errnos = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EXDEV,
	syscall.EPERM, syscall.EDQUOT, syscall.ENOENT, syscall.EEXIST, syscall.EOPNOTSUPP, syscall.ENOSYS, syscall.EINVAL, syscall.EFBIG, syscall.ETXTBSY, syscall.EAGAIN}

var failCalls = []string{"create", "open", "reserve", "extend", "map write", "map read", "map", "unmap", "rename", "mkdir", "stat", "fstat", "lock", "unlink", "close"}

var failPlaces = []string{"a file", "under a file", "name too long", "path too long", "nul in name", "dangling link", "link loop",
	"moved away between calls", "turned into a file between calls", "cache name taken", "l1 name taken", "both names taken"}

func (c failCase) inProcess(r *vh.Rec, base string) error {
	dir := filepath.Join(base, "d")
	g := goldOf(c.S)
	arg, check := dir, true
	allowed := map[string]bool{}
	fill := func() {
		vh.Must(os.MkdirAll(dir, 0755))
		for _, e := range c.Have {
			for _, n := range g.of[e] {
				vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
			}
		}
	}
	take := func(which int) {
		fill()
		for e := c.Epoch; e <= c.Epoch+1; e++ {
			for _, n := range g.of[e] {
				l1 := strings.HasPrefix(n, "l1")
				if which == 0 && l1 || which == 1 && !l1 {
					continue
				}
				p := filepath.Join(dir, n)
				vh.Must(os.RemoveAll(p))
				vh.Must(os.MkdirAll(filepath.Join(p, "x"), 0755))
			}
		}
	}
	switch c.Kind {
	case "a file":
		vh.Must(os.WriteFile(dir, []byte("file"), 0644))
	case "under a file":
		vh.Must(os.WriteFile(dir, []byte("file"), 0644))
		arg = filepath.Join(dir, "sub", "dir")
	case "name too long":
		arg = filepath.Join(base, strings.Repeat("n", 256))
	case "path too long":
		arg = base + strings.Repeat("/"+strings.Repeat("p", 200), 25)
	case "nul in name":
		arg = dir + "\x00x"
	case "dangling link":
		vh.Must(os.Symlink(filepath.Join(base, "no", "where"), dir))
	case "link loop":
		vh.Must(os.Symlink(dir, dir))
	case "cache name taken":
		take(0)
	case "l1 name taken":
		take(1)
	case "both names taken":
		take(2)
	default:
		fill()
	}
	p := &process{setups: []setup{c.S}, dir: arg}
	base0 := coins.Goroutines()
	for i, s := range c.Steps {
		if i == c.At {
			switch c.Kind {
			case "moved away between calls":
				os.Rename(dir, filepath.Join(base, "gone"))
				check = false
			case "turned into a file between calls":
				os.Rename(dir, filepath.Join(base, "gone"))
				os.WriteFile(dir, []byte("file"), 0644)
				check = false
			}
		}
		if err := expect(fmt.Sprintf("call %d, storage directory: %s", i, c.Kind), c.S, s, p.do(s)); err != nil {
			return err
		}
	}
	coins.Settle(base0)
	r.NonTrivial()
	r.Label("%s", c.Kind)
	now := readDir(dir)
	if x := strangers(now, allowed, c.S); check && len(x) > 0 {
		return fmt.Errorf("storage directory: %s: temporary files %q are left behind", c.Kind, x)
	}
	return complete("storage directory: "+c.Kind, now, c.S)
}

func (c failCase) inChild(r *vh.Rec, base string) error {
	vh.Must(os.Chmod(base, 0755))
	dir := filepath.Join(base, "d")
	g := goldOf(c.S)
	vh.Must(os.Mkdir(dir, 0755))
	if c.N%2 == 0 || c.Kind == "user" {
		for _, e := range c.Have {
			for _, n := range g.of[e] {
				vh.Must(os.WriteFile(filepath.Join(dir, n), g.files[n], 0644))
			}
		}
	} else {
		vh.Must(os.Remove(dir))
	}
	j := job{Setups: []setup{c.S}, Dir: dir, Steps: append([]step(nil), c.Steps...), At: c.At}
	// what is done in the background gets its time before the process ends
	j.Steps[len(j.Steps)-1].Settle = true
	name := c.Kind
	allowed := map[string]bool{}
	unlink := false
	switch c.Kind {
	case "system call":
		j.Faults, j.Errno = c.Calls, c.Errno
		name = fmt.Sprintf("%s gives %v", strings.Join(c.Calls, " and "), syscall.Errno(c.Errno))
		for _, x := range c.Calls {
			unlink = unlink || x == "unlink"
			r.Label("%s fails", x)
		}
		r.Label("%v", syscall.Errno(c.Errno))
	case "file size limit":
		size := int64(len(g.files[g.of[c.Epoch][0]]))
		j.FSize = 1 + c.N%(size+size/8)
		name = fmt.Sprintf("files of more than %d bytes can't be written", j.FSize)
	case "open file limit":
		j.Files = 1 + int(c.N%6)
		name = fmt.Sprintf("only %d more files can be open", j.Files-1)
	case "no lockable memory", "user":
		j.UID, j.Chdir, j.Dir = 65534, base, "d"
		if c.Kind == "no lockable memory" {
			j.Lock0 = true
			j.Setups[0].Lock = true
			os.Mkdir(dir, 0755)
			vh.Must(os.Chmod(dir, 0777))
			break
		}
		mode := []os.FileMode{0555, 0500, 0444, 0, 0111, 0333, 0755}[c.N%7]
		for i, f := range g.sorted() {
			if c.N>>8>>(i%40)&1 == 1 {
				os.Chmod(filepath.Join(dir, f), 0)
			}
		}
		vh.Must(os.Chmod(dir, mode))
		name = fmt.Sprintf("another user's directory of mode %o", mode)
	case "small file system":
		size := int64(len(g.files[g.of[c.Epoch][0]]))
		j.Tmpfs = fmt.Sprintf("size=%d", 4096+(c.N%(3*size))&^4095)
	case "few inodes":
		j.Tmpfs = fmt.Sprintf("size=64m,nr_inodes=%d", 1+c.N%5)
	case "read-only file system":
		j.Tmpfs = "size=64m,ro"
	}
	if j.Tmpfs != "" {
		name += " (" + j.Tmpfs + ")"
	}
	if c.Kind != "system call" {
		r.Label("%s", c.Kind)
	}
	ch := startChild(j, base)
	rep, killed, err := ch.finish()
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	if rep.Skipped != "" {
		r.Label("skipped: %s", rep.Skipped)
		return nil
	}
	if killed || !rep.Done {
		vh.Harnessf("%s: the process did not finish", name)
	}
	for i, got := range rep.Results {
		if err := expect(fmt.Sprintf("call %d, %s since call %d", i, name, c.At), c.S, c.Steps[i], got); err != nil {
			return err
		}
	}
	r.NonTrivial()
	os.Chmod(dir, 0755)
	left := readDir(dir)
	x := strangers(left, allowed, c.S)
	if j.Tmpfs != "" {
		m := map[string]file{}
		for _, n := range rep.Names {
			m[n] = file{}
		}
		x = strangers(m, nil, c.S)
	}
	if len(x) > 0 && !unlink {
		return fmt.Errorf("%s: temporary files %q are left behind", name, x)
	}
	if err := complete(name, left, c.S); err != nil {
		return err
	}
	// and once storage works again
	g0 := coins.Goroutines()
	p := &process{setups: []setup{c.S}, dir: dir}
	for i, s := range c.Next {
		if err := expect(fmt.Sprintf("call %d after storage had failed (%s)", i, name), c.S, s, p.do(s)); err != nil {
			return err
		}
	}
	coins.Settle(g0)
	return complete("after storage had failed ("+name+")", readDir(dir), c.S)
}

func drawFail(t *rapid.T) failCase {
	c := failCase{S: drawSetup(t)}
	c.S.Count = rapid.SampledFrom([]int{0, 1, 2, 100}).Draw(t, "count")
	c.S.Lock = rapid.IntRange(0, 4).Draw(t, "lock") == 0
	for e := uint64(0); e <= 5; e++ {
		if rapid.IntRange(0, 4).Draw(t, "have") == 0 {
			c.Have = append(c.Have, e)
		}
	}
	c.Steps = drawSteps(t, 1, 5, 1, 4)
	c.At = rapid.IntRange(0, len(c.Steps)-1).Draw(t, "at")
	if rapid.Bool().Draw(t, "from the start") {
		c.At = 0
	}
	c.Epoch = rapid.Uint64Range(0, 5).Draw(t, "epoch")
	if rapid.Bool().Draw(t, "aim") {
		c.Epoch = c.Steps[c.At].Epoch
	}
	c.N = rapid.Int64Range(0, 1<<50).Draw(t, "n")
	return c
}

func TestC23(t *testing.T) {
	vh.Run(t, vh.Prop[failCase]{
		Name: "unusable directory", Quick: 1200, Thorough: 30000,
		Rule: "a case counts when all its calls were made with the unusable directory",
		Gen: func(t *rapid.T) failCase {
			c := drawFail(t)
			c.Kind = rapid.SampledFrom(failPlaces).Draw(t, "kind")
			return c
		},
		Check: func(c failCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			return c.inProcess(r, base)
		},
	})
	vh.Run(t, vh.Prop[failCase]{
		Name: "failing system calls", Quick: 1000, Thorough: 20000,
		Rule: "a case counts when the process made its calls with the fault in place",
		Gen: func(t *rapid.T) failCase {
			c := drawFail(t)
			c.Kind = "system call"
			c.Calls = rapid.SliceOfNDistinct(rapid.SampledFrom(failCalls), 1, 3, rapid.ID[string]).Draw(t, "calls")
			c.Errno = uint32(rapid.SampledFrom(errnos).Draw(t, "errno"))
			c.Next = drawSteps(t, 1, 5, 0, 2)
			return c
		},
		Check: func(c failCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			return c.inChild(r, base)
		},
	})
	vh.Run(t, vh.Prop[failCase]{
		Name: "limits and permissions", Quick: 800, Thorough: 16000,
		Rule: "a case counts when the process made its calls under the limit",
		Gen: func(t *rapid.T) failCase {
			c := drawFail(t)
			c.Kind = rapid.SampledFrom([]string{"file size limit", "file size limit", "open file limit", "user", "user", "no lockable memory", "small file system", "small file system", "few inodes", "read-only file system"}).Draw(t, "kind")
			c.Next = drawSteps(t, 1, 5, 0, 2)
			return c
		},
		Check: func(c failCase, r *vh.Rec) error {
			base := scratchDir()
			defer remove(base)
			return c.inChild(r, base)
		},
	})
}
