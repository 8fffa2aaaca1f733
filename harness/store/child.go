//go:build go1.21 && linux && amd64

package store

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// A setup is one client configuration.
type setup struct {
	Coin  int          `json:"coin"`
	Z     coins.Sizing `json:"z"`
	Count int          `json:"count,omitempty"`
	Lock  bool         `json:"lock,omitempty"`
	Rev   int          `json:"rev,omitempty"`
}

func (s setup) client(dir string) *coins.Client {
	c := coins.NewClient(s.Coin, s.Z, dir)
	if s.Count > 0 {
		c.DAG.CachesCount = s.Count
	}
	c.DAG.CachesLockMmap = s.Lock
	if s.Rev != 0 {
		c.DAG.Revision = s.Rev
	}
	return c
}

func (s setup) epochLen() uint64 {
	if s.Z.EpochLen != 0 {
		return s.Z.EpochLen
	}
	return coins.All[s.Coin].EpochLen
}

// A step is one thing a process does.
type step struct {
	Client int    `json:"client"` // index into the setups
	Epoch  uint64 `json:"epoch"`
	Off    uint64 `json:"off"` // block in the epoch
	Nonce  uint64 `json:"nonce"`
	Seed   uint64 `json:"seed"`             // makes the hash
	Fresh  bool   `json:"fresh,omitempty"`  // forget all clients first
	Settle bool   `json:"settle,omitempty"` // wait for background work afterwards
}

func (s step) hash() []byte           { return vh.Expand(s.Seed, 32) }
func (s step) height(st setup) uint64 { return s.Epoch*st.epochLen() + s.Off%st.epochLen() }
func (s step) String() string         { return fmt.Sprintf("client %d epoch %d", s.Client, s.Epoch) }
func (r result) same(o result) bool {
	return bytes.Equal(r.Mix, o.Mix) && bytes.Equal(r.Digest, o.Digest) && r.Err == o.Err
}

type result struct {
	Mix    vh.Hex `json:"mix"`
	Digest vh.Hex `json:"digest"`
	Err    string `json:"err,omitempty"`
}

func (r result) String() string {
	if r.Err != "" {
		return "error " + r.Err
	}
	return fmt.Sprintf("(%x, %x)", []byte(r.Mix), []byte(r.Digest))
}

// A job is what a child process does.
type job struct {
	Setups []setup  `json:"setups"`
	Dir    string   `json:"dir"`
	Steps  []step   `json:"steps"`
	Faults []string `json:"faults,omitempty"`
	Errno  uint32   `json:"errno,omitempty"` // 0 kills the process
	At     int      `json:"at,omitempty"`    // faults start before this step
	FSize  int64    `json:"fsize,omitempty"` // largest file, when > 0
	Files  int      `json:"files,omitempty"` // open files beyond those open already, when > 0 (minus one)
	UID    int      `json:"uid,omitempty"`
	Par    bool     `json:"par,omitempty"`  // one goroutine per client
	Wait   bool     `json:"wait,omitempty"` // wait for the go file
	Chdir  string   `json:"chdir,omitempty"`
	Tmpfs  string   `json:"tmpfs,omitempty"` // mount options: the directory is a file system of its own
	Lock0  bool     `json:"lock0,omitempty"` // may lock no memory
	Res    bool     `json:"res,omitempty"`   // count what is held below the directory once the clients are gone
	Rand   int64    `json:"rand,omitempty"`  // the application seeds math/rand itself, when not 0
}

type report struct {
	Ready   bool     `json:"ready"`
	Skipped string   `json:"skipped,omitempty"`
	Results []result `json:"results"`
	Names   []string `json:"names,omitempty"` // left in the directory, when it is a file system of its own
	Fds     []string `json:"fds,omitempty"`
	Maps    []string `json:"maps,omitempty"`
	Done    bool     `json:"done"`
}

// process runs steps with live clients.
type process struct {
	setups []setup
	dir    string
	live   map[int]*coins.Client
	base   int // goroutines before any work
}

func (p *process) do(s step) result {
	if p.base == 0 {
		p.base = coins.Goroutines()
	}
	if s.Fresh {
		p.live = nil
	}
	if p.live == nil {
		p.live = map[int]*coins.Client{}
	}
	if p.live[s.Client] == nil {
		p.live[s.Client] = p.setups[s.Client].client(p.dir)
	}
	mix, digest, err := p.live[s.Client].Compute(s.hash(), s.height(p.setups[s.Client]), s.Nonce)
	r := result{Mix: mix, Digest: digest}
	if err != nil {
		r.Err = err.Error()
	}
	if s.Settle {
		coins.Settle(p.base)
	}
	return r
}

// childMain is the whole life of a child process.
func childMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		os.Exit(90)
	}
	var j job
	if json.Unmarshal(b, &j) != nil {
		os.Exit(90)
	}
	out, err := os.OpenFile(file+".out", os.O_CREATE|os.O_WRONLY|os.O_TRUNC|os.O_SYNC, 0644)
	if err != nil {
		os.Exit(90)
	}
	put := func(r report) {
		b, _ := json.Marshal(r)
		out.WriteAt(append(b, '\n'), 0)
	}
	rep := report{}
	skip := func(why string, err error) {
		rep.Skipped = fmt.Sprintf("%s: %v", why, err)
		put(rep)
		os.Exit(0)
	}
	if j.Chdir != "" {
		if err := os.Chdir(j.Chdir); err != nil {
			skip("chdir", err)
		}
	}
	if j.UID != 0 {
		if err := syscall.Setgroups(nil); err != nil {
			skip("setgroups", err)
		}
		if err := syscall.Setresgid(j.UID, j.UID, j.UID); err != nil {
			skip("setgid", err)
		}
		if err := syscall.Setresuid(j.UID, j.UID, j.UID); err != nil {
			skip("setuid", err)
		}
	}
	if j.Rand != 0 {
		rand.Seed(j.Rand)
	}
	p := &process{setups: j.Setups, dir: j.Dir}
	// everything the process itself needs is open before anything can fail
	p.live = map[int]*coins.Client{}
	for i := range j.Setups {
		p.live[i] = j.Setups[i].client(j.Dir)
	}
	rep.Ready = true
	put(rep)
	if j.Wait {
		for {
			if _, err := os.Stat(file + ".go"); err == nil {
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	if j.Par {
		rep.Results = make([]result, len(j.Steps))
		p.base = coins.Goroutines()
		var wg sync.WaitGroup
		for k := range j.Setups {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				q := &process{setups: j.Setups, dir: j.Dir, live: map[int]*coins.Client{k: p.live[k]}, base: p.base}
				for i, s := range j.Steps {
					if s.Client == k {
						s.Settle = false
						rep.Results[i] = q.do(s)
					}
				}
			}(k)
		}
		wg.Wait()
		coins.Settle(p.base)
		rep.Done = true
		put(rep)
		os.Exit(0)
	}
	for i, s := range j.Steps {
		if i == j.At {
			if j.FSize > 0 {
				signal.Ignore(syscall.SIGXFSZ)
				if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(j.FSize), Max: uint64(j.FSize)}); err != nil {
					skip("rlimit", err)
				}
			}
			if j.Lock0 {
				if err := syscall.Setrlimit(8, &syscall.Rlimit{}); err != nil {
					skip("rlimit", err)
				}
			}
			if j.Files > 0 {
				es, _ := os.ReadDir("/proc/self/fd")
				var lim syscall.Rlimit
				syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
				lim.Cur = uint64(len(es) - 1 + j.Files - 1)
				if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
					skip("rlimit", err)
				}
			}
			if len(j.Faults) > 0 {
				ret := uint32(retKill)
				if j.Errno != 0 {
					ret = retErr | j.Errno
				}
				runtime.LockOSThread()
				if err := install(j.Faults, ret); err != nil {
					skip("seccomp", err)
				}
				runtime.UnlockOSThread()
			}
		}
		rep.Results = append(rep.Results, p.do(s))
		if j.FSize == 0 {
			put(rep)
		}
	}
	if j.Res {
		coins.Settle(p.base)
		p.live = nil
		rep.Fds, rep.Maps, _ = released(j.Dir, 0)
	}
	rep.Done = true
	if j.Tmpfs != "" {
		rep.Names = names(readDir(j.Dir))
	}
	if j.FSize == 0 || j.FSize > 1<<16 {
		put(rep)
	} else {
		// the report may be larger than any file this process may write
		b, _ := json.Marshal(rep)
		os.Stdout.Write(append([]byte("REPORT "), append(b, '\n')...))
	}
	os.Exit(0)
}

type child struct {
	cmd  *exec.Cmd
	file string
	log  bytes.Buffer
	wait sync.WaitGroup
	err  error
	over atomic.Bool
}

var childNo int

func startChild(j job, scratch string) *child {
	childNo++
	c := &child{file: filepath.Join(scratch, fmt.Sprintf("job%d", childNo))}
	b, err := json.Marshal(j)
	vh.Must(err)
	vh.Must(os.WriteFile(c.file, b, 0644))
	c.cmd = exec.Command(os.Getenv("VH_BIN"), "-test.run", "^$")
	if j.Tmpfs != "" {
		vh.Must(os.MkdirAll(j.Dir, 0755))
		script := `mount -t tmpfs -o "$1" tmpfs "$2" || exit 92; shift 2; exec "$@"`
		c.cmd = exec.Command("unshare", "-Urm", "sh", "-c", script, "sh", j.Tmpfs, j.Dir, os.Getenv("VH_BIN"), "-test.run", "^$")
	}
	c.cmd.Env = append(os.Environ(), "VH_CHILD="+c.file)
	c.cmd.Stdout, c.cmd.Stderr = &c.log, &c.log
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vh.Must(c.cmd.Start())
	c.wait.Add(1)
	go func() {
		c.err = c.cmd.Wait()
		c.over.Store(true)
		c.wait.Done()
	}()
	return c
}

func (c *child) goAhead() { vh.Must(os.WriteFile(c.file+".go", nil, 0644)) }

func (c *child) report() (r report) {
	b, _ := os.ReadFile(c.file + ".out")
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	json.Unmarshal(b, &r)
	return
}

// ended tells whether the process is gone.
func (c *child) ended() bool { return c.over.Load() }

func (c *child) ready() bool { return c.report().Ready }

// finish waits for the process; killed tells whether SIGKILL or a kill fault ended it.
func (c *child) finish() (r report, killed bool, err error) {
	done := make(chan struct{})
	go func() { c.wait.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		c.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(time.Second)
		c.cmd.Process.Kill()
		<-done
		return report{}, false, fmt.Errorf("a process made no progress for 120 s\n%s", powkitLines(c.log.String()))
	}
	r = c.report()
	if i := strings.Index(c.log.String(), "REPORT "); i >= 0 {
		line, _, _ := strings.Cut(c.log.String()[i+7:], "\n")
		json.Unmarshal([]byte(line), &r)
	}
	ws, _ := c.cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return r, ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGSYS, nil
	}
	if code := ws.ExitStatus(); code == 90 || code == 91 {
		vh.Harnessf("child could not start: %s", c.log.String())
	} else if code == 92 || code != 0 && strings.Contains(c.log.String(), "unshare") {
		return report{Skipped: "no user namespace"}, false, nil
	} else if code != 0 {
		text := c.log.String()
		if strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory") {
			vh.Harnessf("child ran out of memory")
		}
		if !strings.Contains(text, "sencha-dev/powkit") {
			vh.Harnessf("child failed: %.2000s", text)
		}
		return r, false, fmt.Errorf("the process crashed: %s", powkitLines(text))
	}
	return r, false, nil
}

func powkitLines(text string) string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "[signal") ||
			strings.Contains(l, "sencha-dev/powkit") && !strings.Contains(l, "zzverif") {
			out = append(out, l)
		}
	}
	return strings.Join(out[:min(len(out), 14)], "\n")
}

// holdings lists the open files and the mappings below a directory.
func holdings(base string) (fds, maps []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, base) {
			fds = append(fds, strings.TrimPrefix(l, base))
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, base); i >= 0 {
			maps = append(maps, l[i+len(base):])
		}
	}
	return
}

// released collects garbage until no more than so many files are held.
func released(base string, most int) (fds, maps []string, ok bool) {
	for try := 0; try < 60; try++ {
		runtime.GC()
		fds, maps = holdings(base)
		if len(fds) <= most && len(maps) <= most {
			return fds, maps, true
		}
		// finalizers run in a goroutine of their own
		time.Sleep(time.Duration(1+try/4) * time.Millisecond)
	}
	return fds, maps, false
}
