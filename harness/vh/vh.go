//go:build go1.21 && linux

// Package vh runs generated-case properties: it drives rapid, counts and labels
// cases, keeps the failing case as JSON, replays such files without rapid, and
// leaves a record of the running case behind in case the process dies in it.
package vh

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Hex is a byte string written as hex in JSON.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*h = v
	return err
}

// Rec collects what a check says about its case.
type Rec struct {
	labels     []string
	nontrivial bool
	known      string
}

func (r *Rec) Label(format string, a ...any) { r.labels = append(r.labels, fmt.Sprintf(format, a...)) }
func (r *Rec) NonTrivial()                   { r.nontrivial = true }

// Prop is one generated-input property over cases of type C.
type Prop[C any] struct {
	Name            string
	Quick, Thorough int // cases over all shards
	Rule            string
	Gen             func(*rapid.T) C
	Check           func(C, *Rec) error
	Flaky           bool // schedule-dependent: keep the first failing case, do not shrink
	Slow            bool // too slow to shrink
	CPULimit        float64
}

type failure struct {
	Property string          `json:"property"`
	Prop     string          `json:"prop"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type result struct {
	Prop        string         `json:"prop"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Skipped     int            `json:"skipped_budget"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Failure     *failure       `json:"failure,omitempty"`
	Harness     string         `json:"harness_error,omitempty"`
	Wall        float64        `json:"wall_s"`
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	Property = env("VH_PROPERTY", "?")
	OutDir   = env("VH_OUT", os.TempDir())
	Seed     = uint64(envInt("VH_SEED", 1))
	Shard    = envInt("VH_SHARD", 0)
	Shards   = envInt("VH_SHARDS", 1)
	Thorough = os.Getenv("VH_TIER") == "thorough"
	budget   = time.Duration(envInt("VH_BUDGET", 420)) * time.Second
	started  = time.Now()
	scale    = func() float64 {
		f, err := strconv.ParseFloat(env("VH_SCALE", "1"), 64)
		if err != nil {
			return 1
		}
		return f
	}()
)

// Harness marks an error of the harness or the machine, never a violation.
type Harness struct{ Msg string }

func (h Harness) Error() string { return "harness: " + h.Msg }

// Harnessf panics with a harness error.
func Harnessf(format string, a ...any) { panic(Harness{fmt.Sprintf(format, a...)}) }

// Must turns an unexpected infrastructure error into a harness error.
func Must(err error) {
	if err != nil {
		panic(Harness{err.Error()})
	}
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func seedFor(name string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", name, Seed, shard)
	s := mix64(h.Sum64()) >> 1
	if s == 0 {
		s = 1
	}
	return s
}

func cpuNow() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// guarded runs one check, turning a panic (also from a bad memory access) into an error.
func guarded[C any](p *Prop[C], c C, r *Rec) (err error) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(Harness); ok {
				err = h
				return
			}
			err = fmt.Errorf("panic: %v\n%s", e, panicFrames())
		}
	}()
	return p.Check(c, r)
}

// panicFrames lists the powkit frames of the current stack, harness frames left out.
func panicFrames() string {
	pc := make([]uintptr, 64)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "sencha-dev/powkit") && !strings.Contains(f.Function, "zzverif") {
			out = append(out, fmt.Sprintf("  at %s (%s:%d)", f.Function[strings.LastIndex(f.Function, "/")+1:], filepath.Base(f.File), f.Line))
		}
		if !more {
			break
		}
	}
	return strings.Join(out, "\n")
}

// watch notices a case that never returns: it burned far more processor time than
// any case needs, or the process has been idle for minutes in the middle of it.
type watch struct {
	mu       sync.Mutex
	running  bool
	cpu      float64
	wall     time.Time
	idleCPU  float64
	idleWall time.Time
	limit    float64
	fail     func(why string)
}

func (w *watch) begin() {
	w.mu.Lock()
	w.running, w.cpu, w.wall = true, cpuNow(), time.Now()
	w.idleCPU, w.idleWall = w.cpu, w.wall
	w.mu.Unlock()
}

func (w *watch) end() { w.mu.Lock(); w.running = false; w.mu.Unlock() }

func (w *watch) loop(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(500 * time.Millisecond):
		}
		w.mu.Lock()
		if w.running {
			now := cpuNow()
			if now-w.idleCPU > 0.2 {
				w.idleCPU, w.idleWall = now, time.Now()
			}
			if now-w.cpu > w.limit {
				w.fail(fmt.Sprintf("the call did not return within %.0f s of processor time", w.limit))
			}
			if time.Since(w.idleWall) > 150*time.Second {
				w.fail("the calls made no progress for 150 s (deadlock)")
			}
		}
		w.mu.Unlock()
	}
}

var resultNo int

// Run executes the property in the mode the environment asks for.
func Run[C any](t *testing.T, p Prop[C]) {
	t.Helper()
	p.Name = os.Getenv("VH_PREFIX") + p.Name
	if rep := os.Getenv("VH_REPLAY"); rep != "" {
		replay(t, &p, rep)
		return
	}
	t.Run(p.Name, func(t *testing.T) { explore(t, &p) })
}

func explore[C any](t *testing.T, p *Prop[C]) {
	resultNo++
	n := p.Quick
	if Thorough {
		n = p.Thorough
	}
	n = int(float64(n) * scale)
	if n < 1 {
		n = 1
	}
	mine := n / Shards
	if Shard < n%Shards {
		mine++
	}
	begin := time.Now()
	res := &result{Prop: p.Name, Rule: p.Rule, Labels: map[string]int{}}
	base := filepath.Join(OutDir, fmt.Sprintf("s%d-%d", Shard, resultNo))
	cur, err := os.OpenFile(base+".current", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	distinct := map[uint64]bool{}
	finish := func() {
		if t.Failed() && res.Failure == nil && res.Harness == "" {
			res.Harness = "the generator of " + p.Name + " failed; see the log"
		}
		res.Wall = time.Since(begin).Seconds()
		res.NonTrivial = len(distinct)
		b, _ := json.Marshal(res)
		os.WriteFile(base+".tmp", b, 0644)
		hs := make([]uint64, 0, len(distinct))
		for h := range distinct {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		hb := make([]byte, 0, 8*len(hs))
		for _, h := range hs {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(base+".hashes", hb, 0644)
		os.Rename(base+".tmp", base+".result")
		os.Remove(base + ".current")
	}
	w := &watch{limit: p.CPULimit}
	if w.limit == 0 {
		w.limit = 120
	}
	var currentCase []byte
	w.fail = func(why string) {
		res.Failure = &failure{Property, p.Name, why, currentCase}
		finish()
		os.Exit(3)
	}
	stop := make(chan struct{})
	go w.loop(stop)
	defer close(stop)

	samplesSeen := map[string]bool{}
	failed := false
	one := func(c C) error {
		js, err := json.Marshal(c)
		if err != nil {
			return Harness{err.Error()}
		}
		late := time.Since(started) - budget
		if !failed && late > 0 && (res.Evaluations > 0 || Shard > 0 || late > 2*time.Minute) {
			// on a busy machine a part of the cases is left out, but not all
			res.Skipped++
			return nil
		}
		head, _ := json.Marshal(p.Name)
		rec := append([]byte(fmt.Sprintf(`{"property":%q,"prop":%s,"case":`, Property, head)), js...)
		rec = append(rec, '}', '\n')
		cur.Truncate(int64(len(rec)))
		cur.WriteAt(rec, 0)
		// the check gets a case decoded from JSON, exactly as a replay will
		var cc C
		if err := json.Unmarshal(js, &cc); err != nil {
			return Harness{err.Error()}
		}
		r := &Rec{}
		w.mu.Lock()
		currentCase = js
		w.mu.Unlock()
		w.begin()
		err = guarded(p, cc, r)
		w.end()
		if !failed {
			res.Evaluations++
			sort.Strings(r.labels)
			for i, l := range r.labels {
				if i == 0 || r.labels[i-1] != l {
					res.Labels[l]++
				}
			}
			if r.nontrivial {
				h := fnv.New64a()
				h.Write([]byte(p.Name))
				h.Write(js)
				distinct[h.Sum64()] = true
				key := strings.Join(r.labels, ",")
				if !samplesSeen[key] && len(res.Samples) < 3 {
					samplesSeen[key] = true
					s := string(js)
					if len(s) > 700 {
						s = s[:700] + fmt.Sprintf("... (%d bytes)", len(s))
					}
					res.Samples = append(res.Samples, map[string]any{"prop": p.Name, "labels": r.labels, "case": s})
				}
			}
		}
		if err != nil {
			if _, ok := err.(Harness); ok {
				if res.Harness == "" {
					res.Harness = err.Error()
				}
				return err
			}
			failed = true
			if res.Failure == nil || !p.Flaky && !p.Slow {
				res.Failure = &failure{Property, p.Name, err.Error(), js}
			}
		}
		return err
	}

	// saved regressions first
	if Shard == 0 {
		files, _ := filepath.Glob(filepath.Join(env("VH_REGRESS", "/nonexistent"), "*.json"))
		sort.Strings(files)
		for _, f := range files {
			var fl failure
			b, err := os.ReadFile(f)
			if err != nil || json.Unmarshal(b, &fl) != nil || fl.Prop != p.Name {
				continue
			}
			var c C
			if json.Unmarshal(fl.Case, &c) != nil {
				continue
			}
			if one(c) != nil {
				finish()
				t.Fatalf("regression %s failed", f)
			}
			res.Labels["saved regression"]++
		}
	}
	defer finish()
	if mine == 0 {
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(mine))
	flag.Set("rapid.seed", strconv.FormatUint(seedFor(p.Name, Shard), 10))
	flag.Set("rapid.nofailfile", "true")
	shrink := env("VH_SHRINK", "20s")
	if p.Flaky || p.Slow {
		shrink = "0s"
	}
	flag.Set("rapid.shrinktime", shrink)
	rapid.Check(t, func(rt *rapid.T) {
		c := p.Gen(rt)
		if err := one(c); err != nil {
			msg := err.Error()
			if len(msg) > 300 {
				msg = msg[:300]
			}
			_ = msg
			rt.Fatalf("property violated")
		}
	})
}

func replay[C any](t *testing.T, p *Prop[C], file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatalf("harness: %v", err)
	}
	if f.Prop != p.Name {
		return
	}
	var c C
	if err := json.Unmarshal(f.Case, &c); err != nil {
		t.Fatalf("harness: %v", err)
	}
	res := &result{Prop: p.Name, Labels: map[string]int{}, Evaluations: 1}
	w := &watch{limit: p.CPULimit}
	if w.limit == 0 {
		w.limit = 120
	}
	write := func() {
		b, _ := json.Marshal(res)
		os.WriteFile(filepath.Join(OutDir, "replay.result"), b, 0644)
	}
	w.fail = func(why string) {
		res.Failure = &failure{Property, p.Name, why, f.Case}
		write()
		os.Exit(3)
	}
	stop := make(chan struct{})
	go w.loop(stop)
	defer close(stop)
	os.WriteFile(filepath.Join(OutDir, "replay.current"), b, 0644)
	tries := 1
	if p.Flaky {
		tries = 20
	}
	for i := 0; i < tries && res.Failure == nil; i++ {
		r := &Rec{}
		w.begin()
		err = guarded(p, c, r)
		w.end()
		if h, ok := err.(Harness); ok {
			res.Harness = h.Error()
			break
		}
		if err != nil {
			res.Failure = &failure{Property, p.Name, err.Error(), f.Case}
			fmt.Printf("replayed: %v\n", err)
		}
	}
	os.Remove(filepath.Join(OutDir, "replay.current"))
	write()
}
