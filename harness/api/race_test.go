//go:build go1.21 && linux

package api

import (
	"fmt"
	"runtime/debug"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// crowd is calls made by several goroutines at once on shared clients.
type crowd struct {
	Calls []call  `json:"calls"`
	By    [][]int `json:"by"` // the calls of each goroutine, in order
}

func drawCrowd(t *rapid.T) crowd {
	var c crowd
	n := rapid.IntRange(1, 5).Draw(t, "calls")
	same := rapid.Bool().Draw(t, "one client")
	for i := 0; i < n; i++ {
		x := drawGood(t)
		if rapid.IntRange(0, 7).Draw(t, "malformed") == 0 {
			x = drawMalformed(t)
			if len(x.A) > 4096 {
				x.A = x.A[:4096]
			}
		}
		if i > 0 && same && x.Target != c.Calls[0].Target {
			x = c.Calls[0]
			x.A = append(vh.Hex{}, x.A...)
			if len(x.A) > 0 {
				x.A[rapid.IntRange(0, len(x.A)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
			x.Y += uint64(i)
		}
		c.Calls = append(c.Calls, x)
	}
	for g, m := 0, rapid.IntRange(2, 6).Draw(t, "goroutines"); g < m; g++ {
		c.By = append(c.By, rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 4).Draw(t, "order"))
	}
	return c
}

func checkCrowd(c crowd, r *vh.Rec) error {
	base := coins.Goroutines()
	defer coins.Settle(base)
	run := func(f fn, x call) out {
		a, b, l := x.args()
		m, d, ok, err := f(a, b, l, x.X, x.Y)
		o := out{A: append([]byte{}, m...), B: append([]byte{}, d...), OK: ok}
		if err != nil {
			o.Err = err.Error()
		}
		return o
	}
	shared := map[string]fn{}
	var want []out
	for _, x := range c.Calls {
		want = append(want, run(find(x.Target).make(), x))
		if shared[x.Target] == nil {
			shared[x.Target] = find(x.Target).make()
		}
		r.Label("client %s", x.Target)
	}
	errs := make([]error, len(c.By))
	var wg, ready sync.WaitGroup
	ready.Add(len(c.By))
	start := make(chan struct{})
	for g := range c.By {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			defer func() {
				if e := recover(); e != nil && errs[g] == nil {
					errs[g] = fmt.Errorf("goroutine %d: panic: %v", g, e)
				}
			}()
			ready.Done()
			<-start
			for k, i := range c.By[g] {
				x := c.Calls[i]
				if got := run(shared[x.Target], x); !sameOut(got, want[i]) {
					errs[g] = fmt.Errorf("goroutine %d call %d (%s) gives (%x, %x, %v, %q), alone it gives (%x, %x, %v, %q)", g, k, x.Target,
						got.A, got.B, got.OK, got.Err, want[i].A, want[i].B, want[i].OK, want[i].Err)
					return
				}
			}
		}(g)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	used := map[string]int{}
	for _, by := range c.By {
		mine := map[string]bool{}
		for _, i := range by {
			mine[c.Calls[i].Target] = true
		}
		for k := range mine {
			used[k]++
		}
	}
	for _, n := range used {
		if n > 1 {
			r.NonTrivial()
			r.Label("shared client")
		}
	}
	return nil
}

func TestC24(t *testing.T) {
	vh.Run(t, vh.Prop[crowd]{Name: "goroutines on clients of all coins", Quick: 600, Thorough: 12000, Flaky: true, CPULimit: 400,
		Rule: "2 to 6 goroutines make valid and invalid calls on shared clients of all coins at once, run with the race detector; a case counts when two goroutines used the same client",
		Gen:  drawCrowd, Check: checkCrowd})
}
