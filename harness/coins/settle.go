//go:build go1.21 && linux

package coins

import (
	"bytes"
	"runtime"
	"time"
)

var stacks = make([]byte, 1<<16)

// busy reports whether another goroutine is at work in the code under test. One
// that waits for a channel or lock is not: only another one can wake it.
func busy() bool {
	n := runtime.Stack(stacks, true)
	for n == len(stacks) {
		stacks = make([]byte, 2*len(stacks))
		n = runtime.Stack(stacks, true)
	}
	for i, g := range bytes.Split(stacks[:n], []byte("\n\n")) {
		if i == 0 {
			continue // this goroutine
		}
		head, rest, _ := bytes.Cut(g, []byte("\n"))
		under := false
		for _, l := range bytes.Split(rest, []byte("\n")) {
			if bytes.HasPrefix(l, []byte("\t")) {
				continue // a file name
			}
			if bytes.Contains(l, []byte("sencha-dev/powkit/")) && !bytes.Contains(l, []byte("/zzverif/")) {
				under = true
			}
		}
		if !under {
			continue
		}
		waits := false
		for _, s := range []string{"[chan ", "[select", "[semacquire", "[sync."} {
			waits = waits || bytes.Contains(head, []byte(s))
		}
		if !waits {
			return true
		}
	}
	return false
}

// Goroutines marks the start of some work that Settle waits for.
func Goroutines() int { return 0 }

// Settle waits for background work of the code under test to end.
func Settle(int) {
	calm := 0
	for end := time.Now().Add(60 * time.Second); calm < 2 && time.Now().Before(end); {
		if busy() {
			calm = 0
			time.Sleep(200 * time.Microsecond)
		} else {
			calm++
		}
	}
}
