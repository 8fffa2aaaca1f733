//go:build go1.21 && linux

package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"testing"
	"unsafe"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/coins"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// A call is one public call. NilA and NilB pass nil instead of an empty slice.
type call struct {
	Target string   `json:"target"`
	A      vh.Hex   `json:"a"`
	NilA   bool     `json:"nil_a,omitempty"`
	B      vh.Hex   `json:"b,omitempty"`
	NilB   bool     `json:"nil_b,omitempty"`
	List   []uint64 `json:"list,omitempty"`
	X      uint64   `json:"x"`
	Y      uint64   `json:"y"`
	How    string   `json:"how"`
}

func (c *call) args() (a, b []byte, l []uint64) {
	a, b, l = c.A, c.B, c.List
	if c.NilA {
		a = nil
	} else if a == nil {
		a = []byte{}
	}
	if c.NilB {
		b, l = nil, nil
	} else {
		if b == nil {
			b = []byte{}
		}
		if l == nil {
			l = []uint64{}
		}
	}
	return
}

func drawLen(t *rapid.T, name string, want int) int {
	if want < 0 {
		want = 32
	}
	switch rapid.IntRange(0, 8).Draw(t, name+".kind") {
	case 8: // right in the low 8 or 16 bits
		return want + 1<<rapid.SampledFrom([]int{8, 9, 10, 16}).Draw(t, name+".wrap")
	case 0:
		return want + rapid.IntRange(-3, 3).Draw(t, name)
	case 1:
		return want * rapid.SampledFrom([]int{2, 3, 4, 8, 16}).Draw(t, name)
	case 2:
		return want / rapid.SampledFrom([]int{2, 4, 8}).Draw(t, name)
	case 3:
		return rapid.IntRange(0, 8).Draw(t, name)
	case 4:
		return rapid.IntRange(0, 300).Draw(t, name)
	case 5:
		return 1 << rapid.IntRange(0, 17).Draw(t, name)
	}
	return want
}

// drawExtents draws the numbers: heights of a few epochs for the DAG coins, and
// anything the other coins define.
func (c *call) drawNumbers(t *rapid.T) {
	c.Y = vh.DrawU64(t, "nonce")
	tg := find(c.Target)
	if tg.kind == "dag" {
		c.X = coins.DrawHeight(t, rapid.Uint64Range(0, 4).Draw(t, "epoch"), coins.All[tg.coin].EpochLen)
		return
	}
	if tg.kind == "autolykos" && rapid.Bool().Draw(t, "height of the chain") {
		c.X = rapid.Uint64Range(0, 2_000_000).Draw(t, "height")
		return
	}
	c.X = vh.DrawU64(t, "x")
	if tg.kind == "autolykos" {
		c.X %= 1 << 32
	}
}

func drawMalformed(t *rapid.T) call {
	tg := targets[rapid.IntRange(0, len(targets)-1).Draw(t, "target")]
	c := call{Target: tg.name, How: "arbitrary"}
	lenA, lenB := drawLen(t, "a.len", tg.lenA), 0
	if tg.verify {
		lenB = drawLen(t, "b.len", tg.lenB)
		if tg.lenA < 0 {
			switch rapid.IntRange(0, 3).Draw(t, "header.len.kind") {
			case 0:
				lenA = 0
			case 1:
				lenA = rapid.IntRange(100, 150).Draw(t, "header.len")
			}
		}
	}
	c.drawNumbers(t)
	c.A = vh.DrawBytes(t, "a", lenA)
	if lenA == 0 {
		c.NilA = rapid.Bool().Draw(t, "nil")
	}
	if !tg.verify {
		return c
	}
	fromVector := rapid.IntRange(0, 2).Draw(t, "from vector") == 0
	if tg.list {
		switch {
		case fromVector:
			v := cycles[base(tg.name)]
			c.A, c.NilA = unhex(v.header), false
			for i := 0; i < lenB; i++ {
				c.List = append(c.List, v.edges[i%42])
			}
			c.How = "from a known solution"
		default:
			kind := rapid.IntRange(0, 4).Draw(t, "list.kind")
			seed := rapid.Uint64().Draw(t, "list.seed")
			e := vh.Expand(seed, lenB)
			for i := 0; i < lenB; i++ {
				var v uint64
				switch kind {
				case 0:
					v = uint64(i)
				case 1:
					v = ^uint64(0) - uint64(lenB-i)
				case 2:
					v = uint64(i)<<23 + uint64(e[i])
				case 3:
					v = uint64(e[i]) * 0x0101010101010101
				}
				c.List = append(c.List, v)
			}
		}
	} else {
		c.B = vh.DrawBytes(t, "b", lenB)
		if vs := vectors()[base(tg.name)]; fromVector && len(vs) > 0 {
			v := vs[rapid.IntRange(0, len(vs)-1).Draw(t, "vector")]
			if tg.name != "beam" || rapid.Bool().Draw(t, "keep header") {
				c.A, c.NilA = unhex(v.Header), false
			}
			s := unhex(v.Soln)
			for len(c.B) > 0 && len(s) < lenB {
				s = append(s, s...)
			}
			c.B = s[:lenB]
			c.How = "from a solver result"
		}
	}
	if lenB == 0 {
		c.NilB = rapid.Bool().Draw(t, "nil b")
	}
	return c
}

func TestC15(t *testing.T) {
	clients := map[string]fn{}
	vh.Run(t, vh.Prop[call]{Name: "malformed", Quick: 40000, Thorough: 600000, CPULimit: 60,
		Rule: "one call of one public client with slices of any length and content, nil and empty too, wrong lengths next to the right one and multiples of it; non-trivial when some length is not the required one",
		Gen:  drawMalformed,
		Check: func(c call, r *vh.Rec) error {
			tg := find(c.Target)
			if clients[c.Target] == nil {
				clients[c.Target] = tg.make()
			}
			a, b, l := c.args()
			lb := len(b)
			if tg.list {
				lb = len(l)
			}
			bad := tg.lenA >= 0 && len(a) != tg.lenA || tg.lenB >= 0 && lb != tg.lenB
			r.Label("client %s", c.Target)
			if bad {
				r.NonTrivial()
				r.Label("wrong length")
			} else {
				r.Label("right length")
			}
			if a == nil {
				r.Label("nil header or hash")
			}
			m, d, ok, err := clients[c.Target](a, b, l, c.X, c.Y)
			at := fmt.Sprintf("%s (%d bytes; solution of %d)", c.Target, len(a), lb)
			if bad {
				if err == nil {
					return fmt.Errorf("%s: wrong length gives no error", at)
				}
				if ok || len(m) > 0 || len(d) > 0 {
					return fmt.Errorf("%s: wrong length gives a result (%x, %x, %v) next to the error", at, m, d, ok)
				}
				return nil
			}
			if tg.verify {
				if ok && err != nil {
					return fmt.Errorf("%s: accepted with error %v", at, err)
				}
				return nil
			}
			zero := c.Target == "KAS" && bytes.Equal(a, make([]byte, 32))
			if zero {
				r.Label("zero HeavyHash seed")
			}
			if !zero && err != nil {
				return fmt.Errorf("%s: error %v on input of the right length", at, err)
			}
			if !zero && len(m)+len(d) == 0 {
				return fmt.Errorf("%s: no result and no error", at)
			}
			return nil
		}})
	vh.Run(t, vh.Prop[giant]{Name: "gigantic", Quick: 640, Thorough: 8000, CPULimit: 200,
		Rule:  "one call of one public client with a slice of 2 to 32 GiB (unbacked memory) that starts with valid contents and has the right length in its low 29 to 32 bits; non-trivial unless there is no address space for it",
		Gen:   drawGiant,
		Check: func(g giant, r *vh.Rec) error { return g.check(r) }})
}

// A giant is a slice of 2 GiB and more whose length is right in its low bits. It
// is mapped without being backed by memory, and starts with valid contents.
type giant struct {
	Target string `json:"target"`
	Soln   bool   `json:"soln"` // the solution or list is it, else the hash or header
	Wrap   int    `json:"wrap"` // lowest bit of the surplus
	Times  int    `json:"times"`
	Off    int    `json:"off"`
}

var giantArea = sync.OnceValue(func() []byte {
	for _, size := range []int64{34 << 30, 18 << 30, 5 << 30} {
		if int64(int(size)) != size {
			return nil
		}
		b, err := syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err == nil {
			syscall.Madvise(b, 15) // MADV_NOHUGEPAGE
			return b
		}
	}
	return nil
})

func (g giant) check(r *vh.Rec) error {
	tg := find(g.Target)
	area := giantArea()
	a := vh.Expand(uint64(g.Times), max(tg.lenA, 32))
	var b []byte
	var l []uint64
	if tg.list {
		v := cycles[base(tg.name)]
		a, l = unhex(v.header), v.edges[:tg.lenB]
	} else if tg.verify {
		b = make([]byte, tg.lenB)
		if vs := vectors()[base(tg.name)]; len(vs) > 0 {
			for _, v := range vs {
				if v.Label == "valid" && len(unhex(v.Soln)) == tg.lenB {
					a, b = unhex(v.Header), unhex(v.Soln)
					break
				}
			}
		}
	}
	n := g.Times<<g.Wrap + g.Off
	need := int64(max(tg.lenA, tg.lenB)) + int64(g.Times)<<g.Wrap + int64(g.Off)
	if tg.list {
		need *= 8
	}
	if need > int64(len(area)) {
		r.Label("not enough address space")
		return nil
	}
	r.NonTrivial()
	switch {
	case !g.Soln:
		copy(area, a)
		a = area[:tg.lenA+n]
		r.Label("hash or header of over %d MiB", len(a)>>20)
	case tg.list:
		whole := unsafe.Slice((*uint64)(unsafe.Pointer(&area[0])), len(area)/8)
		copy(whole, l)
		l = whole[:tg.lenB+n]
		r.Label("list of over %d Mi edges", len(l)>>20)
	default:
		copy(area, b)
		b = area[:tg.lenB+n]
		r.Label("solution of over %d MiB", len(b)>>20)
	}
	m, d, ok, err := tg.make()(a, b, l, 5, 6)
	clear(area[:1<<16])
	at := fmt.Sprintf("%s, %d bytes, solution of %d bytes or %d edges", g.Target, len(a), len(b), len(l))
	if err == nil {
		return fmt.Errorf("%s: wrong length gives no error (%v)", at, ok)
	}
	if ok || len(m) > 0 || len(d) > 0 {
		return fmt.Errorf("%s: wrong length gives a result (%x, %x, %v) next to the error", at, m, d, ok)
	}
	return nil
}

func drawGiant(t *rapid.T) giant {
	var g giant
	for {
		tg := targets[rapid.IntRange(0, len(targets)-1).Draw(t, "target")]
		g = giant{Target: tg.name, Wrap: 32, Times: rapid.IntRange(1, 4).Draw(t, "times")}
		var can []bool
		if tg.lenA >= 0 {
			can = append(can, false)
		}
		if tg.lenB >= 0 {
			can = append(can, true)
		}
		if len(can) == 0 {
			continue
		}
		g.Soln = rapid.SampledFrom(can).Draw(t, "which")
		if rapid.Bool().Draw(t, "wrap.kind") {
			g.Wrap, g.Times = 31, 2*g.Times-1
		}
		if tg.list { // lengths count words here
			g.Wrap, g.Times = rapid.SampledFrom([]int{29, 30, 31, 32}).Draw(t, "wrap"), 1
		}
		if rapid.IntRange(0, 3).Draw(t, "off.kind") == 0 {
			g.Off = rapid.IntRange(-32, 32).Draw(t, "off")
		}
		return g
	}
}

// A history interleaves several calls on clients that live through all of it.
type history struct {
	Calls []call `json:"calls"`
	Order []int  `json:"order"`
	Pad   int    `json:"pad"`             // spare capacity behind every slice
	Fresh bool   `json:"fresh,omitempty"` // also compare with a process that makes this call only
	Reuse bool   `json:"reuse,omitempty"` // the caller has one buffer each for headers, solutions and lists
}

func drawGood(t *rapid.T) call {
	tg := targets[rapid.IntRange(0, len(targets)-1).Draw(t, "target")]
	c := call{Target: tg.name, How: "right length"}
	c.drawNumbers(t)
	switch {
	case tg.list:
		v := cycles[base(tg.name)]
		c.A, c.List = unhex(v.header), append([]uint64{}, v.edges[:tg.lenB]...)
		if rapid.Bool().Draw(t, "change") {
			i := rapid.IntRange(0, len(c.List)-1).Draw(t, "edge")
			c.List[i] ^= 1 << rapid.IntRange(0, 30).Draw(t, "bit")
		}
		if rapid.IntRange(0, 3).Draw(t, "change header") == 0 {
			c.A[rapid.IntRange(0, len(c.A)-1).Draw(t, "at")] ^= 1
		}
	case tg.verify:
		vs := vectors()[base(tg.name)]
		if len(vs) == 0 {
			c.A, c.B = vh.DrawBytes(t, "header", 100), vh.DrawBytes(t, "solution", tg.lenB)
			break
		}
		v := vs[rapid.IntRange(0, len(vs)-1).Draw(t, "vector")]
		c.A, c.B = unhex(v.Header), unhex(v.Soln)
		if rapid.IntRange(0, 3).Draw(t, "change") == 0 {
			i := rapid.IntRange(0, len(c.B)*8-1).Draw(t, "bit")
			c.B[i/8] ^= 1 << (i % 8)
		}
	default:
		n := tg.lenA
		if n < 0 {
			n = rapid.IntRange(0, 140).Draw(t, "len")
		}
		c.A = vh.DrawBytes(t, "hash", n)
	}
	return c
}

func drawHistory(t *rapid.T) history {
	h := history{Pad: rapid.SampledFrom([]int{0, 1, 4, 8, 64, 200}).Draw(t, "pad")}
	n := rapid.IntRange(1, 6).Draw(t, "calls")
	for i := 0; i < n; i++ {
		var c call
		if rapid.IntRange(0, 4).Draw(t, "malformed") == 0 {
			c = drawMalformed(t)
			if len(c.A) > 4096 {
				c.A = c.A[:4096]
			}
		} else {
			c = drawGood(t)
		}
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "related") != 0 { // the same call with one thing changed
			c = h.Calls[i-1]
			c.A = append(vh.Hex{}, c.A...)
			tg := find(c.Target)
			switch rapid.IntRange(0, 5).Draw(t, "what") {
			case 5: // another solved header for the same client
				if vs := vectors()[base(tg.name)]; len(vs) > 0 {
					v := vs[rapid.IntRange(0, len(vs)-1).Draw(t, "other vector")]
					c.A, c.B, c.NilA, c.NilB = unhex(v.Header), unhex(v.Soln), false, false
				}
			case 0:
				c.Y ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
			case 1:
				if len(c.A) > 0 {
					c.A[rapid.IntRange(0, len(c.A)-1).Draw(t, "at")] ^= 0x10
				}
			case 2:
				if tg.kind == "dag" {
					l := coins.All[tg.coin].EpochLen
					c.X = l*rapid.Uint64Range(0, 4).Draw(t, "epoch") + c.X%l
				} else if tg.kind == "autolykos" {
					c.X = (c.X + rapid.Uint64Range(0, 120000).Draw(t, "later")) % (1 << 32)
				}
			default: // the same arguments on a client with other parameters
				var sib []string
				for _, x := range targets {
					if x.kind != "" && x.kind == tg.kind && x.name != tg.name {
						sib = append(sib, x.name)
					}
				}
				if len(sib) > 0 {
					c.Target = rapid.SampledFrom(sib).Draw(t, "sibling")
				}
			}
		}
		h.Calls = append(h.Calls, c)
	}
	m := rapid.IntRange(2, 16).Draw(t, "steps")
	for i := 0; i < m; i++ {
		h.Order = append(h.Order, rapid.IntRange(0, n-1).Draw(t, "step"))
	}
	h.Reuse = rapid.Bool().Draw(t, "one buffer")
	h.Fresh = rapid.IntRange(0, 3).Draw(t, "fresh process") == 0
	return h
}

// backed copies b to the middle of a larger array with a known filling.
func backed(b []byte, isNil bool, pad int, buffer []byte) (slice, whole []byte) {
	if isNil {
		return nil, nil
	}
	n := pad + len(b) + pad
	if n <= len(buffer) {
		whole = buffer[:n:n]
	} else {
		whole = make([]byte, n)
	}
	for i := range whole {
		whole[i] = 0xc5
	}
	copy(whole[pad:], b)
	return whole[pad : pad+len(b) : len(whole)], whole
}

func backedList(l []uint64, isNil bool, pad int, buffer []uint64) (slice, whole []uint64) {
	if isNil {
		return nil, nil
	}
	n := pad + len(l) + pad
	if n <= len(buffer) {
		whole = buffer[:n:n]
	} else {
		whole = make([]uint64, n)
	}
	for i := range whole {
		whole[i] = 0xc5c5c5c5c5c5c5c5
	}
	copy(whole[pad:], l)
	return whole[pad : pad+len(l) : len(whole)], whole
}

func overlap(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	p, q := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return p < q+uintptr(len(b)) && q < p+uintptr(len(a))
}

func sameOut(x, y out) bool {
	return bytes.Equal(x.A, y.A) && bytes.Equal(x.B, y.B) && x.OK == y.OK && (x.Err == "") == (y.Err == "")
}

// alone makes one call in a process of its own.
func alone(c call) out {
	in, err := json.Marshal(c)
	vh.Must(err)
	cmd := exec.Command(os.Getenv("VH_BIN"))
	cmd.Env = append(os.Environ(), "VH_ALONE=1")
	cmd.Stdin = bytes.NewReader(in)
	var o out
	res, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(res, &o)
	}
	if err != nil {
		vh.Harnessf("a call in its own process: %v\n%s", err, res)
	}
	return o
}

func TestMain(m *testing.M) {
	if os.Getenv("VH_ALONE") == "" {
		os.Exit(m.Run())
	}
	var c call
	vh.Must(json.NewDecoder(os.Stdin).Decode(&c))
	a, b, l := c.args()
	x, y, ok, err := find(c.Target).make()(a, b, l, c.X, c.Y)
	o := out{A: x, B: y, OK: ok}
	if err != nil {
		o.Err = err.Error()
	}
	vh.Must(json.NewEncoder(os.Stdout).Encode(o))
	os.Exit(0)
}

// what a caller that reuses its buffers has
var (
	headerBuffer, solutionBuffer [8192]byte
	listBuffer                   [512]uint64
)

func checkHistory(h history, r *vh.Rec) error {
	base := coins.Goroutines()
	defer func() { coins.Settle(base) }()
	shared := map[string]fn{}
	first := make([]*out, len(h.Calls))
	type kept struct {
		live, then []byte
		what       string
	}
	var results []kept
	kinds := map[string]bool{}
	repeats := false

	do := func(i int, f fn, where string) error {
		c := h.Calls[i]
		a, b, l := c.args()
		var bufA, bufB []byte
		var bufL []uint64
		if h.Reuse && where != "alone" {
			bufA, bufB, bufL = headerBuffer[:], solutionBuffer[:], listBuffer[:]
			r.Label("arguments in reused buffers")
		}
		as, aw := backed(a, a == nil, h.Pad, bufA)
		bs, bw := backed(b, b == nil, h.Pad, bufB)
		ls, lw := backedList(l, l == nil, h.Pad, bufL)
		a0, b0 := append([]byte{}, aw...), append([]byte{}, bw...)
		l0 := append([]uint64{}, lw...)
		m, d, ok, err := f(as, bs, ls, c.X, c.Y)
		at := fmt.Sprintf("%s call %d (%s)", c.Target, i, where)
		if !bytes.Equal(aw, a0) {
			return fmt.Errorf("%s: the header or hash passed in, or the memory next to it, was changed", at)
		}
		if !bytes.Equal(bw, b0) {
			return fmt.Errorf("%s: the solution passed in, or the memory next to it, was changed", at)
		}
		for k := range lw {
			if lw[k] != l0[k] {
				return fmt.Errorf("%s: the edge list passed in, or the memory next to it, was changed", at)
			}
		}
		o := out{A: append([]byte{}, m...), B: append([]byte{}, d...), OK: ok}
		if err != nil {
			o.Err = err.Error()
		}
		for n, res := range [][]byte{m, d} {
			if overlap(res, aw) || overlap(res, bw) {
				return fmt.Errorf("%s: result %d shares memory with the arguments", at, n)
			}
			for _, k := range results {
				if overlap(res, k.live) {
					return fmt.Errorf("%s: result %d shares memory with a result of %s", at, n, k.what)
				}
			}
		}
		// overwriting the arguments must not change the results
		for k := range aw {
			aw[k] = ^aw[k]
		}
		for k := range bw {
			bw[k] = ^bw[k]
		}
		if !bytes.Equal(m, o.A) || !bytes.Equal(d, o.B) {
			return fmt.Errorf("%s: a result changes with the caller's arguments", at)
		}
		if first[i] == nil {
			first[i] = &o
		} else if !sameOut(*first[i], o) {
			return fmt.Errorf("%s: equal arguments gave (%x, %x, %v, %q) before and (%x, %x, %v, %q) now", at,
				first[i].A, first[i].B, first[i].OK, first[i].Err, o.A, o.B, o.OK, o.Err)
		}
		for _, k := range results {
			if !bytes.Equal(k.live, k.then) {
				return fmt.Errorf("%s: changed the result that %s had returned", at, k.what)
			}
		}
		for _, res := range [][]byte{m, d} {
			if len(res) > 0 {
				// a caller may write to what it got
				for k := range res {
					res[k] = byte(k) ^ 0x5a
				}
				results = append(results, kept{res, append([]byte{}, res...), at})
			}
		}
		return nil
	}
	shape := func(c call) string { // the calls that may disturb each other
		b, _ := json.Marshal([]any{c.Target, c.A, c.B, c.List, c.X, c.Y})
		return string(b)
	}
	for i, c := range h.Calls {
		kinds[c.Target] = true
		r.Label("client %s", c.Target)
		if err := do(i, find(c.Target).make(), "alone"); err != nil {
			return err
		}
	}
	seen := map[string]bool{}
	for n, i := range h.Order {
		c := h.Calls[i]
		if shared[c.Target] == nil {
			shared[c.Target] = find(c.Target).make()
		}
		repeats = repeats || seen[shape(c)]
		seen[shape(c)] = true
		if err := do(i, shared[c.Target], fmt.Sprintf("step %d", n)); err != nil {
			return err
		}
	}
	for i, c := range h.Calls {
		if err := do(i, find(c.Target).make(), "alone again"); err != nil {
			return err
		}
	}
	if h.Fresh {
		for i, c := range h.Calls {
			if o := alone(c); !sameOut(*first[i], o) {
				return fmt.Errorf("%s call %d: gave (%x, %x, %v, %q) here and (%x, %x, %v, %q) in a process that made no other call", c.Target, i,
					first[i].A, first[i].B, first[i].OK, first[i].Err, o.A, o.B, o.OK, o.Err)
			}
		}
		r.Label("compared with calls alone in their process")
	}
	if repeats && len(seen) > 1 {
		r.NonTrivial()
		r.Label("repeated with other calls in between")
	}
	if len(kinds) > 1 {
		r.Label("several coins")
	}
	return nil
}

func TestC16(t *testing.T) {
	vh.Run(t, vh.Prop[history]{Name: "purity", Quick: 6000, Thorough: 80000,
		Rule: "histories of valid and invalid calls on clients of all coins, each call also alone on a fresh client before and after, and for a quarter of the histories in a process of its own; calls are often repeated on a client of the same kind with other parameters; arguments sit inside larger arrays that are compared and overwritten, half of the histories pass all arguments in the same buffers, as callers do; results are kept, compared and overwritten; non-trivial when a call repeats and another one is in the history",
		Gen:  drawHistory, Check: checkHistory})
}
