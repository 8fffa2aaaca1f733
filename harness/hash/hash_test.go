//go:build go1.21 && linux

package hash

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// An ergo case is one Autolykos call.
type ergo struct {
	K      uint32 `json:"k"`
	N      uint32 `json:"n"`
	Msg    vh.Hex `json:"msg"`
	Height uint64 `json:"height"`
	Nonce  uint64 `json:"nonce"`
}

func drawErgo(t *rapid.T) ergo {
	c := ergo{K: 32, N: 26, Msg: vh.DrawBytes(t, "msg", 32), Nonce: vh.DrawU64(t, "nonce")}
	if rapid.IntRange(0, 3).Draw(t, "params") == 0 {
		c.K = uint32(rapid.IntRange(1, 32).Draw(t, "k"))
		c.N = uint32(rapid.IntRange(7, 26).Draw(t, "n"))
	}
	switch rapid.IntRange(0, 4).Draw(t, "height.kind") {
	case 0:
		c.Height = vh.DrawU64(t, "height") % (1 << 32)
	case 1:
		c.Height = rapid.Uint64Range(0, 4300000).Draw(t, "height")
	default:
		step := rapid.Uint64Range(0, 71).Draw(t, "step")
		c.Height = 614400 + 51200*step + rapid.Uint64Range(0, 4).Draw(t, "d") - 2
	}
	if c.N != 26 && c.Height > 4198400 {
		c.Height %= 4198401 // the late value is only defined for the chain's own size
	}
	return c
}

func TestC06(t *testing.T) {
	vh.Run(t, vh.Prop[ergo]{Name: "autolykos", Quick: 6000, Thorough: 150000,
		Rule:  "Compute calls, mostly with the chain's parameters and heights at the steps of the table size, against the reference; non-trivial when the table size is not the initial one or k, n are not the chain's",
		Gen:   drawErgo,
		Check: func(c ergo, r *vh.Rec) error { return c.check(r, c.client(), nil) }})
	vh.Run(t, vh.Prop[[]ergo]{Name: "autolykos-series", Quick: 1200, Thorough: 40000,
		Rule: "several calls on one client that share most of their arguments, made from one buffer, against the reference; all are non-trivial",
		Gen: func(t *rapid.T) []ergo {
			c := []ergo{drawErgo(t)}
			for n := rapid.IntRange(1, 4).Draw(t, "calls"); n > 0; n-- {
				k := c[rapid.IntRange(0, len(c)-1).Draw(t, "of")]
				k.Msg = vh.Kin(t, "msg", k.Msg)
				if rapid.Bool().Draw(t, "same nonce") {
					k.Nonce = vh.KinU64(t, "nonce", k.Nonce)
				}
				switch rapid.IntRange(0, 3).Draw(t, "height") {
				case 0:
					k.Height = drawErgo(t).Height
				case 1:
					k.Height ^= 1 << rapid.IntRange(0, 21).Draw(t, "height.bit")
				}
				if k.N != 26 && k.Height > 4198400 {
					k.Height %= 4198401
				}
				c = append(c, k)
			}
			return c
		},
		Check: func(c []ergo, r *vh.Rec) error {
			r.NonTrivial()
			cl, buf := c[0].client(), make([]byte, 32)
			for i, k := range c {
				if err := k.check(&vh.Rec{}, cl, buf); err != nil {
					return fmt.Errorf("call %d: %w", i, err)
				}
			}
			return nil
		}})
}

func (c ergo) client() *autolykos2.Client {
	if c.K == 32 && c.N == 26 {
		return autolykos2.NewErgo()
	}
	return autolykos2.New(c.K, c.N)
}

// check makes the call, with the message in buf if there is one.
func (c ergo) check(r *vh.Rec, cl *autolykos2.Client, buf []byte) error {
	if c.K == 32 && c.N == 26 {
		r.Label("Ergo")
	}
	if c.Height >= 614400 || c.K != 32 || c.N != 26 {
		r.NonTrivial()
	}
	if c.Height >= 614400 && (c.Height-614400)%51200 == 0 {
		r.Label("first height of a step")
	}
	if c.Height > 4198400 {
		r.Label("after the last step")
	}
	if ref.AutolykosSum(c.K, 1<<c.N, c.Msg, c.Nonce, c.Height).BitLen() <= 248 {
		r.Label("sum shorter than 32 bytes")
	}
	msg := append(buf[:0], c.Msg...)
	got, err := cl.Compute(msg, c.Height, c.Nonce)
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	return vh.Diff(fmt.Sprintf("hit of k=%d n=%d height %d nonce %#x", c.K, c.N, c.Height, c.Nonce), got, ref.AutolykosHit(c.K, 1<<c.N, c.Msg, c.Nonce, c.Height))
}

// A kaspa case is one kHeavyHash call.
type kaspa struct {
	Hash  vh.Hex `json:"hash"`
	Time  int64  `json:"timestamp"`
	Nonce uint64 `json:"nonce"`
	Kind  string `json:"kind,omitempty"`
}

// data/heavy.jsonl: hashes whose matrix has a determinant that is divisible by a
// prime, or a small last pivot. Random hashes do not get there.
type heavy struct {
	Prime int     `json:"prime"`
	Pivot float64 `json:"pivot"`
	Hash  vh.Hex  `json:"hash"`
}

var heavies = sync.OnceValue(func() []heavy {
	f, err := os.Open(filepath.Join(os.Getenv("VH_DATA"), "heavy.jsonl"))
	if err != nil {
		vh.Harnessf("%v", err)
	}
	defer f.Close()
	var out []heavy
	for d := json.NewDecoder(f); d.More(); {
		var h heavy
		vh.Must(d.Decode(&h))
		out = append(out, h)
	}
	return out
})

func TestC07(t *testing.T) {
	vh.Run(t, vh.Prop[kaspa]{Name: "heavyhash", Quick: 120000, Thorough: 2000000, CPULimit: 30,
		Rule:  "Compute calls against the reference, the all-zero hash included; non-trivial when the timestamp is negative, or the hash is sparse or zero, or its matrix is nearly singular or singular modulo a small prime (hashes searched for beforehand), or several matrices had to be drawn",
		Gen:   drawKaspa,
		Check: func(c kaspa, r *vh.Rec) error { return c.check(r, heavyhash.NewKaspa(), nil) }})
	vh.Run(t, vh.Prop[[]kaspa]{Name: "heavyhash-series", Quick: 16000, Thorough: 300000, CPULimit: 30,
		Rule: "several calls on one client that share most of their arguments, made from one buffer, against the reference; all are non-trivial",
		Gen: func(t *rapid.T) []kaspa {
			c := []kaspa{drawKaspa(t)}
			for n := rapid.IntRange(1, 4).Draw(t, "calls"); n > 0; n-- {
				k := c[rapid.IntRange(0, len(c)-1).Draw(t, "of")]
				k.Hash = vh.Kin(t, "hash", k.Hash)
				if rapid.Bool().Draw(t, "same nonce") {
					k.Nonce = vh.KinU64(t, "nonce", k.Nonce)
				}
				if rapid.Bool().Draw(t, "same time") {
					k.Time = int64(vh.KinU64(t, "time", uint64(k.Time)))
				}
				c = append(c, k)
			}
			return c
		},
		Check: func(c []kaspa, r *vh.Rec) error {
			r.NonTrivial()
			cl, buf := heavyhash.NewKaspa(), make([]byte, 32)
			for i, k := range c {
				if err := k.check(&vh.Rec{}, cl, buf); err != nil {
					return fmt.Errorf("call %d: %w", i, err)
				}
			}
			return nil
		}})
}

func drawKaspa(t *rapid.T) kaspa {
	c := kaspa{Hash: vh.DrawBytes(t, "hash", 32), Time: int64(vh.DrawU64(t, "time")), Nonce: vh.DrawU64(t, "nonce")}
	switch rapid.IntRange(0, 19).Draw(t, "special") {
	case 0:
		c.Hash = make([]byte, 32)
	case 4, 5, 6:
		// a matrix of full rank that has less modulo a small prime, or
		// whose elimination ends in a small number
		h := rapid.SampledFrom(heavies()).Draw(t, "heavy")
		c.Hash, c.Kind = h.Hash, "matrix with a small last pivot"
		if h.Prime != 0 {
			c.Kind = fmt.Sprintf("determinant divisible by %d", h.Prime)
		}
	case 1, 2, 3:
		// few bits per word of the generator state
		c.Hash = make([]byte, 32)
		for n := rapid.IntRange(1, 3).Draw(t, "bits"); n > 0; n-- {
			b := rapid.IntRange(0, 255).Draw(t, "bit")
			c.Hash[b/8] ^= 1 << (b % 8)
		}
	}
	return c
}

func (c kaspa) check(r *vh.Rec, cl *heavyhash.Client, buf []byte) error {
	set := 0
	for _, b := range c.Hash {
		if b != 0 {
			set++
		}
	}
	if c.Time < 0 || set < 8 {
		r.NonTrivial()
	}
	if c.Kind != "" {
		r.Label("%s", c.Kind)
		r.NonTrivial()
	}
	if c.Time < 0 {
		r.Label("negative timestamp")
	}
	if set < 8 {
		r.Label("sparse hash")
	}
	got, err := cl.Compute(append(buf[:0], c.Hash...), c.Time, c.Nonce)
	if set == 0 {
		r.Label("zero hash")
		if err == nil || got != nil {
			return fmt.Errorf("the all-zero hash gave %x, error %v", got, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	if _, n := ref.HeavyMatrix(c.Hash); n > 1 {
		r.Label("several matrices drawn")
		r.NonTrivial()
	}
	return vh.Diff("digest", got, ref.HeavyHash(c.Hash, c.Time, c.Nonce))
}

// A message is expanded from its seed.
type message struct {
	Len  int    `json:"len"`
	Kind int    `json:"kind"`
	Seed uint64 `json:"seed"`
	Raw  vh.Hex `json:"raw,omitempty"`
}

func drawMessage(t *rapid.T, around, most int) message {
	m := message{Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "seed")}
	switch rapid.IntRange(0, 3).Draw(t, "len.kind") {
	case 0:
		m.Len = rapid.IntRange(0, 3*around).Draw(t, "len")
	case 1:
		m.Len = rapid.IntRange(0, most).Draw(t, "len")
	default:
		m.Len = around*rapid.IntRange(0, most/around).Draw(t, "blocks") + rapid.IntRange(-5, 5).Draw(t, "off")
	}
	if m.Len < 0 {
		m.Len = 0
	}
	if vh.Mix(m.Seed)%64 == 0 {
		m.Len = vh.LongLen(t, "long")
	}
	if m.Len <= 48 {
		m.Raw = vh.DrawBytes(t, "raw", m.Len)
	}
	return m
}

func (m message) bytes() []byte {
	if m.Len == 0 {
		if m.Seed%2 == 0 {
			return nil
		}
		return []byte{}
	}
	if len(m.Raw) > 0 {
		return append([]byte{}, m.Raw...)
	}
	switch m.Kind {
	case 0:
		b := make([]byte, m.Len)
		f := []byte{0, 0xff, 0x80, 1, 6}[m.Seed%5]
		for i := range b {
			b[i] = f
		}
		return b
	}
	return vh.Expand(m.Seed, m.Len)
}

func TestC08(t *testing.T) {
	vh.Run(t, vh.Prop[message]{Name: "eaglesong", Quick: 24000, Thorough: 500000,
		Rule: "messages of 0 to 4200 bytes, mostly near multiples of the 32-byte rate, some of up to 70000, against the reference; non-trivial when the length is not 32",
		Gen:  func(t *rapid.T) message { return drawMessage(t, 32, 4200) },
		Check: func(m message, r *vh.Rec) error {
			r.Label("length mod 4 = %d", m.Len%4)
			switch m.Len % 32 {
			case 0, 31:
				r.Label("length mod 32 = %d", m.Len%32)
			}
			if m.Len == 0 {
				r.Label("empty")
			}
			if m.Len > 8200 {
				r.Label("over 8200 bytes")
			}
			if m.Len != 32 {
				r.NonTrivial()
			}
			return vh.Diff(fmt.Sprintf("digest of %d bytes", m.Len), eaglesong.NewNervos().Compute(m.bytes()), ref.Eaglesong(43, 32, 32, 6, m.bytes()))
		}})
	vh.Run(t, vh.Prop[message]{Name: "eaglesong-huge", Quick: 8, Thorough: 80,
		Rule: "messages of 2 to 2.5 MiB, against the reference; all are non-trivial",
		Gen: func(t *rapid.T) message {
			return message{Kind: 3, Seed: rapid.Uint64().Draw(t, "seed"), Len: 1<<21 - 40 + int(vh.Mix(rapid.Uint64().Draw(t, "len"))%(1<<19))}
		},
		Check: func(m message, r *vh.Rec) error {
			r.NonTrivial()
			return vh.Diff(fmt.Sprintf("digest of %d bytes", m.Len), eaglesong.NewNervos().Compute(m.bytes()), ref.Eaglesong(43, 32, 32, 6, m.bytes()))
		}})
	vh.Run(t, vh.Prop[[]vh.Hex]{Name: "eaglesong-series", Quick: 8000, Thorough: 200000,
		Rule: "several messages that share a prefix, a suffix or all but a bit, or grow by zeros, on one client, against the reference; all are non-trivial",
		Gen: func(t *rapid.T) []vh.Hex {
			c := []vh.Hex{vh.DrawBytes(t, "first", rapid.IntRange(0, 100).Draw(t, "len"))}
			for n := rapid.IntRange(1, 4).Draw(t, "calls"); n > 0; n-- {
				k := vh.Hex(vh.Kin(t, "message", c[rapid.IntRange(0, len(c)-1).Draw(t, "of")]))
				switch rapid.IntRange(0, 4).Draw(t, "length") {
				case 0:
					k = append(k, make([]byte, rapid.IntRange(1, 40).Draw(t, "zeros"))...)
				case 1:
					k = append(k, vh.DrawBytes(t, "more", rapid.IntRange(1, 40).Draw(t, "more.len"))...)
				case 2:
					k = k[:rapid.IntRange(0, len(k)).Draw(t, "keep")]
				}
				c = append(c, k)
			}
			return c
		},
		Check: func(c []vh.Hex, r *vh.Rec) error {
			r.NonTrivial()
			cl, buf := eaglesong.NewNervos(), make([]byte, 0, 400)
			for i, m := range c {
				if err := vh.Diff(fmt.Sprintf("call %d: digest of %d bytes", i, len(m)), cl.Compute(append(buf, m...)), ref.Eaglesong(43, 32, 32, 6, m)); err != nil {
					return err
				}
			}
			return nil
		}})
}
