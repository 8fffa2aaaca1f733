//go:build go1.21 && linux

package hash

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/common/bitutil"
	"github.com/sencha-dev/powkit/internal/common/convutil"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// keccakCase hashes a sequence of messages through one reused hasher.
type keccakCase struct {
	Wide  bool      `json:"wide"`
	Msgs  []message `json:"msgs"`
	Alias []bool    `json:"alias"` // write the digest over the message
	Room  []int     `json:"room"`  // spare destination bytes
}

func checkKeccak(c keccakCase, r *vh.Rec) error {
	size, one, h, rf := 32, crypto.Keccak256, crypto.NewKeccak256Hasher(), ref.Keccak256
	if c.Wide {
		size, one, h, rf = 64, crypto.Keccak512, crypto.NewKeccak512Hasher(), ref.Keccak512
	}
	if len(c.Msgs) > 1 {
		r.NonTrivial()
		r.Label("reused hasher")
	}
	for i, m := range c.Msgs {
		in := m.bytes()
		want := rf(in)
		if err := vh.Diff(fmt.Sprintf("keccak-%d of %d bytes", size*8, len(in)), one(in), want); err != nil {
			return err
		}
		var dst []byte
		if c.Alias[i] && len(in) >= size {
			dst = in
			r.Label("digest over its own message")
		} else {
			dst = make([]byte, size+c.Room[i])
		}
		rest := append([]byte{}, dst[size:]...)
		src := append([]byte{}, in...)
		h(dst, in)
		if err := vh.Diff(fmt.Sprintf("hasher call %d, %d bytes", i, len(in)), dst[:size], want); err != nil {
			return err
		}
		if err := vh.Diff("bytes after the digest", dst[size:], rest); err != nil {
			return err
		}
		if len(dst) == 0 || len(in) == 0 || &dst[0] != &in[0] {
			if err := vh.Diff("message after hashing", in, src); err != nil {
				return err
			}
		}
	}
	return nil
}

type f800Case struct {
	State []uint32 `json:"state"`
	Times int      `json:"times"`
}

func drawState(t *rapid.T) []uint32 {
	out := make([]uint32, 25)
	kind := rapid.IntRange(0, 3).Draw(t, "state.kind")
	s := rapid.Uint64().Draw(t, "state")
	for i := range out {
		switch kind {
		case 0:
			out[i] = vh.DrawU32(t, "lane")
		case 1:
			out[i] = []uint32{0, 0xffffffff, 0x55555555, 1}[s%4]
		default:
			out[i] = binary.LittleEndian.Uint32(vh.Expand(s, 100)[i*4:])
		}
	}
	if kind == 1 {
		b := rapid.IntRange(0, 799).Draw(t, "flip")
		out[b/32] ^= 1 << (b % 32)
	}
	return out
}

// sipCase walks a SipHasher and the edge functions with one key.
type sipCase struct {
	Keys [4]uint64 `json:"keys"`
	Ops  []sipOp   `json:"ops"`
}

type sipOp struct {
	Op    int    `json:"op"`
	Nonce uint64 `json:"nonce"`
	Mask  uint64 `json:"mask"`
	Side  uint64 `json:"side"`
}

func drawKeys(t *rapid.T) (k [4]uint64) {
	for i := range k {
		k[i] = vh.DrawU64(t, "key")
	}
	return
}

func checkSip(c sipCase, r *vh.Rec) error {
	h := crypto.NewSipHasher(c.Keys[0], c.Keys[1], c.Keys[2], c.Keys[3])
	s := ref.Sip(c.Keys)
	r.NonTrivial()
	for i, o := range c.Ops {
		switch o.Op {
		case 0:
			h.Hash24(o.Nonce)
			s.Hash(2, 4, o.Nonce)
		case 1:
			h.Hash48(o.Nonce)
			s.Hash(4, 8, o.Nonce)
		case 2:
			h.SipRound()
			s.Round()
		case 3:
			msg := 2*o.Nonce + o.Side
			if got, want := crypto.SipNode24(o.Mask, c.Keys, o.Nonce, o.Side), ref.SipNode(c.Keys, msg, 0)&o.Mask; got != want {
				return fmt.Errorf("SipNode24(%#x, edge %#x, side %d) = %#x, want %#x", o.Mask, o.Nonce, o.Side, got, want)
			}
			if got, want := crypto.SipNode24Legacy(o.Mask, c.Keys, o.Nonce, o.Side), ref.SipNode(c.Keys, msg, 17)&o.Mask; got != want {
				return fmt.Errorf("SipNode24Legacy(%#x, edge %#x, side %d) = %#x, want %#x", o.Mask, o.Nonce, o.Side, got, want)
			}
			r.Label("node")
		case 4:
			if got, want := crypto.SipBlock48(c.Keys, o.Nonce), ref.SipBlock48(c.Keys, o.Nonce); got != want {
				return fmt.Errorf("SipBlock48(edge %#x) = %#x, want %#x", o.Nonce, got, want)
			}
			r.Label("block position %d..%d", o.Nonce%64/21*21, min(o.Nonce%64/21*21+20, 63))
		}
		if got, want := h.XorLanes(), s.Xor(); got != want {
			return fmt.Errorf("op %d: lanes xor to %#x, want %#x", i, got, want)
		}
	}
	return nil
}

type wordsCase struct {
	State [4]uint64 `json:"state"`
	N     int       `json:"n"`
	A     []uint32  `json:"a"`
	B     []uint32  `json:"b"`
	U     uint64    `json:"u"`
	V     uint64    `json:"v"`
	Raw   vh.Hex    `json:"raw"`
}

func checkWords(c wordsCase, r *vh.Rec) error {
	r.NonTrivial()
	x := crypto.NewXoshiro256PlusPlusHasher(c.State[0], c.State[1], c.State[2], c.State[3])
	y := ref.Xoshiro(c.State)
	for i := 0; i < c.N; i++ {
		if got, want := x.Next(), y.Next(); got != want {
			return fmt.Errorf("xoshiro256++ output %d is %#x, want %#x", i, got, want)
		}
	}
	if got, want := crypto.Fnv1Uint64(c.U, c.V), c.U*16777619^c.V; got != want {
		return fmt.Errorf("Fnv1Uint64(%#x, %#x) = %#x, want %#x", c.U, c.V, got, want)
	}
	want := make([]uint32, len(c.A))
	for i, a := range c.A {
		b := c.B[i]
		want[i] = a*16777619 ^ b
		if got := crypto.Fnv1(a, b); got != want[i] {
			return fmt.Errorf("Fnv1(%#x, %#x) = %#x, want %#x", a, b, got, want[i])
		}
		if got, w := crypto.Fnv1a(a, b), (a^b)*16777619; got != w {
			return fmt.Errorf("Fnv1a(%#x, %#x) = %#x, want %#x", a, b, got, w)
		}
	}
	mix := append([]uint32{}, c.A...)
	data := append([]uint32{}, c.B...)
	crypto.FnvHash(mix, data)
	if err := vh.FirstErr(vh.DiffWords("FnvHash", mix, want), vh.DiffWords("data after FnvHash", data, c.B)); err != nil {
		return err
	}
	for name, o := range map[string]binary.ByteOrder{"little": binary.LittleEndian, "big": binary.BigEndian} {
		enc := func(v uint64, n int) []byte {
			out := make([]byte, n)
			for i := range out {
				sh := i
				if name == "big" {
					sh = n - 1 - i
				}
				out[i] = byte(v >> (8 * sh))
			}
			return out
		}
		var flat []byte
		for _, w := range c.A {
			flat = append(flat, enc(uint64(w), 4)...)
		}
		words := make([]uint32, len(c.Raw)/4)
		for i := range words {
			for k := 0; k < 4; k++ {
				sh := 8 * k
				if name == "big" {
					sh = 24 - 8*k
				}
				words[i] |= uint32(c.Raw[4*i+k]) << sh
			}
		}
		err := vh.FirstErr(
			vh.Diff(name+" Uint32ArrayToBytes", convutil.Uint32ArrayToBytes(c.A, o), flat),
			vh.DiffWords(name+" BytesToUint32Array", convutil.BytesToUint32Array(c.Raw, o), words),
			vh.Diff(name+" Uint32ToBytes", convutil.Uint32ToBytes(uint32(c.U), o), enc(c.U&0xffffffff, 4)),
			vh.Diff(name+" Uint64ToBytes", convutil.Uint64ToBytes(c.V, o), enc(c.V, 8)),
		)
		if err != nil {
			return err
		}
	}
	return nil
}

type blakeCase struct {
	Msg    message `json:"msg"`
	Person vh.Hex  `json:"person"`
	Size   int     `json:"size"`
}

func checkBlake(c blakeCase, r *vh.Rec) error {
	m := c.Msg.bytes()
	if len(m) > 128 || len(c.Person) > 0 {
		r.NonTrivial()
	}
	p := []byte(c.Person)
	if len(p) == 0 {
		p = nil
	}
	return vh.FirstErr(
		vh.Diff(fmt.Sprintf("Blake2b, %d bytes, person %x, size %d", len(m), p, c.Size), crypto.Blake2b(m, p, c.Size), ref.Blake2b(m, p, c.Size)),
		vh.Diff(fmt.Sprintf("Blake2b256, %d bytes", len(m)), crypto.Blake2b256(m), ref.Blake2b(m, nil, 32)),
	)
}

func checkCShake(c blakeCase, r *vh.Rec) error {
	m := c.Msg.bytes()
	if len(m) > 100 || len(c.Person) > 0 {
		r.NonTrivial()
	}
	return vh.Diff(fmt.Sprintf("cSHAKE256, %d bytes, customization %x, size %d", len(m), []byte(c.Person), c.Size),
		crypto.CShake256(m, c.Person, c.Size), ref.CShake256(m, c.Person, c.Size))
}

// xorCase xors operands placed in front of unreadable memory.
type xorCase struct {
	LenA, LenB, Room int
	GapA, GapB, GapD int
	Alias            int // 0 none, 1 dst is a, 2 dst is b, 3 a is b
	Seed             uint64
}

const guardSize = 1 << 16

var arenas [3][]byte

func arena(i int) []byte {
	if arenas[i] == nil {
		m, err := syscall.Mmap(-1, 0, guardSize+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		vh.Must(err)
		vh.Must(syscall.Mprotect(m[guardSize:], syscall.PROT_NONE))
		arenas[i] = m[:guardSize]
	}
	return arenas[i]
}

func checkXor(c xorCase, r *vh.Rec) error {
	n := min(c.LenA, c.LenB)
	place := func(i, l, gap int) []byte {
		a := arena(i)
		end := len(a) - gap
		return a[end-l : end : end]
	}
	a, b, dst := place(0, c.LenA, c.GapA), place(1, c.LenB, c.GapB), place(2, n+c.Room, c.GapD)
	copy(a, vh.Expand(c.Seed, len(a)))
	copy(b, vh.Expand(c.Seed+1, len(b)))
	copy(dst, vh.Expand(c.Seed+2, len(dst)))
	switch c.Alias {
	case 1:
		dst = a
	case 2:
		dst = b
	case 3:
		b = a
		n = len(a)
	}
	if len(dst) < n {
		dst = place(2, n, c.GapD)
	}
	if n > 0 {
		r.NonTrivial()
	}
	r.Label("length class %d", bits.Len(uint(n)))
	if c.Alias != 0 {
		r.Label("aliased operands")
	}
	if c.LenA != c.LenB {
		r.Label("unequal operands")
	}
	want := append([]byte{}, dst...)
	a0, b0 := append([]byte{}, a...), append([]byte{}, b...)
	for i := 0; i < n; i++ {
		want[i] = a[i] ^ b[i]
	}
	if got := bitutil.XORBytes(dst, a, b); got != n {
		return fmt.Errorf("XORBytes of %d and %d bytes returned %d", len(a), len(b), got)
	}
	err := vh.Diff("xor", dst, want)
	if c.Alias != 1 {
		err = vh.FirstErr(err, vh.Diff("first operand after xor", a, a0))
	}
	if c.Alias != 2 {
		err = vh.FirstErr(err, vh.Diff("second operand after xor", b, b0))
	}
	return err
}

func TestC27(t *testing.T) {
	vh.Run(t, vh.Prop[keccakCase]{Name: "keccak", Quick: 60000, Thorough: 2000000,
		Rule: "one to six messages hashed at once and through one reused hasher, also in place; non-trivial when the hasher is reused",
		Gen: func(t *rapid.T) keccakCase {
			c := keccakCase{Wide: rapid.Bool().Draw(t, "wide")}
			rate := 136
			if c.Wide {
				rate = 72
			}
			for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
				c.Msgs = append(c.Msgs, drawMessage(t, rate, 700))
				c.Alias = append(c.Alias, rapid.Bool().Draw(t, "alias"))
				c.Room = append(c.Room, rapid.IntRange(0, 70).Draw(t, "room"))
			}
			return c
		}, Check: checkKeccak})
	vh.Run(t, vh.Prop[f800Case]{Name: "keccak-f800", Quick: 60000, Thorough: 2000000,
		Rule: "states of 25 lanes, also constant ones with a flipped bit; all non-trivial",
		Gen:  func(t *rapid.T) f800Case { return f800Case{drawState(t), rapid.IntRange(1, 3).Draw(t, "times")} },
		Check: func(c f800Case, r *vh.Rec) error {
			r.NonTrivial()
			var a, b [25]uint32
			copy(a[:], c.State)
			copy(b[:], c.State)
			for i := 0; i < c.Times; i++ {
				crypto.KeccakF800(&a)
				ref.KeccakF800(&b)
			}
			return vh.DiffWords("state", a[:], b[:])
		}})
	vh.Run(t, vh.Prop[sipCase]{Name: "siphash", Quick: 60000, Thorough: 2000000,
		Rule: "sequences of hasher operations and edge functions for one key; all non-trivial",
		Gen: func(t *rapid.T) sipCase {
			c := sipCase{Keys: drawKeys(t)}
			for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
				o := sipOp{Op: rapid.IntRange(0, 4).Draw(t, "op"), Nonce: vh.DrawU64(t, "nonce"), Side: rapid.Uint64Range(0, 1).Draw(t, "side")}
				o.Mask = ^uint64(0) >> rapid.IntRange(0, 63).Draw(t, "mask")
				c.Ops = append(c.Ops, o)
			}
			return c
		}, Check: checkSip})
	vh.Run(t, vh.Prop[wordsCase]{Name: "words", Quick: 60000, Thorough: 2000000,
		Rule: "xoshiro256++ sequences, FNV of word vectors, byte conversions in both orders; all non-trivial",
		Gen: func(t *rapid.T) wordsCase {
			c := wordsCase{State: drawKeys(t), N: rapid.IntRange(1, 20).Draw(t, "n"), U: vh.DrawU64(t, "u"), V: vh.DrawU64(t, "v")}
			n := rapid.IntRange(0, 20).Draw(t, "words")
			for i := 0; i < n; i++ {
				c.A = append(c.A, vh.DrawU32(t, "a"))
				c.B = append(c.B, vh.DrawU32(t, "b"))
			}
			c.Raw = vh.DrawBytes(t, "raw", rapid.IntRange(0, 40).Draw(t, "raw.len"))
			return c
		}, Check: checkWords})
	vh.Run(t, vh.Prop[blakeCase]{Name: "blake2b", Quick: 60000, Thorough: 2000000,
		Rule: "messages, personalizations and sizes; non-trivial when the message has several blocks or there is a personalization",
		Gen: func(t *rapid.T) blakeCase {
			return blakeCase{drawMessage(t, 128, 1200), vh.DrawBytes(t, "person", rapid.SampledFrom([]int{0, 16, 16, 5}).Draw(t, "person.len")), rapid.IntRange(1, 64).Draw(t, "size")}
		}, Check: checkBlake})
	vh.Run(t, vh.Prop[blakeCase]{Name: "cshake256", Quick: 60000, Thorough: 2000000,
		Rule: "messages, customizations and sizes; non-trivial when the message is over 100 bytes or there is a customization",
		Gen: func(t *rapid.T) blakeCase {
			return blakeCase{drawMessage(t, 136, 800), vh.DrawBytes(t, "custom", rapid.IntRange(0, 40).Draw(t, "custom.len")), rapid.IntRange(1, 300).Draw(t, "size")}
		}, Check: checkCShake})
	vh.Run(t, vh.Prop[xorCase]{Name: "xor", Quick: 60000, Thorough: 2000000,
		Rule: "operands of equal and unequal length at all alignments, right before unreadable memory, the destination apart from or equal to an operand; non-trivial when not empty",
		Gen: func(t *rapid.T) xorCase {
			c := xorCase{LenA: rapid.IntRange(0, 1<<rapid.IntRange(1, 11).Draw(t, "mag")).Draw(t, "a"), Alias: rapid.IntRange(0, 3).Draw(t, "alias")}
			c.LenB = c.LenA
			if rapid.Bool().Draw(t, "unequal") {
				c.LenB = rapid.IntRange(0, 300).Draw(t, "b")
			}
			c.Room = rapid.IntRange(0, 40).Draw(t, "room")
			gap := func(n string) int {
				return rapid.SampledFrom([]int{0, 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33}).Draw(t, n)
			}
			c.GapA, c.GapB, c.GapD = gap("gap.a"), gap("gap.b"), gap("gap.d")
			c.Seed = rapid.Uint64().Draw(t, "seed")
			return c
		}, Check: checkXor})
}
