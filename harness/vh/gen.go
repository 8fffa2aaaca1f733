//go:build go1.21 && linux

package vh

import (
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"
)

// Expand makes n high-entropy bytes from one drawn number.
func Expand(seed uint64, n int) []byte {
	out := make([]byte, 0, n+8)
	for i := uint64(0); len(out) < n; i++ {
		out = binary.LittleEndian.AppendUint64(out, mix64(seed^mix64(i)))
	}
	return out[:n]
}

// DrawBytes draws n bytes: mostly high entropy, sometimes constant or sparse.
func DrawBytes(t *rapid.T, name string, n int) []byte {
	switch rapid.IntRange(0, 9).Draw(t, name+".kind") {
	case 0:
		out := make([]byte, n)
		b := rapid.SampledFrom([]byte{0, 0xff, 1, 0x80, 0x7f, 0x55}).Draw(t, name+".fill")
		for i := range out {
			out[i] = b
		}
		return out
	case 1:
		out := make([]byte, n)
		for k := rapid.IntRange(0, 4).Draw(t, name+".n"); k > 0 && n > 0; k-- {
			out[rapid.IntRange(0, n-1).Draw(t, name+".at")] = rapid.Byte().Draw(t, name+".b")
		}
		return out
	}
	return Expand(rapid.Uint64().Draw(t, name), n)
}

// DrawU64 mixes uniform numbers, small ones, powers of two and their neighbours.
func DrawU64(t *rapid.T, name string) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, name+".kind") {
	case 0:
		return rapid.Uint64Range(0, 300).Draw(t, name)
	case 1:
		s := rapid.IntRange(0, 64).Draw(t, name+".pow")
		d := rapid.Uint64Range(0, 4).Draw(t, name+".d")
		if s == 64 {
			return ^uint64(0) - d
		}
		return 1<<s + d - 2
	case 2:
		return uint64(rapid.Uint32().Draw(t, name))
	}
	return mix64(rapid.Uint64().Draw(t, name))
}

// DrawU32 likewise for 32 bits.
func DrawU32(t *rapid.T, name string) uint32 {
	switch rapid.IntRange(0, 4).Draw(t, name+".kind") {
	case 0:
		return uint32(rapid.IntRange(0, 64).Draw(t, name))
	case 1:
		s := rapid.IntRange(0, 32).Draw(t, name+".pow")
		return uint32(uint64(1)<<s + uint64(rapid.IntRange(0, 4).Draw(t, name+".d")) - 2)
	case 2:
		return ^uint32(rapid.IntRange(0, 64).Draw(t, name))
	}
	return uint32(mix64(rapid.Uint64().Draw(t, name)))
}

// Diff describes the first difference of two byte strings.
func Diff(what string, got, want []byte) error {
	if string(got) == string(want) {
		return nil
	}
	return fmt.Errorf("%s: have %s, want %s", what, brief(got), brief(want))
}

func brief(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x... (%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// DiffWords is Diff for words.
func DiffWords(what string, got, want []uint32) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: have %d words, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%s: word %d is %08x, want %08x", what, i, got[i], want[i])
		}
	}
	return nil
}

// FirstErr returns the first non-nil error.
func FirstErr(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}
