//go:build go1.21

package vh

import "pgregory.net/rapid"

// Kin makes bytes that share a prefix, a suffix, all, or all but a bit with old
// ones: what a result kept under too short a key would be mistaken for.
func Kin(t *rapid.T, name string, old []byte) []byte {
	out := append([]byte{}, old...)
	n := len(out)
	if n == 0 {
		return out
	}
	switch rapid.IntRange(0, 5).Draw(t, name+".kin") {
	case 0, 1:
	case 2:
		b := rapid.IntRange(0, n*8-1).Draw(t, name+".bit")
		out[b/8] ^= 1 << (b % 8)
	case 3:
		k := rapid.IntRange(0, n-1).Draw(t, name+".prefix")
		copy(out[k:], Expand(rapid.Uint64().Draw(t, name+".tail"), n-k))
	case 4:
		k := rapid.IntRange(1, n).Draw(t, name+".suffix")
		copy(out[:k], Expand(rapid.Uint64().Draw(t, name+".head"), k))
	default:
		i, j := rapid.IntRange(0, n-1).Draw(t, name+".i"), rapid.IntRange(0, n-1).Draw(t, name+".j")
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// KinU64 makes a number equal or close to an old one.
func KinU64(t *rapid.T, name string, x uint64) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, name+".kin") {
	case 0, 1:
		return x
	case 2:
		return x ^ 1<<rapid.IntRange(0, 63).Draw(t, name+".bit")
	case 3:
		return x + 1
	case 4:
		return x<<32 | x>>32
	}
	return DrawU64(t, name)
}

// Mix spreads a drawn number, of which small ones are drawn more often.
func Mix(x uint64) uint64 { return mix64(x) }

// LongLen is a length of up to 70000, half of the time next to a power of two.
func LongLen(t *rapid.T, name string) int {
	if rapid.Bool().Draw(t, name+".round") {
		return 1<<(8+Mix(rapid.Uint64().Draw(t, name+".log"))%9) + rapid.IntRange(-3, 40).Draw(t, name+".off")
	}
	return int(Mix(rapid.Uint64().Draw(t, name)) % 70000)
}
