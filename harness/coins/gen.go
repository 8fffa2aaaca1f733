//go:build go1.21 && linux

package coins

import (
	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

// Call is one Compute call.
type Call struct {
	Hash   vh.Hex `json:"hash"`
	Height uint64 `json:"height"`
	Nonce  uint64 `json:"nonce"`
}

// DrawSizing draws a small cache and any dataset size below 256 GiB.
func DrawSizing(t *rapid.T, coin int, maxEpoch uint64) Sizing {
	c := All[coin]
	var z Sizing
	// the size rule steps down by two rows from one row below the bound, so it
	// only makes sense for an even number of rows, which all chains have
	pair := 2 * c.Row
	z.CacheInit = 128 * rapid.Uint64Range(2, 130).Draw(t, "cache_rows")
	z.CacheGrowth = 128 * rapid.Uint64Range(0, 5).Draw(t, "cache_growth")
	lim := uint64(1<<38)/pair - 1
	switch rapid.IntRange(0, 4).Draw(t, "data.kind") {
	case 0: // tiny
		z.DataInit = pair * rapid.Uint64Range(2, 40).Draw(t, "data_rows")
		z.DataGrowth = pair * rapid.Uint64Range(0, 3).Draw(t, "data_growth")
	case 1: // the chain's own
		z.DataInit, z.DataGrowth = c.DataInit, c.DataGrowth
	case 2: // around 4 GiB
		z.DataInit = 1<<32 + pair*rapid.Uint64Range(0, 2000).Draw(t, "data_rows") - pair*1000
		z.DataGrowth = pair * rapid.Uint64Range(0, 2000).Draw(t, "data_growth")
	default:
		hi := uint64(8) << rapid.IntRange(0, 27).Draw(t, "data.mag")
		if hi > lim {
			hi = lim
		}
		z.DataInit = pair * rapid.Uint64Range(2, hi).Draw(t, "data_rows")
		z.DataGrowth = pair * rapid.Uint64Range(0, 35000).Draw(t, "data_growth")
		if z.DataInit+z.DataGrowth*(maxEpoch+2) > 1<<38-pair {
			z.DataGrowth = 0
		}
	}
	return z
}

// DrawHeight draws a height of an epoch: often at its edges.
func DrawHeight(t *rapid.T, epoch, epochLen uint64) uint64 {
	first := epoch * epochLen
	last := first + epochLen - 1
	if last < first {
		last = ^uint64(0)
	}
	span := last - first
	switch rapid.IntRange(0, 5).Draw(t, "height.kind") {
	case 0:
		return first
	case 1:
		return last
	case 2:
		d := rapid.Uint64Range(0, 12).Draw(t, "height.d")
		if d > span {
			d = span
		}
		return first + d
	case 3:
		d := rapid.Uint64Range(0, 12).Draw(t, "height.d")
		if d > span {
			d = span
		}
		return last - d
	}
	return first + vh.DrawU64(t, "height")%(span/2+1) + rapid.Uint64Range(0, 1).Draw(t, "height.hi")*(span/2)
}

// hard returns the k-th composite of a class that weak primality tests take for
// prime, if its factors are prime: Fermat and strong pseudoprimes of the forms
// (k+1)(mk+1), Carmichael numbers (6k+1)(12k+1)(18k+1), squares, and products of
// neighbours.
func hard(class int, k uint64) (n uint64, factors [3]uint64) {
	switch class {
	case 0, 1, 2, 3, 4:
		m := uint64([]int{2, 3, 4, 5, 7}[class])
		return (k + 1) * (m*k + 1), [3]uint64{k + 1, m*k + 1, 2}
	case 5:
		k = k>>9 + 1
		return (6*k + 1) * (12*k + 1) * (18*k + 1), [3]uint64{6*k + 1, 12*k + 1, 18*k + 1}
	case 6:
		return k * k, [3]uint64{k, 2, 2}
	}
	return k * (k + 2*uint64(class)), [3]uint64{k, k + 2*uint64(class), 2}
}

// DrawHardRows draws such a composite of at most about 2*bits bits.
func DrawHardRows(t *rapid.T, bits int) uint64 {
	return drawHard(t, bits, func(n uint64) bool { return true })
}

func drawHard(t *rapid.T, bits int, ok func(uint64) bool) uint64 {
	class := rapid.IntRange(0, 9).Draw(t, "composite.class")
	from := rapid.Uint64Range(1, 1<<rapid.IntRange(3, bits).Draw(t, "composite.bits")).Draw(t, "composite")
	for k := from; k < from+400000; k++ {
		n, f := hard(class, k)
		if n%2 == 0 || !ok(n) {
			continue
		}
		if ref.IsPrime(f[0]) && ref.IsPrime(f[1]) && ref.IsPrime(f[2]) {
			return n
		}
	}
	return 0
}

// DrawHardEpoch draws an epoch where the size rule of a schedule comes to such a
// composite before it comes to a prime.
func DrawHardEpoch(t *rapid.T, init, growth, row uint64) uint64 {
	i, g := init/row, growth/row
	epoch := uint64(0)
	drawHard(t, 22, func(n uint64) bool {
		if n < i {
			return false
		}
		first := i + (n+1-i+g-1)/g*g - 1 // the first candidate at or above n
		if first-n > 60 || (first-n)%2 != 0 {
			return false
		}
		for c := first; c > n; c -= 2 {
			if ref.IsPrime(c) {
				return false
			}
		}
		epoch = (first + 1 - i) / g
		return true
	})
	return epoch
}
