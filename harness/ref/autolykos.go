//go:build go1.21

package ref

import (
	"encoding/binary"
	"math/big"
)

// AutolykosN is the table size at a height. For the Ergo base size the value from
// height 4198400 on is a published constant; other bases are defined up to there.
func AutolykosN(base uint32, height uint64) uint32 {
	if height > 4198400 {
		return 2143944600
	}
	n := base
	for h := uint64(614400); h <= height; h += 51200 {
		n = n / 100 * 105
	}
	return n
}

var autolykosM = func() []byte {
	var m []byte
	for i := uint64(0); i < 1024; i++ {
		m = binary.BigEndian.AppendUint64(m, i)
	}
	return m
}()

// AutolykosSum is f2 before the last hash and AutolykosHit the hit itself.
func AutolykosSum(k, base uint32, msg []byte, nonce, height uint64) *big.Int {
	n := AutolykosN(base, height)
	hb := binary.BigEndian.AppendUint32(nil, uint32(height))
	elem := func(i uint32) []byte {
		b := binary.BigEndian.AppendUint32(nil, i)
		b = append(append(b, hb...), autolykosM...)
		return Blake2b(b, nil, 32)[1:]
	}
	mn := binary.BigEndian.AppendUint64(append([]byte{}, msg...), nonce)
	first := Blake2b(mn, nil, 32)
	i := uint32(binary.BigEndian.Uint64(first[24:]) % uint64(n))
	seed := Blake2b(append(append([]byte{}, elem(i)...), mn...), nil, 32)
	ring := append(append([]byte{}, seed...), seed...)
	sum := new(big.Int)
	for j := uint32(0); j < k; j++ {
		sum.Add(sum, new(big.Int).SetBytes(elem(binary.BigEndian.Uint32(ring[j:])%n)))
	}
	return sum
}

func AutolykosHit(k, base uint32, msg []byte, nonce, height uint64) []byte {
	var f [32]byte
	AutolykosSum(k, base, msg, nonce, height).FillBytes(f[:])
	return Blake2b(f[:], nil, 32)
}
