//go:build go1.21

package ref

import "encoding/binary"

// CuckooKeys are the siphash keys of a header.
func CuckooKeys(header []byte) (k [4]uint64) {
	h := Blake2b(header, nil, 32)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[i*8:])
	}
	return
}

// CycleVerify decides a proof given each edge's endpoints in the two node sets:
// ascending in-range edges that form one cycle through all of them.
func CycleVerify(size int, mask uint64, edges []uint64, ends func(e uint64) (u, v uint64)) (bool, string) {
	if len(edges) != size {
		return false, "length"
	}
	for i, e := range edges {
		if e > mask {
			return false, "range"
		}
		if i > 0 && e <= edges[i-1] {
			return false, "order"
		}
	}
	type node struct {
		side int
		id   uint64
	}
	adj := map[node][]int{}
	uv := make([][2]node, size)
	for i, e := range edges {
		u, v := ends(e)
		uv[i] = [2]node{{0, u}, {1, v}}
		for _, n := range uv[i] {
			adj[n] = append(adj[n], i)
		}
	}
	for _, l := range adj {
		if len(l) == 1 {
			return false, "deadend"
		}
		if len(l) > 2 {
			return false, "branch"
		}
	}
	seen := map[int]bool{0: true}
	todo := []int{0}
	for len(todo) > 0 {
		e := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, n := range uv[e] {
			for _, f := range adj[n] {
				if !seen[f] {
					seen[f] = true
					todo = append(todo, f)
				}
			}
		}
	}
	if len(seen) != size {
		return false, "shortcycle"
	}
	return true, ""
}

// FindCycles returns up to max simple cycles (as ascending edge lists) of the graph
// made of edges 0..count-1: for every edge that closes a spanning forest, the
// cycle through the forest.
func FindCycles(count uint64, ends func(e uint64) (u, v uint64), max int) [][]uint64 {
	type half struct {
		to   uint64
		edge uint64
	}
	parent := map[uint64]half{} // toward the root
	path := func(n uint64) (ns []uint64, es []uint64) {
		ns = append(ns, n)
		for {
			h, ok := parent[n]
			if !ok {
				return
			}
			n = h.to
			ns = append(ns, n)
			es = append(es, h.edge)
		}
	}
	var out [][]uint64
	for e := uint64(0); e < count && len(out) < max; e++ {
		u, v := ends(e)
		u, v = 2*u, 2*v+1
		nu, eu := path(u)
		nv, ev := path(v)
		if nu[len(nu)-1] != nv[len(nv)-1] {
			// reroot the shorter path and attach it
			if len(nu) > len(nv) {
				nu, eu, nv, ev = nv, ev, nu, eu
			}
			_ = ev
			for i := len(eu) - 1; i >= 0; i-- {
				parent[nu[i+1]] = half{nu[i], eu[i]}
			}
			parent[nu[0]] = half{nv[0], e}
			continue
		}
		for len(eu) > 0 && len(ev) > 0 && eu[len(eu)-1] == ev[len(ev)-1] {
			eu, ev = eu[:len(eu)-1], ev[:len(ev)-1]
		}
		c := append(append([]uint64{e}, eu...), ev...)
		sortU64(c)
		out = append(out, c)
	}
	return out
}

func sortU64(a []uint64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
