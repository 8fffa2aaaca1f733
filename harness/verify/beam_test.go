//go:build go1.21 && linux

package verify

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/vh"
)

type beamCase struct {
	Header vh.Hex `json:"header"`
	Soln   vh.Hex `json:"soln"`
	How    string `json:"how"`
}

func drawBeam(t *rapid.T) beamCase {
	return drawBeamOf(t, pickVector(t, "beam", func(string) bool { return true }))
}

func drawBeamOf(t *rapid.T, v vector) beamCase {
	c := beamCase{Header: unhex(v.Header), Soln: unhex(v.Soln), How: "solver: " + kind(v.Label)}
	if !isValid(v.Label) && rapid.IntRange(0, 3).Draw(t, "as is") != 0 {
		return c
	}
	idx, extra := ref.BeamUnpack(c.Soln), append([]byte{}, c.Soln[100:]...)
	repack := func() { c.Soln = ref.BeamPack(idx, extra) }
	flip := func(b []byte, name string) {
		i := rapid.IntRange(0, len(b)*8-1).Draw(t, name)
		b[i/8] ^= 1 << (i % 8)
	}
	switch rapid.IntRange(0, 11).Draw(t, "mutation") {
	case 0:
	case 1:
		flip(c.Header, "header bit")
		c.How = "header bit flipped"
	case 2:
		flip(extra, "extra bit")
		repack()
		c.How = "extra nonce bit flipped"
	case 3:
		flip(c.Soln[:100], "index bit")
		c.How = "index bit flipped"
	case 4, 5:
		for m := rapid.IntRange(1, 3).Draw(t, "swaps"); m > 0; m-- {
			lvl := rapid.IntRange(0, 4).Draw(t, "level")
			swapNodes(idx, lvl, rapid.IntRange(0, 32/(2<<lvl)-1).Draw(t, "node"))
		}
		repack()
		c.How = "subtrees swapped"
	case 6: // the root's two halves equal: every rule but distinctness can hold
		half := rapid.SampledFrom([]int{0, 16}).Draw(t, "half")
		copy(idx[16-half:32-half], idx[half:half+16])
		repack()
		c.How = "halves equal"
	case 7: // equal subtrees somewhere
		lvl := rapid.IntRange(0, 3).Draw(t, "level")
		h := 1 << lvl
		at := 2 * h * rapid.IntRange(0, 32/(2*h)-1).Draw(t, "node")
		copy(idx[at+h:at+2*h], idx[at:at+h])
		repack()
		c.How = "subtrees equal"
	case 8:
		i, j := rapid.IntRange(0, 31).Draw(t, "i"), rapid.IntRange(0, 31).Draw(t, "j")
		if rapid.Bool().Draw(t, "copy") {
			idx[i] = idx[j]
			c.How = "index copied"
		} else {
			idx[i], idx[j] = idx[j], idx[i]
			c.How = "indices exchanged"
		}
		repack()
	case 9:
		i := rapid.IntRange(0, 31).Draw(t, "index")
		idx[i] = (idx[i] + rapid.SampledFrom([]uint32{1, 1<<25 - 1}).Draw(t, "step")) & (1<<25 - 1)
		repack()
		c.How = "index changed"
	case 10: // another vector's header or extra nonce
		w := pickVector(t, "beam", func(string) bool { return true })
		if rapid.Bool().Draw(t, "header") {
			c.Header = unhex(w.Header)
			c.How = "other header"
		} else {
			extra = unhex(w.Soln)[100:]
			repack()
			c.How = "other extra nonce"
		}
	default:
		switch rapid.IntRange(0, 3).Draw(t, "wild") {
		case 0:
			c.Soln = vh.DrawBytes(t, "random", 104)
			c.How = "random bytes"
		case 1:
			for i := range idx {
				idx[i] = 0
			}
			repack()
			c.How = "all indices zero"
		case 2:
			for i := range idx {
				idx[i] = idx[0]
			}
			repack()
			c.How = "all indices equal"
		default:
			for i := range idx {
				idx[i] = idx[i/2*2]
			}
			repack()
			c.How = "leaf pairs equal"
		}
	}
	return c
}

func TestC12(t *testing.T) {
	vh.Run(t, vh.Prop[beamCase]{Name: "beam", Quick: 40000, Thorough: 200000,
		Rule:  "BeamHash III calls on full-size solver results (valid, repeating subtrees, one collision bit broken) and mutations of them, against the reference; non-trivial when the header and solution are the solver's, or a near one, i.e. not random bytes",
		Gen:   drawBeam,
		Check: func(c beamCase, r *vh.Rec) error { return c.check(r, beamhashiii.NewBeam(), nil, nil) }})
	vh.Run(t, vh.Prop[[]beamCase]{Name: "beam-series", Quick: 4000, Thorough: 60000, Rule: seriesRule,
		Gen: func(t *rapid.T) []beamCase {
			pool := []vector{pickVector(t, "beam", isValid), pickVector(t, "beam", isValid)}
			var c []beamCase
			for n := rapid.IntRange(2, 6).Draw(t, "calls"); n > 0; n-- {
				v := rapid.SampledFrom(pool).Draw(t, "solution")
				k := beamCase{Header: unhex(v.Header), Soln: unhex(v.Soln), How: "solver: valid"}
				switch rapid.IntRange(0, 4).Draw(t, "call") {
				case 0, 1:
				case 2, 3:
					k = drawBeamOf(t, v)
				default:
					k.Header, k.How = vh.Kin(t, "header", k.Header), "header like a valid one's"
				}
				c = append(c, k)
			}
			v := rapid.SampledFrom(pool).Draw(t, "last")
			return append(c, beamCase{Header: unhex(v.Header), Soln: unhex(v.Soln), How: "solver: valid"})
		},
		Check: func(c []beamCase, r *vh.Rec) error {
			cl, hbuf, sbuf := beamhashiii.NewBeam(), make([]byte, 40), make([]byte, 104)
			for i, k := range c {
				if err := k.check(r, cl, hbuf, sbuf); err != nil {
					return fmt.Errorf("call %d: %w", i, err)
				}
			}
			return nil
		}})
}

func (c beamCase) check(r *vh.Rec, cl *beamhashiii.Client, hbuf, sbuf []byte) error {
	want, why := ref.BeamVerify(c.Header, c.Soln)
	r.Label("made by %s", c.How)
	if want {
		r.Label("reference: valid")
	} else {
		r.Label("reference: %s", why)
	}
	if c.How != "random bytes" {
		r.NonTrivial()
	}
	got, err := cl.Verify(append(hbuf[:0], c.Header...), append(sbuf[:0], c.Soln...))
	if want && (!got || err != nil) {
		return fmt.Errorf("valid solution gives (%v, %v)", got, err)
	}
	if !want && got {
		return fmt.Errorf("solution broken by %q (%s) is accepted", why, c.How)
	}
	return nil
}
