package c11

import (
	"bytes"
	"testing"

	"github.com/Redundancy/go-sync/circularbuffer"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/vh"
)

type op struct {
	K string `json:"k"` // w write N bytes, t truncate N, r reset
	N int    `json:"n,omitempty"`
}

type tc struct {
	Cap int  `json:"cap"`
	Ops []op `json:"ops"`
}

func genOps(maxCap, maxOps int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{Cap: rapid.IntRange(1, maxCap).Draw(t, "cap")}
		one := rapid.Custom(func(t *rapid.T) op {
			switch k := rapid.IntRange(0, 19).Draw(t, "op"); {
			case k == 19:
				return op{K: "r"}
			case k >= 15:
				return op{K: "t", N: rapid.IntRange(0, c.Cap+1).Draw(t, "n")}
			case k >= 10:
				return op{K: "w", N: 1}
			case k >= 7:
				return op{K: "w", N: c.Cap}
			default:
				return op{K: "w", N: rapid.IntRange(0, c.Cap).Draw(t, "n")}
			}
		})
		c.Ops = rapid.SliceOfN(one, 1, maxOps).Draw(t, "ops")
		return c
	}
}

func run(c tc, r *vh.Rec) error {
	b := circularbuffer.MakeC2Buffer(c.Cap)
	model := []byte{}
	ctr := 0
	written, odd, truncated := 0, false, false
	check := func(i int, o op) error {
		if !bytes.Equal(b.GetBlock(), model) {
			return vh.Failf("after op %d %+v: buffer holds %s, expected the most recent bytes %s", i, o, e2e.Show(b.GetBlock()), e2e.Show(model))
		}
		if b.Len() != len(model) {
			return vh.Failf("after op %d %+v: Len %d, expected %d", i, o, b.Len(), len(model))
		}
		if b.Empty() != (len(model) == 0) {
			return vh.Failf("after op %d %+v: Empty %v with %d bytes", i, o, b.Empty(), len(model))
		}
		return nil
	}
	if err := check(-1, op{}); err != nil {
		return err
	}
	for i, o := range c.Ops {
		switch o.K {
		case "w":
			p := make([]byte, o.N)
			for j := range p {
				p[j] = byte(ctr*167 + 13)
				ctr++
			}
			q := append(append([]byte{}, model...), p...)
			b.Write(p)
			for j := range p {
				p[j] = 0xEE // the caller may reuse its slice
			}
			over := max(0, len(q)-c.Cap)
			if ev := b.Evicted(); !bytes.Equal(ev, q[:over]) {
				return vh.Failf("after op %d %+v: evicted %s, expected %s", i, o, e2e.Show(ev), e2e.Show(q[:over]))
			}
			if over > 0 && truncated {
				r.Class("eviction after truncation")
			}
			model = q[over:]
			written += o.N
			odd = odd || (o.N > 1 && o.N < c.Cap)
		case "t":
			n := min(o.N, len(model))
			if got := b.Truncate(o.N); !bytes.Equal(got, model[:n]) {
				return vh.Failf("op %d %+v returned %s, expected %s", i, o, e2e.Show(got), e2e.Show(model[:n]))
			}
			model = model[n:]
			truncated = truncated || n > 0
		case "r":
			b.Reset()
			model = nil
			r.Class("reset")
		}
		if err := check(i, o); err != nil {
			return err
		}
	}
	r.ClassIf(odd && written > 4*c.Cap, "odd-sized writes past several wraps")
	if written > 2*c.Cap {
		r.NonTrivial()
	}
	return nil
}

const rule = "random capacity and sequence of writes (0, 1, capacity, and arbitrary sizes up to the capacity), truncations (up to and above the length) and resets, compared after every operation with a slice model; non-trivial: more than twice the capacity was written"

var check = &vh.Check{
	ID: "C11",
	Parts: []*vh.Part{
		vh.NewPart("small", rule+"; capacity 1..9, up to 40 operations", 125000, 3000000, false, genOps(9, 40), run),
		vh.NewPart("medium", rule+"; capacity 1..300, up to 30 operations", 30000, 600000, false, genOps(300, 30), run),
		vh.NewPart("long", rule+"; capacity 1..20, up to 300 operations", 7500, 180000, false, genOps(20, 300), run),
		vh.NewPart("huge", rule+"; capacity up to 140000, up to 12 operations", 100, 2000, false, genOps(140000, 12), run),
	},
	Assumptions: []string{"writes of more than the capacity are outside the documented domain of the buffer", "Evicted is asked for directly after a write"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
