package c22

import (
	"bytes"
	"io"
	"testing"

	"github.com/Redundancy/go-sync/util/readers"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

// node is a composition of readers.
type node struct {
	K    string `json:"k"` // zero, one, seq, lit, inject, limit
	N    int    `json:"n,omitempty"`
	Seed int    `json:"seed,omitempty"`
	Data []byte `json:"data,omitempty"`
	Kids []node `json:"kids,omitempty"`
}

type tc struct {
	Root  node  `json:"root"`
	Reads []int `json:"reads"` // sizes of the reads, cycled; 0 is allowed
}

func genNode(t *rapid.T, depth, maxLen int) node {
	kinds := []string{"zero", "one", "seq", "lit"}
	if depth > 0 {
		kinds = append(kinds, "inject", "limit", "inject", "limit")
	}
	n := node{K: rapid.SampledFrom(kinds).Draw(t, "k")}
	switch n.K {
	case "zero", "one":
		n.N = gen.Pos(t, maxLen, "n")
	case "seq":
		n.N = gen.Pos(t, maxLen, "n")
		n.Seed = rapid.IntRange(-1<<40, 1<<40).Draw(t, "seed")
	case "lit":
		n.Data = gen.Small(t, 12, "lit")
	case "inject":
		n.N = gen.Pos(t, 2*maxLen, "at")
		n.Kids = []node{genNode(t, depth-1, maxLen), genNode(t, depth-1, maxLen)}
	case "limit":
		n.N = gen.Pos(t, 3*maxLen, "limit")
		k := rapid.IntRange(0, 4).Draw(t, "readers")
		for i := 0; i < k; i++ {
			n.Kids = append(n.Kids, genNode(t, depth-1, maxLen))
		}
	}
	return n
}

func genCase(maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{Root: genNode(t, rapid.IntRange(0, 3).Draw(t, "depth"), maxLen)}
		c.Reads = gen.Sizes(t, maxLen)
		if c.Reads == nil {
			c.Reads = []int{4 * maxLen}
		}
		return c
	}
}

func (n node) reader() io.Reader {
	switch n.K {
	case "zero":
		return readers.ZeroReader(n.N)
	case "one":
		return readers.OneReader(n.N)
	case "seq":
		return readers.NewSizedNonRepeatingSequence(n.Seed, int64(n.N))
	case "lit":
		return bytes.NewReader(n.Data)
	case "inject":
		return readers.InjectedReader(int64(n.N), n.Kids[0].reader(), n.Kids[1].reader())
	case "limit":
		var rs []io.Reader
		for _, k := range n.Kids {
			rs = append(rs, k.reader())
		}
		return readers.SequenceLimit(int64(n.N), rs...)
	}
	panic(n.K)
}

// model is the described stream.
func (n node) model() ([]byte, error) {
	switch n.K {
	case "zero":
		return make([]byte, n.N), nil
	case "one":
		return bytes.Repeat([]byte{1}, n.N), nil
	case "seq":
		// the unlimited sequence, read byte by byte and at once
		a, b := make([]byte, n.N), make([]byte, n.N)
		one, all := readers.NewNonRepeatingSequence(n.Seed), readers.NewNonRepeatingSequence(n.Seed)
		for i := range a {
			if k, err := one.Read(a[i : i+1]); k != 1 || err != nil {
				return nil, vh.Failf("sequence: one byte read returned %d, %v", k, err)
			}
		}
		if k, err := io.ReadFull(all, b); k != n.N || err != nil {
			return nil, vh.Failf("sequence: read returned %d, %v", k, err)
		}
		if !bytes.Equal(a, b) {
			return nil, vh.Failf("sequence %d: bytes read one by one differ from bytes read at once: %x, %x", n.Seed, a, b)
		}
		same := n.N > 64
		for i := range b {
			same = same && b[i] == b[0]
		}
		if same {
			return nil, vh.Failf("sequence %d: %d equal bytes", n.Seed, n.N)
		}
		return b, nil
	case "lit":
		return n.Data, nil
	case "inject":
		base, err := n.Kids[0].model()
		if err != nil {
			return nil, err
		}
		ins, err := n.Kids[1].model()
		if err != nil {
			return nil, err
		}
		at := min(n.N, len(base))
		return append(append(append([]byte{}, base[:at]...), ins...), base[at:]...), nil
	case "limit":
		out := []byte{}
		for _, k := range n.Kids {
			m, err := k.model()
			if err != nil {
				return nil, err
			}
			out = append(out, m...)
		}
		return out[:min(n.N, len(out))], nil
	}
	panic(n.K)
}

func run(c tc, r *vh.Rec) error {
	want, err := c.Root.model()
	if err != nil {
		return err
	}
	rd := c.Root.reader()
	got := []byte{}
	zero, idle, ended := false, 0, false
	for i := 0; ; i++ {
		size := c.Reads[i%len(c.Reads)]
		p := bytes.Repeat([]byte{0xAA}, size)
		n, err := rd.Read(p)
		if n < 0 || n > size {
			return vh.Failf("Read of %d bytes returned %d", size, n)
		}
		for _, b := range p[n:] {
			if b != 0xAA {
				r.Class("wrote beyond the returned length") // allowed as scratch space by io.Reader
			}
		}
		got = append(got, p[:n]...)
		zero = zero || size == 0 && len(got) < len(want)
		if len(got) > len(want) {
			return vh.Failf("more than the %d described bytes: got %d; tree %+v", len(want), len(got), c.Root)
		}
		if err == io.EOF {
			ended = true
			break
		}
		if err != nil {
			return vh.Failf("Read returned %v", err)
		}
		if n == 0 && size > 0 {
			if idle++; idle > 100 {
				return vh.Failf("100 reads without data or end of file after %d of %d bytes", len(got), len(want))
			}
		} else if n > 0 {
			idle = 0
		}
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return vh.Failf("read %d bytes, described are %d; first difference at %d; tree %+v reads %v", len(got), len(want), i, c.Root, c.Reads)
	}
	for i := 0; i < 3 && ended; i++ {
		p := make([]byte, 5)
		if n, err := rd.Read(p); n != 0 || err != io.EOF {
			return vh.Failf("Read after the end returned %d, %v", n, err)
		}
	}
	r.Class(c.Root.K)
	r.ClassIf(zero, "zero-length read before the end")
	r.ClassIf(len(c.Reads) > 1, "varying read sizes")
	if len(want) > 1 && (len(c.Reads) > 1 || c.Reads[0] < len(want)) {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C22",
	Parts: []*vh.Part{
		vh.NewPart("small", "trees of uniform, sequence, literal, injected and limited readers up to depth 3, read with cycled sizes including 0, compared with a model built from byte slices; non-trivial: more than one byte, read in several reads", 240000, 2400000, false, genCase(24), run),
		vh.NewPart("large", "as small, pieces up to 3000 bytes", 10000, 120000, false, genCase(3000), run),
		vh.NewPart("huge", "as small, pieces up to 70000 bytes", 250, 8000, false, genCase(70000), run),
	},
	Assumptions: []string{"lengths, offsets and limits are not negative"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
