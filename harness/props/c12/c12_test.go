package c12

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash"
	"testing"

	"github.com/Redundancy/go-sync/filechecksum"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type call struct {
	Start int    `json:"start"`
	N     int    `json:"n"`   // blocks
	Mod   string `json:"mod"` // none, flip, swap, cut, extend, other, empty
	Pos   int    `json:"pos"` // byte position (flip), bytes (cut, extend), block (swap)
	Bit   int    `json:"bit"`
}

type tc struct {
	BS      int       `json:"bs"`
	Content []gen.Seg `json:"content"`
	Unknown []int     `json:"unknown,omitempty"` // blocks without an expected checksum
	Odd     []int     `json:"odd,omitempty"`     // blocks whose expected checksum is of another length, and so never matches
	First   uint64    `json:"first,omitempty"`   // number of the first block
	Sha     bool      `json:"sha,omitempty"`
	Calls   []call    `json:"calls"`
}

type getter struct {
	sums  [][]byte
	first int
}

func (g getter) GetStrongChecksumForBlock(i int) []byte {
	i -= g.first
	if i < 0 || i >= len(g.sums) {
		return nil
	}
	return g.sums[i]
}

func genCase(maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, 1, maxBS), Sha: rapid.IntRange(0, 4).Draw(t, "sha") == 0}
		c.Content = append(gen.Content(t, c.BS, maxLen), gen.Seg{K: "rnd", N: rapid.IntRange(1, 6*c.BS).Draw(t, "more"), V: rapid.Uint64Range(0, 99).Draw(t, "seed")})
		n := len(gen.Build(c.Content, nil))
		nb := (n + c.BS - 1) / c.BS
		if rapid.IntRange(0, 2).Draw(t, "someUnknown") == 0 {
			c.Unknown = rapid.SliceOfN(rapid.IntRange(0, nb-1), 1, 3).Draw(t, "unknown")
		}
		if rapid.IntRange(0, 5).Draw(t, "someOdd") == 0 {
			c.Odd = rapid.SliceOfN(rapid.IntRange(0, nb-1), 1, 2).Draw(t, "odd")
		}
		if rapid.IntRange(0, 3).Draw(t, "far") == 0 {
			c.First = 1<<rapid.SampledFrom([]uint{8, 16, 31, 32, 40}).Draw(t, "first") - uint64(rapid.IntRange(0, 3).Draw(t, "before"))
		}
		one := rapid.Custom(func(t *rapid.T) call {
			k := call{Start: rapid.IntRange(0, nb-1).Draw(t, "start")}
			k.N = rapid.IntRange(1, nb-k.Start).Draw(t, "n")
			k.Mod = rapid.SampledFrom([]string{"none", "none", "flip", "flip", "swap", "cut", "extend", "other", "empty"}).Draw(t, "mod")
			k.Pos = rapid.IntRange(0, max(0, k.N*c.BS-1)).Draw(t, "pos")
			k.Bit = rapid.IntRange(0, 7).Draw(t, "bit")
			return k
		})
		c.Calls = rapid.SliceOfN(one, 1, 8).Draw(t, "calls")
		return c
	}
}

// genVast has blocks of millions of bytes
func genVast(t *rapid.T) tc {
	c := tc{BS: 1000000 + gen.Pos(t, 3000000, "bs")}
	nb := rapid.IntRange(1, 3).Draw(t, "nb")
	c.Content = []gen.Seg{{K: "rnd", N: nb*c.BS - gen.Pos(t, c.BS-1, "tail"), V: rapid.Uint64Range(0, 99).Draw(t, "seed")}}
	one := rapid.Custom(func(t *rapid.T) call {
		k := call{Start: rapid.IntRange(0, nb-1).Draw(t, "start")}
		k.N = rapid.IntRange(1, nb-k.Start).Draw(t, "n")
		k.Mod = rapid.SampledFrom([]string{"none", "flip", "flip", "cut"}).Draw(t, "mod")
		k.Pos = gen.Pos(t, k.N*c.BS-1, "pos")
		return k
	})
	c.Calls = rapid.SliceOfN(one, 1, 4).Draw(t, "calls")
	return c
}

// genMany has ranges of tens of thousands of blocks, damaged anywhere
func genMany(t *rapid.T) tc {
	c := tc{BS: rapid.IntRange(1, 3).Draw(t, "bs"), First: rapid.Uint64Range(0, 1000).Draw(t, "first")}
	nb := rapid.SampledFrom([]int{256, 4096, 32768, 65536, 131072}).Draw(t, "around") + rapid.IntRange(1, 3000).Draw(t, "nb")
	c.Content = []gen.Seg{{K: "rnd", N: nb * c.BS, V: rapid.Uint64Range(0, 99).Draw(t, "seed")}}
	one := rapid.Custom(func(t *rapid.T) call {
		k := call{Start: rapid.IntRange(0, 3).Draw(t, "start")}
		k.N = nb - k.Start
		k.Mod = rapid.SampledFrom([]string{"none", "flip", "flip", "cut"}).Draw(t, "mod")
		k.Pos = rapid.IntRange(0, 5).Draw(t, "cut")
		if k.Mod == "flip" {
			k.Pos = k.N*c.BS - 1 - rapid.OneOf(rapid.IntRange(0, 200), rapid.IntRange(0, k.N*c.BS-1)).Draw(t, "pos")
		}
		k.Bit = rapid.IntRange(0, 7).Draw(t, "bit")
		return k
	})
	c.Calls = rapid.SliceOfN(one, 2, 4).Draw(t, "calls")
	return c
}

func run(c tc, r *vh.Rec) error {
	data := gen.Build(c.Content, nil)
	blocks := oracle.Blocks(data, c.BS)
	strong := oracle.MD5
	var h hash.Hash = md5.New()
	if c.Sha {
		h = sha1.New()
		strong = func(b []byte) []byte { s := sha1.Sum(b); return s[:] }
	}
	g := getter{}
	for _, b := range blocks {
		g.sums = append(g.sums, strong(b))
	}
	for i, o := range c.Odd {
		if i%2 == 0 {
			g.sums[o] = g.sums[o][: len(g.sums[o])-1-o%8 : len(g.sums[o])]
		} else {
			g.sums[o] = append(g.sums[o], make([]byte, 1+o%8)...)
		}
	}
	for _, u := range c.Unknown {
		g.sums[u] = nil
	}
	g.first = int(c.First)
	var sums [][]byte
	for _, s := range g.sums {
		sums = append(sums, append([]byte{}, s...))
	}
	v := &filechecksum.HashVerifier{BlockSize: uint(c.BS), Hash: h, BlockChecksumGetter: g}
	accepted, rejected, afterReject := 0, 0, false
	for ci, k := range c.Calls {
		a := k.Start * c.BS
		d := append([]byte{}, data[a:min(len(data), a+k.N*c.BS)]...)
		switch k.Mod {
		case "flip":
			d[k.Pos%len(d)] ^= 1 << k.Bit
		case "swap":
			i := k.Pos % k.N * c.BS
			if i+2*c.BS <= len(d) {
				x := append([]byte{}, d[i:i+c.BS]...)
				copy(d[i:], d[i+c.BS:i+2*c.BS])
				copy(d[i+c.BS:], x)
			}
		case "cut":
			d = d[:len(d)-1-k.Pos%len(d)]
		case "extend":
			d = append(d, gen.Expand(uint64(k.Pos), 1+k.Pos%(c.BS+1))...)
		case "other":
			d = gen.Expand(uint64(k.Pos), len(d))
		case "empty":
			d = nil
		}
		want := true
		for i, b := range oracle.Blocks(d, c.BS) {
			if exp := g.GetStrongChecksumForBlock(g.first + k.Start + i); exp != nil && !bytes.Equal(exp, strong(b)) {
				want = false
			}
		}
		keep := append([]byte{}, d...)
		got := v.VerifyBlockRange(uint(g.first+k.Start), d)
		if got != want {
			return vh.Failf("call %d (%+v): verdict %v, expected %v; block size %d, blocks from %d, data %s, file %s, unknown %v, calls before: %s",
				ci, k, got, want, c.BS, g.first+k.Start, e2e.Show(d), e2e.Show(data), c.Unknown, fmt.Sprint(c.Calls[:ci]))
		}
		if !bytes.Equal(d, keep) {
			return vh.Failf("call %d: verification changed the data", ci)
		}
		for i, s := range g.sums {
			if !bytes.Equal(s, sums[i]) {
				return vh.Failf("call %d: verification changed the expected checksum of block %d", ci, i)
			}
		}
		if got {
			accepted++
			afterReject = afterReject || rejected > 0
		} else {
			rejected++
			r.ClassIf(len(c.Unknown) > 0, "rejected with unknown blocks around")
		}
		r.ClassIf(len(d) > c.BS, "several blocks")
		r.ClassIf(len(c.Odd) > 0 && !got, "rejected with checksums of another length around")
		r.ClassIf(c.First > 255, "high block numbers")
		r.ClassIf(len(d)%c.BS != 0, "short last block")
	}
	r.ClassIf(accepted > 0, "accepted")
	r.ClassIf(rejected > 0, "rejected")
	r.ClassIf(afterReject, "accepted after a rejection")
	r.ClassIf(rejected > 1, "rejected twice")
	if rejected > 0 && accepted > 0 {
		r.NonTrivial()
	}
	return nil
}

const rule = "histories of verifications with one verifier: true ranges, bit flips at any position, swapped blocks, cut and extended data, other data, blocks without a known checksum or with one of another length, and block numbers up to 2^40; verdict compared with a block-by-block recomputation; non-trivial: the history has an acceptance and a rejection"

var check = &vh.Check{
	ID: "C12",
	Parts: []*vh.Part{
		vh.NewPart("small", rule, 60000, 1500000, false, genCase(16, 100), run),
		vh.NewPart("large", rule+"; block size up to 2000", 4000, 90000, false, genCase(2000, 6000), run),
		vh.NewPart("huge", rule+"; block size up to 70000", 60, 1500, false, genCase(70000, 200000), run),
		vh.NewPart("vast", rule+"; block size up to 4 million", 2, 60, false, genVast, run),
		vh.NewPart("many", rule+"; up to 134000 blocks in a range, damaged anywhere or near the end", 40, 900, false, genMany, run),
	},
	Assumptions: []string{"a nil expected checksum means the checksum of that block is unknown"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
