package c10

import (
	"bytes"
	"testing"

	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/rollsum"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

var weak = oracle.Weak

type op struct {
	K    string   `json:"k"`
	Data *gen.Seg `json:"d,omitempty"`
	N    int      `json:"n,omitempty"`
}

type tc struct {
	BS  int  `json:"bs"`
	Ops []op `json:"ops"`
}

func seg(t *rapid.T, n int) *gen.Seg {
	switch rapid.IntRange(0, 2).Draw(t, "content") {
	case 0:
		return &gen.Seg{K: "run", N: n, V: uint64(rapid.SampledFrom([]int{255, 0, 1, 128}).Draw(t, "v"))}
	default:
		return &gen.Seg{K: "rnd", N: n, V: rapid.Uint64Range(0, 1<<16).Draw(t, "seed")}
	}
}

// upTo draws a number in [0,n], if n is large spread evenly.
func upTo(t *rapid.T, n int, label string) int {
	if n > 100000 {
		return gen.Pos(t, n, label)
	}
	return rapid.IntRange(0, n).Draw(t, label)
}

// base form: the caller keeps the window
func genBase(maxLen, maxOps int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: max(1, upTo(t, maxLen, "bs"))}
		one := rapid.Custom(func(t *rapid.T) op {
			k := rapid.SampledFrom([]string{"add", "addn", "del", "deln", "roll", "roll", "rolln", "rolln", "set", "reset"}).Draw(t, "op")
			switch k {
			case "add", "roll":
				return op{K: k, Data: seg(t, 1)}
			case "addn", "set":
				return op{K: k, Data: seg(t, upTo(t, maxLen, "len"))}
			case "rolln":
				return op{K: k, Data: seg(t, upTo(t, maxLen, "len")), N: upTo(t, maxLen, "evict")}
			default:
				return op{K: k, N: upTo(t, maxLen, "n")}
			}
		})
		c.Ops = rapid.SliceOfN(one, 1, maxOps).Draw(t, "ops")
		return c
	}
}

func runBase(c tc, r *vh.Rec) error {
	var h filechecksum.RollingHash = rollsum.NewRollsum32Base(uint(c.BS))
	win := []byte{}
	added, removed := 0, 0
	for i, o := range c.Ops {
		var d []byte
		if o.Data != nil {
			d = gen.Build([]gen.Seg{*o.Data}, nil)
		}
		keep := append([]byte{}, d...)
		switch o.K {
		case "add":
			h.AddByte(d[0])
			win = append(win, d...)
		case "addn":
			h.AddBytes(d)
			win = append(win, d...)
		case "del":
			if len(win) > 0 {
				h.RemoveByte(win[0], len(win))
				win = win[1:]
				removed++
			}
		case "deln":
			n := min(o.N, len(win))
			h.RemoveBytes(win[:n], len(win))
			win = win[n:]
			removed += n
		case "roll", "rolln":
			// pairs as the comparer makes them: no more evicted than are in the
			// window, no more evicted than added
			n := min(len(win), len(d))
			if o.K == "rolln" {
				n = min(n, o.N)
			}
			h.AddAndRemoveBytes(d, win[:n], len(win))
			win = append(append([]byte{}, win[n:]...), d...)
			removed += n
		case "set":
			h.SetBlock(d)
			win = append([]byte{}, d...)
		case "reset":
			h.Reset()
			win = nil
		}
		added += len(d)
		if !bytes.Equal(keep, d) {
			return vh.Failf("op %d %+v changed its argument", i, o)
		}
		got := make([]byte, h.Size())
		h.GetSum(got)
		if want := weak(win); !bytes.Equal(got, want) {
			return vh.Failf("after op %d %s: checksum %x, but the window %s has checksum %x", i, o.K, got, e2e.Show(win), want)
		}
	}
	r.ClassIf(len(win) > 600, "large window")
	r.ClassIf(added > 258*255, "sum beyond 16 bits possible")
	if added > 1 && removed > 0 {
		r.NonTrivial()
	}
	return nil
}

// buffered form: the window is the last BS bytes written
func genBuf(maxBS, maxOps int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: max(1, upTo(t, maxBS, "bs"))}
		one := rapid.Custom(func(t *rapid.T) op {
			switch k := rapid.IntRange(0, 19).Draw(t, "op"); {
			case k == 19:
				return op{K: "reset"}
			case k >= 16:
				return op{K: "sum", N: rapid.IntRange(0, 12).Draw(t, "prefix")}
			case k >= 12:
				return op{K: "write", Data: seg(t, 1)}
			case k >= 9:
				return op{K: "write", Data: seg(t, c.BS)}
			case k >= 7:
				return op{K: "write", Data: seg(t, c.BS+upTo(t, 2*c.BS, "len"))}
			default:
				return op{K: "write", Data: seg(t, upTo(t, c.BS, "len"))}
			}
		})
		c.Ops = rapid.SliceOfN(one, 1, maxOps).Draw(t, "ops")
		return c
	}
}

func runBuf(c tc, r *vh.Rec) error {
	h := rollsum.NewRollsum32(uint(c.BS))
	win := []byte{}
	total, odd := 0, false
	if h.Size() != 4 || h.BlockSize() != c.BS {
		return vh.Failf("Size %d BlockSize %d", h.Size(), h.BlockSize())
	}
	for i, o := range c.Ops {
		switch o.K {
		case "write":
			d := gen.Build([]gen.Seg{*o.Data}, nil)
			keep := append([]byte{}, d...)
			n, err := h.Write(d)
			if n != len(d) || err != nil {
				return vh.Failf("Write of %d bytes returned %d, %v", len(d), n, err)
			}
			if !bytes.Equal(d, keep) {
				return vh.Failf("Write changed its argument")
			}
			win = append(win, keep...)
			for j := range d {
				d[j] = 0xEE
			}
			win = append([]byte{}, win[max(0, len(win)-c.BS):]...)
			total += len(d)
			odd = odd || (len(d) > 1 && len(d) < c.BS)
		case "sum":
			// append to prefixes with and without spare capacity
			for _, spare := range []int{0, 2, 4, 9} {
				pre := make([]byte, o.N, o.N+spare)
				for j := range pre {
					pre[j] = byte(j + 1)
				}
				whole := pre[:cap(pre)]
				for j := len(pre); j < len(whole); j++ {
					whole[j] = 0x77
				}
				got := h.Sum(pre)
				for j := 0; j < o.N; j++ {
					if pre[j] != byte(j+1) {
						return vh.Failf("op %d: Sum changed the bytes it appends to", i)
					}
				}
				if len(got) != o.N+4 || !bytes.Equal(got[:o.N], pre) || !bytes.Equal(got[o.N:], weak(win)) {
					return vh.Failf("op %d: Sum of a %d byte prefix gave %x, expected the prefix and %x", i, o.N, got, weak(win))
				}
			}
			r.Class("sum with prefix")
		case "reset":
			h.Reset()
			win = nil
		}
		if got, want := h.Sum(nil), weak(win); !bytes.Equal(got, want) {
			return vh.Failf("after op %d %s: checksum %x, but the last %d bytes %s have %x", i, o.K, got, len(win), e2e.Show(win), want)
		}
		if !bytes.Equal(h.GetLastBlock(), win) {
			return vh.Failf("after op %d %s: GetLastBlock %s, expected %s", i, o.K, e2e.Show(h.GetLastBlock()), e2e.Show(win))
		}
	}
	r.ClassIf(odd && total > 4*c.BS, "odd-sized writes past several wraps")
	if total > c.BS {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C10",
	Parts: []*vh.Part{
		vh.NewPart("base", "sequences of AddByte, AddBytes, RemoveByte, RemoveBytes, AddAndRemoveBytes, SetBlock and Reset over a window of up to a few dozen bytes, checksum compared with its definition after every operation; non-trivial: bytes were added and removed", 75000, 1800000, false, genBase(20, 25), runBase),
		vh.NewPart("base-large", "as base, windows of thousands of bytes so that the sums exceed 16 and 32 bits", 2000, 45000, false, genBase(5000, 12), runBase),
		vh.NewPart("base-huge", "as base, windows of up to 150000 bytes", 40, 900, false, genBase(150000, 8), runBase),
		vh.NewPart("base-vast", "as base, windows of up to 5 MB", 3, 100, false, genBase(5000000, 6), runBase),
		vh.NewPart("buffered", "sequences of Write (sizes below, at and above the block size), Sum on prefixes with and without spare capacity, and Reset on Rollsum32, compared with the definition over the last block-size bytes; non-trivial: more than a block was written", 60000, 1500000, false, genBuf(12, 30), runBuf),
		vh.NewPart("buffered-large", "as buffered, block sizes up to 3000", 2000, 45000, false, genBuf(3000, 15), runBuf),
		vh.NewPart("buffered-huge", "as buffered, block sizes up to 150000", 30, 700, false, genBuf(150000, 6), runBuf),
		vh.NewPart("buffered-vast", "as buffered, block sizes up to 5 MB", 3, 100, false, genBuf(5000000, 5), runBuf),
	},
	Assumptions: []string{"the base form is driven as its documentation and callers do: bytes removed are the oldest of the window, the length passed is the length before removal, and no more bytes are evicted than added in a paired step"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
