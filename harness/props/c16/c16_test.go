package c16

import (
	"testing"

	"github.com/Redundancy/go-sync/blocksources"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

type tc struct {
	BS    uint64 `json:"bs"`
	Size  int64  `json:"size"`            // 0: unknown
	Max   uint64 `json:"max,omitempty"`   // desired request size, 0: unlimited
	Make  bool   `json:"make,omitempty"`  // through the public constructors
	First uint   `json:"first,omitempty"` // block range to map and split
	N     uint   `json:"n"`
}

// sizeOf draws block sizes and file sizes: small, powers of two and their
// neighbours, and large.
func genCase(t *rapid.T) tc {
	c := tc{}
	switch rapid.IntRange(0, 3).Draw(t, "scale") {
	case 0, 1:
		c.BS = uint64(rapid.IntRange(1, 16).Draw(t, "bs"))
	case 2:
		c.BS = uint64(1<<rapid.IntRange(0, 20).Draw(t, "bits")) + uint64(rapid.IntRange(0, 1).Draw(t, "more"))
	default:
		c.BS = rapid.Uint64Range(1, 1<<32).Draw(t, "bs")
	}
	blocks := uint64(1 + gen.Pos(t, 60, "blocks"))
	off := uint64(0)
	if rapid.IntRange(0, 4).Draw(t, "far") == 0 {
		off = rapid.Uint64Range(0, (1<<40)/c.BS).Draw(t, "off")
	}
	c.Size = int64((off + blocks) * c.BS)
	if rapid.Bool().Draw(t, "tail") {
		c.Size -= int64(rapid.Uint64Range(0, c.BS-1).Draw(t, "missing"))
	}
	if rapid.IntRange(0, 4).Draw(t, "unknown") == 0 {
		c.Size = 0
	}
	first := gen.Pos(t, int(blocks)-1, "first")
	c.First = uint(off) + uint(first)
	c.N = uint(1 + gen.Pos(t, int(blocks)-1-first, "n"))
	if rapid.IntRange(0, 5).Draw(t, "make") == 0 {
		c.Make = true
	} else if rapid.IntRange(0, 5).Draw(t, "limited") > 0 {
		k := uint64(gen.Pos(t, 12, "maxBlocks"))
		c.Max = max(1, k*c.BS+uint64(rapid.SampledFrom([]int{0, 1, -1, 0, int(c.BS / 2)}).Draw(t, "delta")))
		if c.Max > 1<<50 {
			c.Max = 1
		}
	}
	if !c.Make && rapid.IntRange(0, 5).Draw(t, "wide") == 0 { // long ranges, large requests
		if c.BS = rapid.Uint64Range(1, 16).Draw(t, "wideBS"); rapid.Bool().Draw(t, "large") {
			c.BS = rapid.Uint64Range(1, 1<<24).Draw(t, "largeBS")
		}
		blocks := uint(1) << rapid.IntRange(8, 36).Draw(t, "wideBlocks")
		blocks -= uint(rapid.Uint64Range(0, uint64(blocks)/2).Draw(t, "fewer"))
		c.First = uint(rapid.Uint64Range(0, 1<<20).Draw(t, "wideFirst"))
		c.N = blocks
		c.Max = uint64(blocks)*c.BS/uint64(rapid.IntRange(1, 40).Draw(t, "parts")) + rapid.Uint64Range(0, 3*c.BS).Draw(t, "over")
		if c.Max == 0 || rapid.IntRange(0, 3).Draw(t, "any") == 0 {
			c.Max = ^uint64(0) >> rapid.IntRange(0, 8).Draw(t, "unlimited")
		}
		if c.Size != 0 {
			c.Size = int64((uint64(c.First)+uint64(blocks))*c.BS - rapid.Uint64Range(0, c.BS-1).Draw(t, "wideTail"))
		}
	}
	return c
}

func run(c tc, r *vh.Rec) error {
	var res blocksources.BlockSourceOffsetResolver
	switch {
	case c.Make && c.Size == 0:
		res = blocksources.MakeNullFixedSizeResolver(c.BS)
	case c.Make:
		res = blocksources.MakeFileSizedBlockResolver(c.BS, c.Size)
	default:
		res = &blocksources.FixedSizeBlockResolver{BlockSize: c.BS, FileSize: c.Size, MaxDesiredRequestSize: c.Max}
	}
	first, last := c.First, c.First+c.N-1
	clip := func(off uint64) int64 {
		if c.Size != 0 && int64(off) > c.Size {
			return c.Size
		}
		return int64(off)
	}
	// tiling, against exact arithmetic
	for _, b := range []uint{first, last, first + (last-first)/2} {
		s, e := res.GetBlockStartOffset(b), res.GetBlockEndOffset(b)
		if ws, we := clip(uint64(b)*c.BS), clip(uint64(b+1)*c.BS); s != ws || e != we {
			return vh.Failf("block %d maps to bytes %d-%d, want %d-%d", b, s, e, ws, we)
		}
		if n := res.GetBlockStartOffset(b + 1); n != e {
			return vh.Failf("block %d ends at %d but block %d starts at %d", b, e, b+1, n)
		}
	}
	if s := res.GetBlockStartOffset(0); s != 0 {
		return vh.Failf("block 0 starts at %d", s)
	}
	if c.Size != 0 {
		lb := uint((uint64(c.Size) - 1) / c.BS)
		if e := res.GetBlockEndOffset(lb); e != c.Size {
			return vh.Failf("the last block %d ends at %d, the file at %d", lb, e, c.Size)
		}
		if s := res.GetBlockStartOffset(lb); s >= c.Size {
			return vh.Failf("the last block %d is empty: starts at %d of %d", lb, s, c.Size)
		}
		for b := lb + 1; b < lb+4; b++ {
			if s, e := res.GetBlockStartOffset(b), res.GetBlockEndOffset(b); s != c.Size || e != c.Size {
				return vh.Failf("block %d, behind the last block %d of a file of %d bytes, maps to bytes %d-%d", b, lb, c.Size, s, e)
			}
		}
	}

	// splitting
	parts := res.SplitBlockRangeToDesiredSize(first, last)
	next := first
	for i, p := range parts {
		if p.StartBlockID != next || p.EndBlockID < p.StartBlockID || p.EndBlockID > last {
			return vh.Failf("splitting blocks %d-%d: part %d is %d-%d, expected to start at %d: %v", first, last, i, p.StartBlockID, p.EndBlockID, next, parts)
		}
		next = p.EndBlockID + 1
		n := uint64(p.EndBlockID - p.StartBlockID + 1)
		bytes := uint64(res.GetBlockEndOffset(p.EndBlockID) - res.GetBlockStartOffset(p.StartBlockID))
		if c.Max != 0 && n > 1 && bytes > c.Max {
			return vh.Failf("splitting blocks %d-%d of %d bytes: part %v has %d bytes, desired are %d", first, last, c.BS, p, bytes, c.Max)
		}
		if i < len(parts)-1 && (c.Max == 0 || (n+1)*c.BS <= c.Max) {
			return vh.Failf("splitting blocks %d-%d of %d bytes: part %v has only %d blocks, desired are %d bytes", first, last, c.BS, p, n, c.Max)
		}
	}
	if next != last+1 {
		return vh.Failf("splitting blocks %d-%d covers only up to block %d: %v", first, last, int(next)-1, parts)
	}

	r.ClassIf(c.Size == 0, "size unknown")
	r.ClassIf(c.N > 1<<32, "more than 2^32 blocks")
	r.ClassIf(c.Max > 1<<63, "desired size beyond 63 bits")
	r.ClassIf(c.Size != 0 && uint64(c.Size)%c.BS != 0, "short last block")
	r.ClassIf(c.Size != 0 && uint64(last+1)*c.BS >= uint64(c.Size), "range reaches the end")
	r.ClassIf(c.Max != 0 && c.Max < c.BS, "desired size below a block")
	r.ClassIf(c.Max != 0 && c.Max%c.BS == 0, "desired size is whole blocks")
	r.ClassIf(uint64(last)*c.BS > 1<<32, "beyond 4 GB")
	r.ClassIf(len(parts) > 1 && c.N%(parts[0].EndBlockID-parts[0].StartBlockID+1) == 0, "splits evenly")
	if len(parts) > 1 {
		r.NonTrivial()
	}
	return nil
}

var check = &vh.Check{
	ID: "C16",
	Parts: []*vh.Part{
		vh.NewPart("ranges", "block sizes 1..2^32, file sizes up to 2^40 and beyond (or unknown) with whole or short last block, block ranges within the file, desired request sizes from 1 byte to 12 blocks and around block multiples, also ranges of up to 2^36 blocks and sizes up to 2^64-1, constructed directly or by the public constructors; compared with exact arithmetic (blocks behind the end are empty and lie at the end); non-trivial: the range splits into several requests", 300000, 9000000, false, genCase, run),
	},
	Assumptions: []string{"block numbers times block size fit in 63 bits", "a file size of 0 means unknown, as the constructors define it"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
