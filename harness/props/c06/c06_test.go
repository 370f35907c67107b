package c06

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"hash"
	"testing"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type use struct {
	How      string    `json:"how"` // write, stream, compress, build
	Content  []gen.Seg `json:"content"`
	Chunks   []int     `json:"chunks,omitempty"`
	WithEOF  bool      `json:"withEOF,omitempty"`
	Batch    int       `json:"batch,omitempty"`
	ResetAll bool      `json:"reset,omitempty"` // call Reset before the use
	Dirty    int       `json:"dirty,omitempty"` // the caller used hashes of the generator before (bits: file, strong, weak)
}

type tc struct {
	BS   int   `json:"bs"`
	Sha  bool  `json:"sha,omitempty"` // replace the default hashes
	Uses []use `json:"uses"`
}

func genCase(minBS, maxBS, maxLen, maxUses int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS), Sha: rapid.IntRange(0, 3).Draw(t, "sha") == 0}
		n := rapid.IntRange(1, maxUses).Draw(t, "uses")
		for i := 0; i < n; i++ {
			c.Uses = append(c.Uses, use{
				How:      rapid.SampledFrom([]string{"write", "stream", "compress", "build", "string"}).Draw(t, "how"),
				Content:  gen.Content(t, c.BS, maxLen),
				Chunks:   gen.Sizes(t, 2*c.BS),
				WithEOF:  rapid.Bool().Draw(t, "withEOF"),
				Batch:    rapid.IntRange(0, 12).Draw(t, "batch"),
				ResetAll: rapid.IntRange(0, 3).Draw(t, "reset") == 0,
				Dirty:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4, 7}).Draw(t, "dirty"),
			})
		}
		return c
	}
}

func run(c tc, r *vh.Rec) error {
	g := filechecksum.NewFileChecksumGenerator(uint(c.BS))
	strong := oracle.MD5
	file := oracle.MD5
	if c.Sha {
		g.StrongHash, g.FileChecksumHash = sha1.New(), sha256.New()
		strong = func(b []byte) []byte { s := sha1.Sum(b); return s[:] }
		file = func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
	}
	var _ hash.Hash = g.StrongHash
	if w, s := g.GetChecksumSizes(); w != 4 || s != len(strong(nil)) || g.ChecksumSize() != w+s {
		return vh.Failf("checksums of %d and %d bytes, GetChecksumSizes gives %d and %d, ChecksumSize %d", 4, len(strong(nil)), w, s, g.ChecksumSize())
	}
	total := 0
	// what was delivered stays as it is, whatever is generated afterwards
	var kept []func() error
	for ui, u := range c.Uses {
		data := gen.Build(u.Content, nil)
		blocks := oracle.Blocks(data, c.BS)
		rd := &gen.ChunkReader{Data: data, Sizes: u.Chunks, WithEOF: u.WithEOF, FailAt: -1}
		ctx := fmt.Sprintf("use %d (%s) of the generator, block size %d, content %s: ", ui, u.How, c.BS, e2e.Show(data))
		if u.ResetAll {
			g.Reset()
		}
		if u.Dirty&1 != 0 {
			g.GetFileHash().Write([]byte("dirt"))
		}
		if u.Dirty&2 != 0 {
			g.GetStrongHash().Write([]byte("dirt"))
		}
		if u.Dirty&4 != 0 {
			g.WeakRollingHash.AddBytes([]byte("dirt"))
		}
		r.ClassIf(u.Dirty != 0 && !u.ResetAll, "hashes used by the caller before")
		var want []byte
		for _, b := range blocks {
			want = append(append(want, oracle.Weak(b)...), strong(b)...)
		}
		switch u.How {
		case "write":
			var out bytes.Buffer
			sum, err := g.GenerateChecksums(rd, &out)
			if err != nil {
				return vh.Failf("%serror %v", ctx, err)
			}
			if !bytes.Equal(sum, file(data)) {
				return vh.Failf("%sfile checksum %x, expected %x", ctx, sum, file(data))
			}
			if !bytes.Equal(out.Bytes(), want) {
				return vh.Failf("%swritten checksums differ: %s", ctx, e2e.Diff(out.Bytes(), want))
			}
			kept = append(kept, func() error {
				if !bytes.Equal(sum, file(data)) {
					return vh.Failf("%sthe file checksum changed afterwards to %x", ctx, sum)
				}
				return nil
			})
		case "stream", "compress":
			var results [][]chunks.ChunkChecksum
			var got []chunks.ChunkChecksum
			var sum []byte
			var compressed [][]byte
			var fn filechecksum.CompressionFunction
			if u.How == "compress" {
				fn = func(b []byte) (int64, error) {
					compressed = append(compressed, append([]byte{}, b...))
					return int64(len(b)*3 + len(compressed)), nil
				}
			}
			for res := range g.StartChecksumGeneration(rd, uint(u.Batch), fn) {
				if sum != nil {
					return vh.Failf("%sa result follows the file checksum", ctx)
				}
				if res.Err != nil {
					return vh.Failf("%serror %v", ctx, res.Err)
				}
				results = append(results, res.Checksums)
				got = append(got, res.Checksums...)
				sum = res.Filechecksum
				if sum != nil {
					break // as GenerateChecksums does; the generator can be used again
				}
			}
			if !bytes.Equal(sum, file(data)) {
				return vh.Failf("%sfile checksum %x, expected %x", ctx, sum, file(data))
			}
			if len(got) != len(blocks) {
				return vh.Failf("%s%d entries for %d blocks", ctx, len(got), len(blocks))
			}
			for i, e := range got {
				if e.ChunkOffset != uint(i) {
					return vh.Failf("%sentry %d is numbered %d", ctx, i, e.ChunkOffset)
				}
				if !bytes.Equal(e.WeakChecksum, oracle.Weak(blocks[i])) || !bytes.Equal(e.StrongChecksum, strong(blocks[i])) {
					return vh.Failf("%sentry %d is %x %x, expected %x %x", ctx, i, e.WeakChecksum, e.StrongChecksum, oracle.Weak(blocks[i]), strong(blocks[i]))
				}
				if fn != nil && e.Size != int64(len(blocks[i])*3+i+1) {
					return vh.Failf("%sentry %d has size %d, the compression function returned %d", ctx, i, e.Size, len(blocks[i])*3+i+1)
				}
			}
			if fn != nil {
				if len(compressed) != len(blocks) {
					return vh.Failf("%scompression function called %d times for %d blocks", ctx, len(compressed), len(blocks))
				}
				for i := range blocks {
					if !bytes.Equal(compressed[i], blocks[i]) {
						return vh.Failf("%scompression call %d got %s, expected %s", ctx, i, e2e.Show(compressed[i]), e2e.Show(blocks[i]))
					}
				}
			}
			kept = append(kept, func() error {
				if !bytes.Equal(sum, file(data)) {
					return vh.Failf("%sthe file checksum changed afterwards to %x", ctx, sum)
				}
				i := 0
				for _, list := range results {
					for _, e := range list {
						if e.ChunkOffset != uint(i) || !bytes.Equal(e.WeakChecksum, oracle.Weak(blocks[i])) || !bytes.Equal(e.StrongChecksum, strong(blocks[i])) || e.Size != got[i].Size {
							return vh.Failf("%sentry %d changed after it was delivered to %+v", ctx, i, e)
						}
						i++
					}
				}
				return nil
			})
			r.ClassIf(len(results) > 3, "more than three results kept")
			r.ClassIf(u.Batch == 0, "batch size 0")
			r.ClassIf(u.Batch >= 1000 && len(blocks) > u.Batch, "batches of 1000 and more")
			r.ClassIf(u.Batch > 0 && len(blocks) > 0 && len(blocks)%u.Batch == 0, "blocks fill the last batch")
		case "build", "string":
			build := func() ([]byte, *index.ChecksumIndex, filechecksum.ChecksumLookup, error) {
				if u.How == "string" {
					return indexbuilder.BuildIndexFromString(g, string(data))
				}
				return indexbuilder.BuildChecksumIndex(g, rd)
			}
			sum, idx, lookup, err := build()
			if err != nil {
				return vh.Failf("%serror %v", ctx, err)
			}
			if !bytes.Equal(sum, file(data)) {
				return vh.Failf("%sfile checksum %x, expected %x", ctx, sum, file(data))
			}
			if idx.BlockCount != len(blocks) {
				return vh.Failf("%sindex has %d blocks, expected %d", ctx, idx.BlockCount, len(blocks))
			}
			for i, b := range blocks {
				if !bytes.Equal(lookup.GetStrongChecksumForBlock(i), strong(b)) {
					return vh.Failf("%sstrong checksum of block %d is wrong", ctx, i)
				}
				w := idx.FindWeakChecksum2(oracle.Weak(b))
				found := false
				if w != nil {
					for _, m := range idx.FindStrongChecksum2(strong(b), w) {
						found = found || m.ChunkOffset == uint(i)
					}
				}
				if !found {
					return vh.Failf("%sblock %d cannot be found in the index", ctx, i)
				}
			}
		}
		total += len(blocks)
		r.Class(u.How)
		r.ClassIf(len(data) == 0, "empty")
		r.ClassIf(len(data)%c.BS != 0, "short last block")
		r.ClassIf(len(data) > 0 && len(data)%c.BS == 0, "whole blocks")
		r.ClassIf(len(blocks) > 64, "more than 64 blocks")
		r.ClassIf(ui > 0, "reused generator")
	}
	for _, f := range kept {
		if err := f(); err != nil {
			return err
		}
	}
	if total > 1 {
		r.NonTrivial()
	}
	return nil
}

const rule = "1 or more uses of one generator, each with its own content, reader chunking (including data with end of file) and batch size, through GenerateChecksums, StartChecksumGeneration (with and without compression) or BuildChecksumIndex (also of a string); default or replaced hashes; hashes that the caller used before; every entry, the file checksum and the compression calls compared with independent computations, and once more after the last use; non-trivial: more than one block in total"

var check = &vh.Check{
	ID: "C06",
	Parts: []*vh.Part{
		vh.NewPart("small", rule+"; block size 1..24, up to 200 bytes", 8000, 300000, true, genCase(1, 24, 200, 3), run),
		vh.NewPart("large", rule+"; block size 1..5000, up to 20000 bytes", 500, 20000, true, func(t *rapid.T) tc {
			c := genCase(1, 5000, 20000, 2)(t)
			for i := range c.Uses {
				if rapid.IntRange(0, 3).Draw(t, "bigBatch") == 0 {
					c.Uses[i].Batch = 1 << rapid.IntRange(4, 16).Draw(t, "batch")
				}
			}
			return c
		}, run),
		vh.NewPart("huge", rule+"; block size 60000..140000, up to 300000 bytes, or up to 70000 blocks", 12, 400, true, func(t *rapid.T) tc {
			if rapid.IntRange(0, 2).Draw(t, "many") > 0 {
				return genCase(60000, 140000, 300000, 2)(t)
			}
			c := genCase(2, 3, 200, 2)(t)
			c.Uses[0].Content = append(c.Uses[0].Content, gen.Seg{K: "rnd", N: 65530*c.BS + rapid.IntRange(0, 4000).Draw(t, "n"), V: 3})
			for i := range c.Uses[0].Chunks {
				c.Uses[0].Chunks[i] *= 500
			}
			c.Uses[0].Batch = rapid.SampledFrom([]int{c.Uses[0].Batch, 1000, 1024, 4001, 65530, 70000}).Draw(t, "batch")
			return c
		}, run),
		vh.NewPart("vast", rule+"; block size 1 to 5 million, up to 9 million bytes", 1, 40, true, func(t *rapid.T) tc {
			bs := 1000000 + gen.Pos(t, 4000000, "bs")
			c := genCase(bs, bs, 2000000, 1)(t)
			c.Uses[0].Content = append(c.Uses[0].Content, gen.Seg{K: "rnd", N: gen.Pos(t, 7000000, "n"), V: 3})
			for i := range c.Uses[0].Chunks {
				c.Uses[0].Chunks[i] = max(2000, c.Uses[0].Chunks[i])
			}
			return c
		}, run),
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
