package c03

import (
	"bytes"
	"testing"

	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/vh"
)

func patch(c e2e.Case, r *vh.Rec) (missing func(block int) bool, reqs int, err error) {
	if c.Source == "readseeker" { // does not record what is fetched
		c.Source, c.SrcConc = "base", 1
	}
	ref, local := c.Contents()
	sum, err := e2e.Summary(ref, c.BS)
	if err != nil {
		return nil, 0, vh.Failf("index of a readable file failed: %v", err)
	}
	req := &e2e.Requester{Data: ref}
	src := c.NewSource(req, sum)
	var out bytes.Buffer
	if err := e2e.Run(c, &e2e.LocalFile{Reader: bytes.NewReader(local), Short: c.Short}, src, sum, &out); err != nil {
		return nil, 0, vh.Failf("patching failed: %v", err)
	}
	src.Close()
	fetched := make([]bool, len(ref)/c.BS+2)
	for _, s := range req.Fetched() {
		for b := s.From / int64(c.BS); b*int64(c.BS) < s.To; b++ {
			fetched[b] = true
		}
	}
	return func(b int) bool { return fetched[b] }, len(req.Fetched()), nil
}

func runIdentical(c e2e.Case, r *vh.Rec) error {
	ref, _ := c.Contents()
	_, n, err := patch(c, r)
	if err != nil {
		return err
	}
	if len(ref) < c.BS {
		r.Class("shorter than a block")
		return nil
	}
	if n > 0 {
		return vh.Failf("patching an identical file requested %d ranges; content %s", n, e2e.Show(ref))
	}
	r.ClassIf(len(ref)%c.BS != 0, "short last block")
	r.ClassIf(c.Conc > 1 && len(ref) > c.Conc*c.BS, "several sections")
	seen := map[string]bool{}
	for i := 0; i*c.BS < len(ref); i++ {
		b := string(e2e.Block(ref, c.BS, i))
		r.ClassIf(seen[b], "repeated blocks")
		seen[b] = true
	}
	if len(ref) > 2*c.BS {
		r.NonTrivial()
	}
	return nil
}

func run(c e2e.Case, r *vh.Rec) error {
	ref, local := c.Contents()
	bs := c.BS
	ids := map[string]int{}
	for i := 0; i*bs < len(ref); i++ {
		b := string(e2e.Block(ref, bs, i))
		if _, dup := ids[b]; dup {
			r.Class("not distinct")
			return nil
		}
		ids[b] = i
	}
	// every position of the local file at which a block starts
	at := map[int]int{}
	for p := 0; p+bs <= len(local); p++ {
		if id, ok := ids[string(local[p:p+bs])]; ok {
			at[p] = id
		}
	}
	type occ struct{ id, pos int }
	var clean []occ
	for p, id := range at {
		ok := true
		for q := p - bs + 1; q < p+bs; q++ {
			if _, other := at[q]; other && q != p {
				ok = false
			}
		}
		if ok {
			clean = append(clean, occ{id, p})
		}
	}
	last := (len(ref) - 1) / bs
	tail := -1
	if n := len(ref) % bs; n != 0 && len(local) >= bs && bytes.HasSuffix(local, ref[len(ref)-n:]) {
		tail = len(local) - n
		for q := tail - bs + 1; q < len(local); q++ {
			if _, other := at[q]; other {
				tail = -1
				break
			}
		}
	}

	missing, n, err := patch(c, r)
	if err != nil {
		return err
	}
	for _, o := range clean {
		if missing(o.id) {
			return vh.Failf("block %d of %d is requested although the local file (%d bytes) has it at offset %d, with %d matchers", o.id, last+1, len(local), o.pos, c.Conc)
		}
		r.ClassIf(o.pos%bs != 0, "unaligned")
		r.ClassIf(o.pos%bs == 0 && o.pos != o.id*bs, "moved by whole blocks")
		r.ClassIf(o.pos >= len(ref), "beyond the length of the reference")
		if c.Conc > 1 {
			sec := len(local) / c.Conc
			sec += bs - sec%bs
			r.ClassIf(o.pos/sec != (o.pos+bs-1)/sec, "across sections")
		}
	}
	r.ClassIf(len(clean) < len(at), "overlapping occurrences")
	if tail >= 0 {
		if missing(last) {
			return vh.Failf("the short last block is requested although the local file (%d bytes) ends with it, with %d matchers", len(local), c.Conc)
		}
		r.Class("short last block")
	}
	r.ClassIf(n > 0, "something requested")
	if len(clean) > 0 && n > 0 {
		r.NonTrivial()
	}
	return nil
}

// edited draws a random reference and an edit of it.
func edited(minBS, maxBS, maxBlocks int) func(t *rapid.T) e2e.Case {
	return func(t *rapid.T) e2e.Case {
		c := e2e.Case{BS: minBS + gen.Pos(t, maxBS-minBS, "bs"), Source: "base", SrcConc: 1}
		c.Conc = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 9}).Draw(t, "matchers")
		bs := c.BS
		blocks := 1 + gen.Pos(t, maxBlocks-1, "blocks")
		n := blocks * bs
		if rapid.Bool().Draw(t, "shortLast") {
			n -= gen.Pos(t, bs-1, "tail")
		}
		c.Ref = []gen.Seg{{K: "rnd", N: n, V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}}
		fresh := func() gen.Seg {
			return gen.Seg{K: "rnd", N: gen.Pos(t, 3*bs, "insert"), V: 1<<21 + rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
		}
		k := 1 + gen.Pos(t, 9, "pieces")
		if rapid.Bool().Draw(t, "padded") { // far beyond the length of the reference
			c.Local = append(c.Local, gen.Seg{K: "rnd", N: gen.Pos(t, 3*n, "padding"), V: 5})
		}
		next := 0
		for i := 0; i < k; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "piece") {
			case 0:
				c.Local = append(c.Local, fresh())
			case 1: // some blocks from anywhere
				s := gen.Pos(t, blocks-1, "from")
				c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s * bs), N: bs * (1 + gen.Pos(t, min(5, blocks-1-s), "count"))})
			case 2: // continue where the last copy ended, perhaps leaving something out
				s := next + gen.Pos(t, bs, "skip")
				ln := gen.Pos(t, max(1, n/2), "len")
				c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s), N: ln})
				next = s + ln
			default:
				s := gen.Pos(t, n, "from")
				c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s), N: gen.Pos(t, n-s, "len")})
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "end") == 0 {
			s := max(0, n-gen.Pos(t, 2*bs, "ending"))
			c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s), N: n - s})
		}
		if rapid.IntRange(0, 3).Draw(t, "shortReads") == 0 {
			c.Short = 1 + gen.Pos(t, 2*bs, "short")
		}
		return c
	}
}

func identical(minBS, maxBS, maxLen int) func(t *rapid.T) e2e.Case {
	return func(t *rapid.T) e2e.Case {
		c := e2e.Case{BS: gen.BlockSize(t, minBS, maxBS), Source: "base", SrcConc: 1}
		c.Conc = rapid.IntRange(1, 9).Draw(t, "matchers")
		c.Ref = gen.Content(t, c.BS, maxLen)
		n := len(gen.Build(c.Ref, nil))
		c.Local = []gen.Seg{{K: "ref", N: n}}
		return c
	}
}

func hugeEdit(t *rapid.T) e2e.Case {
	if rapid.IntRange(0, 3).Draw(t, "larger") == 0 {
		return edited(131072, 131072, 4)(t)
	}
	return edited(65500, 66500, 5)(t)
}

const rule = "random references and local files pieced together from copies of whole blocks and arbitrary ranges of it, insertions and padding; an independent search lists where reference blocks occur in the local file; non-trivial: some blocks occur and something is requested"

var check = &vh.Check{
	ID: "C03",
	Parts: []*vh.Part{
		vh.NewPart("edited", rule, 4000, 120000, true, edited(2, 40, 24), run),
		vh.NewPart("edited-large", rule+"; block size 50..700, up to 60 blocks", 150, 6000, true, edited(50, 700, 60), run),
		vh.NewPart("identical", "local files identical to the reference, any content (runs, periods, repeated blocks); non-trivial: more than two blocks", 3000, 80000, true, identical(1, 24, 200), runIdentical),
		vh.NewPart("identical-large", "as identical, up to 20000 bytes", 100, 4000, true, identical(60, 900, 20000), runIdentical),
		vh.NewPart("huge", rule+"; block size 65500..66500 or 131072, up to 5 blocks", 8, 250, true, hugeEdit, run),
		vh.NewPart("giant", "local file of more than 2 or 4 GiB, virtual and mostly equal bytes, with random blocks at generated places (at the end, around powers of two) that the reference has too; block size 1 to 2 MiB; non-trivial: more than 4 GiB", 1, 10, false,
			func(t *rapid.T) e2e.Giant { return e2e.GenGiant(t, true) }, func(c e2e.Giant, r *vh.Rec) error { return e2e.RunGiant(c, true, r) }),
		vh.NewPart("identical-huge", "as identical, block sizes of 65535 and more or more than 65536 blocks", 6, 150, true, func(t *rapid.T) e2e.Case {
			c := e2e.GenHuge(t)
			c.Local = []gen.Seg{{K: "ref", N: len(gen.Build(c.Ref, nil))}}
			return c
		}, runIdentical),
	},
	Assumptions: []string{"occurrences that overlap an occurrence of another block are not judged: the scanner takes the first one and continues behind it"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
