package c07

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"pgregory.net/rapid"
	"verif/e2e"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type tc struct {
	BS      int       `json:"bs"`
	Content []gen.Seg `json:"content"`
	Chunks  []int     `json:"chunks,omitempty"`
	How     string    `json:"how"`   // write, stream, build
	Fault   string    `json:"fault"` // read, write, compress
	At      int       `json:"at"`    // byte offset (read, write) or block (compress)
	With    bool      `json:"with,omitempty"`
	Kind    int       `json:"kind,omitempty"` // gen.Err
	Once    bool      `json:"once,omitempty"`
	Batch   int       `json:"batch,omitempty"`
	Size    int64     `json:"size,omitempty"` // what the failing compression returns as size
	Then    []gen.Seg `json:"then"`           // content of the next, working use
}

func genCase(minBS, maxBS, maxLen int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: gen.BlockSize(t, minBS, maxBS)}
		c.Content = append(gen.Content(t, c.BS, maxLen), gen.Seg{K: "rnd", N: rapid.IntRange(1, 3*c.BS).Draw(t, "more"), V: 7})
		n := len(gen.Build(c.Content, nil))
		nb := (n + c.BS - 1) / c.BS
		c.Chunks = gen.Sizes(t, 2*c.BS)
		c.With = rapid.Bool().Draw(t, "with")
		c.Kind = gen.ErrKind(t)
		c.Once = rapid.Bool().Draw(t, "once")
		c.Batch = rapid.IntRange(1, 12).Draw(t, "batch")
		c.Fault = rapid.SampledFrom([]string{"read", "write", "compress"}).Draw(t, "fault")
		switch c.Fault {
		case "read":
			c.How = rapid.SampledFrom([]string{"write", "stream", "build"}).Draw(t, "how")
			if rapid.Bool().Draw(t, "aligned") {
				c.At = min(n, c.BS*rapid.IntRange(0, nb).Draw(t, "atBlock"))
			} else {
				c.At = rapid.IntRange(0, n).Draw(t, "at")
			}
		case "write":
			c.How = "write"
			c.At = rapid.IntRange(0, nb*20-1).Draw(t, "at")
		case "compress":
			c.How = "stream"
			c.At = rapid.IntRange(0, nb-1).Draw(t, "at")
			c.Size = rapid.SampledFrom([]int64{0, 0, 1, int64(c.BS), -1}).Draw(t, "size")
		}
		c.Then = gen.Content(t, c.BS, 60)
		return c
	}
}

// failWriter fails once At bytes have been written; partial says whether the
// failing write takes the bytes before the limit.
type failWriter struct {
	at      int
	partial bool
	whole   bool // the failing write takes everything
	err     error
	n       int
	failed  bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed {
		// the device recovered: a lost write stays lost
		return len(p), nil
	}
	if w.n+len(p) > w.at {
		w.failed = true
		if w.whole {
			return len(p), w.err
		}
		if w.partial {
			return w.at - w.n, w.err
		}
		return 0, w.err
	}
	w.n += len(p)
	return len(p), nil
}

func run(c tc, r *vh.Rec) error {
	data := gen.Build(c.Content, nil)
	g := filechecksum.NewFileChecksumGenerator(uint(c.BS))
	rd := &gen.ChunkReader{Data: data, Sizes: c.Chunks, FailAt: -1}
	if c.Fault == "read" {
		rd.FailAt, rd.WithErr, rd.Err, rd.Once = c.At, c.With, gen.Err(c.Kind), c.Once
		rd.OnFail = func(n int) {
			if n > 10000 {
				select {} // read for ever: shows up as a deadlock
			}
		}
	}
	ctx := fmt.Sprintf(" (%s failure at %d of %d bytes, block size %d, via %s)", c.Fault, c.At, len(data), c.BS, c.How)

	var err error
	switch c.How {
	case "write":
		var out bytes.Buffer
		if c.Fault == "write" {
			_, err = g.GenerateChecksums(rd, &failWriter{at: c.At, partial: c.With, whole: c.Once, err: gen.Err(c.Kind)})
		} else {
			_, err = g.GenerateChecksums(rd, &out)
		}
	case "build":
		_, _, _, err = indexbuilder.BuildChecksumIndex(g, rd)
	case "stream":
		var fn filechecksum.CompressionFunction
		if c.Fault == "compress" {
			k := 0
			fn = func(b []byte) (int64, error) {
				k++
				if k == c.At+1 {
					return c.Size, gen.Err(c.Kind)
				}
				return int64(len(b)), nil
			}
		}
		done := false
		for res := range g.StartChecksumGeneration(rd, uint(c.Batch), fn) {
			if res.Err != nil && err == nil && !done {
				err = res.Err
			}
			if res.Filechecksum != nil {
				done = true
				if err == nil {
					return vh.Failf("the checksum of the whole file was delivered without an error%s", ctx)
				}
			}
		}
	}
	if err == nil {
		return vh.Failf("generation reported success%s", ctx)
	}

	// the generator works again after the failure
	then := gen.Build(c.Then, nil)
	var out bytes.Buffer
	sum, err := g.GenerateChecksums(bytes.NewReader(then), &out)
	if err != nil {
		return vh.Failf("the next use failed: %v%s", err, ctx)
	}
	var want []byte
	for _, b := range oracle.Blocks(then, c.BS) {
		want = append(append(want, oracle.Weak(b)...), oracle.MD5(b)...)
	}
	if !bytes.Equal(sum, oracle.MD5(then)) || !bytes.Equal(out.Bytes(), want) {
		return vh.Failf("the next use gave file checksum %x and %s%s", sum, e2e.Diff(out.Bytes(), want), ctx)
	}

	r.Class(c.Fault + " failure via " + c.How)
	r.ClassIf(c.Kind == 1, "io.ErrUnexpectedEOF as the failure")
	r.ClassIf(c.Fault == "read" && c.At%c.BS == 0, "read failure between blocks")
	r.ClassIf(c.Fault == "read" && c.At == len(data), "read failure instead of end of file")
	r.ClassIf(c.Fault == "write" && c.At >= (len(data)/c.BS)*20, "write failure in the last entry")
	if c.At > 0 {
		r.NonTrivial()
	}
	return nil
}

const rule = "content of at least one byte, and one failure of the reader (at any offset, alone or with data), the writer (any byte of the output; it may work again afterwards) or the compression function (any block), through every entry point that can meet it, followed by a use of the same generator that must be exact; non-trivial: not at the very start"

var check = &vh.Check{
	ID: "C07",
	Parts: []*vh.Part{
		vh.NewPart("small", rule+"; block size 1..24, up to 200 bytes", 50000, 1200000, true, genCase(1, 24, 200), run),
		vh.NewPart("large", rule+"; block size 1..3000, up to 12000 bytes", 3500, 75000, true, func(t *rapid.T) tc { return genCase(1, 3000, 12000)(t) }, run),
	},
	Assumptions: []string{"readers that return data together with a failure fail again when read again", "the channel of StartChecksumGeneration is read until it is closed"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
