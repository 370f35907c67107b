package c17

import (
	"bytes"
	"errors"
	"io"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

// giant is a plan that copies a local span of more than 2 or 4 GiB.
type giant struct {
	BS   int64  `json:"bs"`
	N    int64  `json:"n"`    // bytes of the span, at least
	Gap  int64  `json:"gap"`  // before it in the local file
	Near int    `json:"near"` // remote blocks before it (and one after it)
	Tail int64  `json:"tail,omitempty"`
	Cut  int64  `json:"cut,omitempty"` // the local file ends so early
	Seed uint64 `json:"seed"`
}

func genGiant(t *rapid.T) giant {
	c := giant{BS: int64(rapid.SampledFrom([]int{1, 7, 512, 8192, 65536, 1 << 20, 1<<24 + 1}).Draw(t, "bs")), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	c.N = rapid.SampledFrom([]int64{1<<31 + 5, 1<<31 + 1<<26, 1<<32 + 1<<20, 1<<32 + 1<<26, 1<<32 + 1<<26}).Draw(t, "n") + int64(gen.Pos(t, 1<<20, "more"))
	c.Gap = rapid.SampledFrom([]int64{0, 1, 4096, 1 << 31, 1 << 40}).Draw(t, "gap")
	c.Near = rapid.IntRange(0, 2).Draw(t, "near")
	if rapid.IntRange(0, 3).Draw(t, "cut?") == 0 {
		c.Cut = 1 + int64(gen.Pos(t, 1<<30, "cut"))
	}
	return c
}

// period is the length of what giant files repeat: a prime, so that shifts by
// anything usual are noticed.
const period = 1000003

type pattern struct {
	two []byte // the period twice
	pos int64
	end int64
}

func (p *pattern) at(pos int64, n int) []byte {
	o := int(pos % period)
	return p.two[o : o+min(n, period)]
}

func (p *pattern) Read(b []byte) (int, error) {
	if p.pos >= p.end {
		return 0, io.EOF
	}
	n := copy(b, p.at(p.pos, int(min(int64(len(b)), p.end-p.pos))))
	p.pos += int64(n)
	return n, nil
}

func (p *pattern) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekCurrent:
		off += p.pos
	case io.SeekEnd:
		off += p.end
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	p.pos = off
	return off, nil
}

// answers is a source of a few blocks.
type answers struct {
	results chan patcher.BlockReponse
	errs    chan error
	block   func(i uint) []byte
}

func (s *answers) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *answers) EncounteredError() <-chan error                { return s.errs }
func (s *answers) RequestBlocks(m patcher.MissingBlockSpan) error {
	for i := m.StartBlock; i <= m.EndBlock; i++ {
		s.results <- patcher.BlockReponse{StartBlock: i, Data: s.block(i)}
	}
	return nil
}

// judge checks the output as it is written.
type judge struct {
	n    int64
	want func(at int64, n int) []byte
	bad  int64 // -1: none
}

func (j *judge) Write(p []byte) (int, error) {
	for d := p; len(d) > 0; {
		w := j.want(j.n, len(d))
		if len(w) == 0 || !bytes.Equal(w, d[:len(w)]) {
			if j.bad < 0 {
				j.bad = j.n
			}
			return 0, errors.New("wrong output")
		}
		j.n += int64(len(w))
		d = d[len(w):]
	}
	return len(p), nil
}

func runGiant(c giant, r *vh.Rec) error {
	n := (c.N + c.BS - 1) / c.BS // blocks of the span
	base := gen.Expand(c.Seed+1, period)
	local := &pattern{two: append(base, base...), end: c.Gap + n*c.BS - c.Cut}
	remote := func(i uint) []byte { return gen.Expand(c.Seed+uint64(i)*3+7, int(c.BS)) }
	near := int64(c.Near) * c.BS
	j := &judge{bad: -1, want: func(at int64, k int) []byte {
		if end := near + n*c.BS; at < near || at >= end {
			b, o := at/c.BS, int(at%c.BS)
			if b > int64(c.Near)+n {
				return nil
			}
			x := remote(uint(b))[o:]
			return x[:min(k, len(x))]
		} else {
			return local.at(c.Gap+at-near, int(min(int64(k), end-at)))
		}
	}}
	src := &answers{make(chan patcher.BlockReponse, 16), make(chan error, 16), remote}
	first := uint(c.Near)
	found := []patcher.FoundBlockSpan{{StartBlock: first, EndBlock: first + uint(n) - 1, BlockSize: c.BS, MatchOffset: c.Gap}}
	var missing []patcher.MissingBlockSpan
	if c.Near > 0 {
		missing = append(missing, patcher.MissingBlockSpan{StartBlock: 0, EndBlock: first - 1, BlockSize: c.BS})
	}
	missing = append(missing, patcher.MissingBlockSpan{StartBlock: first + uint(n), EndBlock: first + uint(n), BlockSize: c.BS})
	err := sequential.SequentialPatcher(local, src, missing, found, 8, j)
	if j.bad >= 0 {
		return vh.Failf("the output is wrong at or after byte %d (a local span of %d blocks of %d bytes)", j.bad, n, c.BS)
	}
	r.ClassIf(c.Cut > 0, "local file too short")
	if c.Cut > 0 {
		if err == nil {
			return vh.Failf("success although %d bytes of the local span are missing", c.Cut)
		}
	} else {
		if err != nil {
			return vh.Failf("failed: %v", err)
		}
		if want := near + n*c.BS + c.BS; j.n != want {
			return vh.Failf("the output has %d bytes, expected %d", j.n, want)
		}
	}
	r.ClassIf(n*c.BS > 1<<32, "local span of more than 4 GiB")
	r.NonTrivial()
	return nil
}
