package c21

import (
	"bytes"
	"encoding/binary"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"testing"

	"pgregory.net/rapid"
	"verif/cli"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

type tc struct {
	BS    int       `json:"bs"`
	Ref   []gen.Seg `json:"ref"`
	Local []gen.Seg `json:"local"`
	Same  bool      `json:"same,omitempty"`
	P     []int     `json:"p"`              // stream counts to compare; 0 is the default
	Gone  int       `json:"gone,omitempty"` // also without the local file (1), the index (2) or both
	Dir   int       `json:"dir,omitempty"`  // also with a directory instead of them, or (bit 2) links to one
	BadP  int       `json:"badP,omitempty"` // a stream count below 1 to try as well (as one more)
	CPU   int       `json:"cpu,omitempty"`
}

func streams(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 8, 13, 16}), 1, 2).Draw(t, "p")
}

// small draws any content at small block sizes.
func small(t *rapid.T) tc {
	c := tc{BS: gen.BlockSize(t, 1, 24), P: streams(t)}
	c.BadP = rapid.SampledFrom([]int{0, 0, 0, 1, -2}).Draw(t, "bad p")
	c.Gone = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "gone")
	c.Dir = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3, 5, 6, 7}).Draw(t, "directory")
	c.Ref = gen.Content(t, c.BS, 300)
	ref := gen.Build(c.Ref, nil)
	if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
		c.Same = true
	} else {
		c.Local = gen.Edited(t, c.BS, len(ref), 300)
	}
	return c
}

// sizes draws block sizes that are far larger than the files.
func sizes(t *rapid.T) tc {
	c := small(t)
	bits := rapid.SampledFrom([]uint{8, 15, 16, 20, 24, 31, 31, 32, 32}).Draw(t, "bits")
	c.BS = 1<<bits + rapid.IntRange(-1, 1).Draw(t, "off")
	if bits == 32 {
		c.BS = 1<<32 - 1 - rapid.SampledFrom([]int{0, 0, 1, 1 << 20, 1 << 30}).Draw(t, "below")
	}
	return c
}

// pieces draws an edit of a random reference.
func pieces(minBS, maxBS, maxBlocks, padding int) func(t *rapid.T) tc {
	return func(t *rapid.T) tc {
		c := tc{BS: minBS + gen.Pos(t, maxBS-minBS, "bs"), P: streams(t)}
		c.CPU = rapid.SampledFrom([]int{0, 1, 3, 6}).Draw(t, "cpus")
		c.BadP = rapid.SampledFrom([]int{0, 0, 1, -2}).Draw(t, "bad p")
		bs := c.BS
		blocks := 1 + gen.Pos(t, maxBlocks-1, "blocks")
		n := blocks * bs
		if rapid.Bool().Draw(t, "shortLast") {
			n -= gen.Pos(t, bs-1, "tail")
		}
		c.Ref = []gen.Seg{{K: "rnd", N: n, V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}}
		if padding > 0 {
			// large enough to be split into streams
			c.Local = append(c.Local, gen.Seg{K: "rnd", N: gen.Pos(t, padding, "padding"), V: 5})
		}
		for i, k := 0, 1+gen.Pos(t, 7, "pieces"); i < k; i++ {
			switch rapid.IntRange(0, 2).Draw(t, "piece") {
			case 0:
				c.Local = append(c.Local, gen.Seg{K: "rnd", N: gen.Pos(t, 2*bs, "insert"), V: 1<<21 + rapid.Uint64Range(0, 1<<20).Draw(t, "seed")})
			case 1:
				s := gen.Pos(t, blocks-1, "from")
				c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s * bs), N: bs * (1 + gen.Pos(t, blocks-1-s, "count"))})
			default:
				s := gen.Pos(t, n, "from")
				c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s), N: gen.Pos(t, n-s, "len")})
			}
		}
		if padding > 0 {
			total := 0
			for _, s := range c.Local {
				total += s.N
			}
			if total < 1<<20 {
				c.Local = append(c.Local, gen.Seg{K: "rnd", N: 1<<20 - total + gen.Pos(t, 5000, "fill"), V: 6})
			}
			s := max(0, n-gen.Pos(t, 3*bs, "ending"))
			c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(s), N: n - s})
		}
		return c
	}
}

// boundaries draws local files that have blocks around the offsets at which
// the file may be divided into streams, and at their very beginning and end.
func boundaries(t *rapid.T) tc {
	c := tc{BS: 512 + gen.Pos(t, 15872, "bs"), CPU: rapid.SampledFrom([]int{0, 1, 3, 6}).Draw(t, "cpus")}
	bs := c.BS
	p := rapid.SampledFrom([]int{2, 3, 4, 5, 7, 8, 13, 16}).Draw(t, "p")
	c.P = []int{p}
	if rapid.IntRange(0, 2).Draw(t, "default") == 0 {
		c.P = append(c.P, 0)
	}
	n := 1<<20 + gen.Pos(t, 300000, "size")
	sec := n / p
	if rapid.IntRange(0, 3).Draw(t, "rounded") > 0 {
		sec += bs - sec%bs
	}
	blocks := p + 2
	c.Ref = []gen.Seg{{K: "rnd", N: blocks * bs, V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}}
	end, id := 0, 0
	put := func(at int) {
		if at < end || at+bs > n {
			return
		}
		if at > end {
			c.Local = append(c.Local, gen.Seg{K: "rnd", N: at - end, V: 1<<21 + uint64(id)})
		}
		c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(id * bs), N: bs})
		end = at + bs
		id++
	}
	put(rapid.SampledFrom([]int{0, 0, 1, bs - 1}).Draw(t, "first"))
	for i := 1; i*sec < n && id < blocks-1; i++ {
		before := rapid.SampledFrom([]int{0, 1, 1, 1, 2, bs / 2, bs - 2, bs - 1, bs - 1, bs, bs + 1, -1}).Draw(t, "before")
		put(i*sec - before)
	}
	put(n - bs - rapid.SampledFrom([]int{0, 0, 1, bs - 1}).Draw(t, "last"))
	if end < n {
		c.Local = append(c.Local, gen.Seg{K: "rnd", N: n - end, V: 1<<21 + uint64(id)})
	}
	return c
}

func sameLarge(t *rapid.T) tc {
	c := tc{BS: 2000 + gen.Pos(t, 14000, "bs"), P: streams(t), Same: true}
	switch rapid.IntRange(0, 3).Draw(t, "content") {
	case 0:
		c.Ref = []gen.Seg{{K: "run", N: 1<<20 + gen.Pos(t, 100000, "n"), V: 0}}
		c.BS = 8000 + gen.Pos(t, 8000, "bs")
	case 1:
		c.Ref = []gen.Seg{{K: "rnd", N: gen.Pos(t, 600000, "a"), V: 1}, {K: "run", N: gen.Pos(t, 200000, "b")}, {K: "rnd", N: 1<<20 + gen.Pos(t, 100000, "c"), V: 2}}
	default:
		c.Ref = []gen.Seg{{K: "rnd", N: 1<<20 + gen.Pos(t, 500000, "n"), V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}}
	}
	return c
}

// many draws references of tens of thousands of blocks, most of which the
// local file has.
func many(t *rapid.T) tc {
	c := tc{BS: 12 + gen.Pos(t, 20, "bs"), P: []int{rapid.SampledFrom([]int{0, 1, 2, 5, 8}).Draw(t, "p")}}
	blocks := 50000 + gen.Pos(t, 60000, "blocks")
	n := blocks*c.BS - gen.Pos(t, c.BS-1, "tail")
	c.Ref = []gen.Seg{{K: "rnd", N: n, V: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}}
	if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
		c.Same = true
		return c
	}
	for i, k, at := 0, 1+gen.Pos(t, 4, "edits"), 0; i <= k; i++ {
		to := n
		if i < k {
			to = at + gen.Pos(t, n-at, "to")
		}
		c.Local = append(c.Local, gen.Seg{K: "ref", V: uint64(at), N: to - at},
			gen.Seg{K: "rnd", N: gen.Pos(t, 200, "insert"), V: 1<<21 + uint64(i)})
		at = min(n, to+gen.Pos(t, 200, "delete"))
	}
	return c
}

var line = map[string]*regexp.Regexp{
	"matched": regexp.MustCompile(`(?m)^Total matched blocks: +(\d+)$`),
	"total":   regexp.MustCompile(`(?m)^Index blocks: +(\d+)$`),
	"missing": regexp.MustCompile(`(?m)^Approximate missing bytes: +(\d+)$`),
	"bytes":   regexp.MustCompile(`(?m)^Total matched bytes: +(\d+)$`),
}

var stats = map[string]*regexp.Regexp{
	"blocksize":   regexp.MustCompile(`(?m)^Blocksize: +(\d+)$`),
	"weak count":  regexp.MustCompile(`(?m)^Weak hash count: +(\d+)$`),
	"comparisons": regexp.MustCompile(`(?m)^Comparisons: +(\d+)$`),
	"weak":        regexp.MustCompile(`(?m)^Weak hash hits: +(\d+)$`),
	"strong":      regexp.MustCompile(`(?m)^Strong hash hits: +(\d+)$`),
	"hit rate":    regexp.MustCompile(`(?m)^Weak hit rate: +(-?[\d.]+)%$`),
	"error rate":  regexp.MustCompile(`(?m)^Weak hash error rate: +(-?[\d.]+)%$`),
}

// statistics checks what is printed about the comparison.
func statistics(out string, ref, local []byte, bs int, r *vh.Rec) error {
	n := map[string]float64{}
	for k, re := range stats {
		if m := re.FindStringSubmatch(out); m != nil {
			x, err := strconv.ParseFloat(m[1], 64)
			if err != nil {
				return vh.Failf("%v in: %s", err, out)
			}
			n[k] = x
		} else if k != "hit rate" && k != "error rate" {
			return vh.Failf("no %q in: %s", re, out)
		}
	}
	blocks := oracle.Blocks(ref, bs)
	if int(n["blocksize"]) != bs || int(n["weak count"]) != len(blocks) {
		return vh.Failf("%d blocks of %d bytes, but the output is: %s", len(blocks), bs, out)
	}
	if n["strong"] > n["weak"] || n["weak"] > n["comparisons"] {
		return vh.Failf("of the comparisons some have weak, and of these some strong hits, but the output is: %s", out)
	}
	for _, x := range []struct {
		name    string
		of, all float64
	}{{"hit rate", n["weak"], n["comparisons"]}, {"error rate", n["weak"] - n["strong"], n["weak"]}} {
		rate, has := n[x.name]
		if has != (x.all > 0) {
			return vh.Failf("the weak %s is there (%v) although it is a share of %v: %s", x.name, has, x.all, out)
		}
		if has && math.Abs(rate-100*x.of/x.all) > 0.006 {
			return vh.Failf("the weak %s is %v%%, %v of %v are %.4f%%: %s", x.name, rate, x.of, x.all, 100*x.of/x.all, out)
		}
	}
	if len(local)*bs > 300000 || len(local) >= 1<<20 {
		return nil
	}
	// in a single stream: see C28
	weak, whole := map[string]bool{}, map[string]bool{}
	for _, b := range blocks {
		weak[string(oracle.Weak(b))] = true
		if len(b) == bs {
			whole[string(b)] = true
		}
	}
	windows, hits, found := 0, 0, 0
	for p := 0; p+bs <= len(local); windows++ {
		w := local[p : p+bs]
		if weak[string(oracle.Weak(w))] {
			hits++
		}
		if whole[string(w)] {
			found++
			p += bs
		} else {
			p++
		}
	}
	moreWindows, moreHits := windows, hits
	if len(local) >= bs {
		for k := 0; k <= bs; k++ {
			moreWindows++
			if weak[string(oracle.Weak(local[len(local)-k:]))] {
				moreHits++
			}
		}
	}
	if x := int(n["comparisons"]); x < windows || x > moreWindows {
		return vh.Failf("there are %d windows, with those at the end up to %d, but the output is: %s", windows, moreWindows, out)
	}
	if x := int(n["weak"]); x < hits || x > moreHits {
		return vh.Failf("%d windows have a known weak checksum, with those at the end up to %d, but the output is: %s", hits, moreHits, out)
	}
	if x := int(n["strong"]); x < found || x > found+1 {
		return vh.Failf("%d windows are blocks of the reference, and perhaps the end is, but the output is: %s", found, out)
	}
	r.ClassIf(found > 0 && hits > found, "false weak hits in the statistics")
	r.Class("statistics compared with the definition")
	return nil
}

func run(c tc, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	bs := c.BS
	ref := gen.Build(c.Ref, nil)
	local := ref
	if !c.Same {
		local = gen.Build(c.Local, ref)
	}
	cli.Write(filepath.Join(dir, "local"), local)
	cli.Write(filepath.Join(dir, "e.x"), nil)
	res := cli.Run(dir, 0, "build", "e.x")
	h := cli.Read(filepath.Join(dir, "e.gosync"))
	if !res.OK() || len(h) < oracle.HeaderSize {
		return vh.Failf("building the index of an empty file: %v, %d bytes", res, len(h))
	}
	v := func(o int) uint16 { return binary.LittleEndian.Uint16(h[o:]) }
	cli.Write(filepath.Join(dir, "ref.gosync"), oracle.Index(ref, bs, v(6), v(8), v(10)))

	total := (len(ref) + bs - 1) / bs
	lo, hi, exact := bounds(ref, local, bs)
	if c.Same && len(ref) >= bs {
		lo, hi = total, total
	}
	if c.BadP != 0 {
		res := cli.Run(dir, 0, "diff", "-p", strconv.Itoa(c.BadP-1), "local", "ref.gosync")
		if res.Crashed() {
			return vh.Failf("%v", res)
		}
		r.Class("stream count below 1")
		r.ClassIf(len(local) >= 1<<20, "stream count below 1 for a large file")
	}
	if c.Gone != 0 {
		args := []string{"diff", "local", "ref.gosync"}
		for i := 0; i < 2; i++ {
			if c.Gone>>i&1 > 0 {
				args[1+i] = "missing"
			}
		}
		res := cli.Run(dir, c.CPU, args...)
		if res.Hung != "" || res.Crashed() || res.OK() {
			return vh.Failf("%v although a file does not exist", res)
		}
		r.Class("missing file")
	}
	if c.Dir&3 != 0 {
		vh.Must(os.MkdirAll(filepath.Join(dir, "d", "files"), 0o755))
		vh.Must(os.Symlink("d", filepath.Join(dir, "link")))
		args := []string{"diff"}
		if len(c.P) > 0 && c.P[0] > 0 {
			args = append(args, "-p", strconv.Itoa(c.P[0]))
		}
		args = append(args, "local", "ref.gosync")
		for i := 0; i < 2; i++ {
			if c.Dir>>i&1 > 0 {
				args[len(args)-2+i] = []string{"d", "link"}[c.Dir>>2]
			}
		}
		res := cli.Run(dir, c.CPU, args...)
		if res.Hung != "" || res.Crashed() || res.OK() {
			return vh.Failf("%v although a file cannot be read, it is a directory", res)
		}
		r.Class("directory instead of a file")
	}
	for _, p := range c.P {
		args := []string{"diff"}
		if p > 0 {
			args = append(args, "-p", strconv.Itoa(p))
		}
		args = append(args, "local", "ref.gosync")
		res := cli.Run(dir, c.CPU, args...)
		if !res.OK() || res.Crashed() {
			return vh.Failf("%v", res)
		}
		n := map[string]uint64{}
		for k, re := range line {
			m := re.FindStringSubmatch(res.Stdout)
			if m == nil {
				return vh.Failf("%v: no %q in its output: %s", res, re, res.Stdout)
			}
			x, err := strconv.ParseUint(m[1], 10, 64)
			if err != nil {
				return vh.Failf("%v: %v", res, err)
			}
			n[k] = x
		}
		if n["total"] != uint64(total) {
			return vh.Failf("%v: reports %d blocks in the index, there are %d", res, n["total"], total)
		}
		if n["missing"]%uint64(bs) != 0 || n["matched"]+n["missing"]/uint64(bs) != uint64(total) || n["bytes"] != n["matched"]*uint64(bs) {
			return vh.Failf("%v: the reported amounts do not add up to %d blocks of %d bytes: %v", res, total, bs, n)
		}
		if m := int(n["matched"]); m < lo || m > hi {
			return vh.Failf("%v: reports %d matched blocks of %d, the local file of %d bytes contains between %d and %d (block size %d, reference of %d bytes)", res, m, total, len(local), lo, hi, bs, len(ref))
		}
		if err := statistics(res.Stdout, ref, local, bs, r); err != nil {
			return vh.Failf("%v: %v", res, err)
		}
		r.ClassIf(p != 1 && len(local) >= 1<<20, "several streams")
	}
	if got := cli.Read(filepath.Join(dir, "local")); !bytes.Equal(got, local) {
		return vh.Failf("comparing changed the local file")
	}
	r.ClassIf(exact, "distinct blocks, no overlaps")
	r.ClassIf(c.Same, "identical")
	r.ClassIf(hi == 0, "nothing to match")
	r.ClassIf(lo > 0 && hi < total, "some matched, some missing")
	r.ClassIf(len(ref)%bs != 0, "short last block")
	if (exact || c.Same) && lo > 0 {
		r.NonTrivial()
	}
	return nil
}

// bounds returns how many reference blocks at least and at most can be found.
func bounds(ref, local []byte, bs int) (lo, hi int, exact bool) {
	full := len(ref) / bs
	ids := make(map[string]int, full)
	times := map[string]int{}
	for i := 0; i < full; i++ {
		b := string(ref[i*bs : (i+1)*bs])
		times[b]++
		ids[b] = i
	}
	// occurrences, by the first bytes to stay linear
	k := min(bs, 8)
	first := map[string][]string{}
	for b := range ids {
		first[b[:k]] = append(first[b[:k]], b)
	}
	found := map[string]bool{}
	lastPos := -bs
	overlap := false
	for p := 0; p+bs <= len(local); p++ {
		for _, b := range first[string(local[p:p+k])] {
			if string(local[p:p+bs]) == b {
				found[b] = true
				if p < lastPos+bs {
					overlap = true
				}
				lastPos = p
			}
		}
	}
	for b := range found {
		hi += times[b]
	}
	exact = !overlap && len(times) == full
	if exact {
		lo = hi
	}
	if n := len(ref) % bs; n > 0 {
		tail := ref[len(ref)-n:]
		if bytes.Contains(local, tail) && len(local) >= n {
			hi++
		}
		if exact && len(local) >= bs && bytes.HasSuffix(local, tail) && lastPos+bs <= len(local)-n {
			lo++
		}
	}
	return
}

// giant is a local file of more than 2 or 4 GiB on disk, almost all of which is a hole.
type giant struct {
	BS   int     `json:"bs"`
	N    int64   `json:"n"`
	At   []int64 `json:"at"`
	Seed uint64  `json:"seed"`
	Miss int     `json:"miss"`
	P    int     `json:"p"`
}

func genGiant(t *rapid.T) giant {
	// zeros have the same weak checksum at any length, so that each window at the
	// end of a stream is hashed: only a small block size is feasible
	c := giant{BS: 10000 + gen.Pos(t, 10000, "bs"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	c.N = rapid.SampledFrom([]int64{1<<31 + 1<<25, 1<<32 + 1<<27, 1<<32 + 1<<28, 1<<32 + 1<<28}).Draw(t, "n") + int64(gen.Pos(t, 1<<24, "more"))
	c.P = rapid.SampledFrom([]int{0, 1, 40, 60, 100}).Draw(t, "p")
	c.Miss = rapid.IntRange(0, 2).Draw(t, "miss")
	for i, k := 0, rapid.IntRange(1, 5).Draw(t, "pieces"); i < k; i++ {
		if rapid.Bool().Draw(t, "near") {
			c.At = append(c.At, c.N>>31<<31+rapid.Int64Range(-2*int64(c.BS), 2*int64(c.BS)).Draw(t, "at"))
		} else {
			c.At = append(c.At, rapid.Int64Range(0, c.N).Draw(t, "at"))
		}
	}
	c.At = append(c.At, c.N-int64(c.BS)-int64(gen.Pos(t, 2000, "last")))
	return c
}

func runGiant(c giant, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	bs := int64(c.BS)
	f, err := os.Create(filepath.Join(dir, "large"))
	vh.Must(err)
	defer f.Close()
	vh.Must(f.Truncate(c.N))
	at := append([]int64{}, c.At...)
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	ref := make([]byte, bs)
	end, matched := int64(0), 1
	for i, p := range at {
		if p = max(p, end); p+bs > c.N {
			break
		}
		d := gen.Expand(c.Seed*64+uint64(i)+1, c.BS)
		_, err := f.WriteAt(d, p)
		vh.Must(err)
		end = p + bs
		ref = append(ref, d...)
		matched++
		r.ClassIf(p > 1<<32, "data beyond 4 GiB")
	}
	for i := 0; i < c.Miss; i++ {
		ref = append(ref, gen.Expand(c.Seed*64+40+uint64(i), c.BS)...)
	}
	cli.Write(filepath.Join(dir, "ref"), ref)
	o := cli.Options{Seconds: 400}
	if res := o.Run(dir, "build", "--blocksize", strconv.Itoa(c.BS), "ref"); !res.OK() {
		return vh.Failf("%v", res)
	}
	args := []string{"diff"}
	if c.P > 0 {
		args = append(args, "-p", strconv.Itoa(c.P))
	}
	res := o.Run(dir, append(args, "large", "ref.gosync")...)
	if !res.OK() {
		return vh.Failf("%v", res)
	}
	m := line["matched"].FindStringSubmatch(res.Stdout)
	if m == nil || m[1] != strconv.Itoa(matched) {
		return vh.Failf("%v: %d blocks of a file of %d bytes match (block size %d), it reports %v", res, matched, c.N, bs, m)
	}
	if c.N > 1<<32 {
		r.NonTrivial()
	}
	return nil
}

// absent is the index of a file of gigabytes or more of which the local file
// has a few blocks. The checksums of the others are made up.
type absent struct {
	BS   int    `json:"bs"`
	N    int    `json:"n"`   // blocks
	Has  []int  `json:"has"` // those that the local file has
	Seed uint64 `json:"seed"`
}

func genAbsent(t *rapid.T) absent {
	c := absent{Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	if rapid.IntRange(0, 2).Draw(t, "huge") == 0 {
		c.BS = 1<<rapid.IntRange(24, 32).Draw(t, "bits") - 1 - gen.Pos(t, 1000000, "below")
		c.N = rapid.IntRange(1, 3000).Draw(t, "n")
		return c
	}
	c.BS = 65536 + gen.Pos(t, 200000, "bs")
	c.N = 1000 + gen.Pos(t, 60000, "n")
	for i, k := 0, rapid.IntRange(0, 4).Draw(t, "has"); i < k; i++ {
		c.Has = append(c.Has, gen.Pos(t, c.N-1, "block"))
	}
	return c
}

func runAbsent(c absent, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	cli.Write(filepath.Join(dir, "e.x"), nil)
	res := cli.Run(dir, 0, "build", "e.x")
	ix := cli.Read(filepath.Join(dir, "e.gosync"))
	if !res.OK() || len(ix) != oracle.HeaderSize {
		return vh.Failf("building the index of an empty file: %v, %d bytes", res, len(ix))
	}
	binary.LittleEndian.PutUint64(ix[12:], uint64(c.BS)*uint64(c.N))
	binary.LittleEndian.PutUint32(ix[20:], uint32(c.BS))
	ix = append(ix, gen.Expand(c.Seed, c.N*oracle.EntrySize)...)
	has := map[int]bool{}
	var local []byte
	for i, b := range c.Has {
		if has[b] {
			continue
		}
		has[b] = true
		d := gen.Expand(c.Seed+1+uint64(i), c.BS)
		local = append(local, d...)
		copy(ix[oracle.HeaderSize+b*oracle.EntrySize:], append(append([]byte{}, oracle.Weak(d)...), oracle.MD5(d)...))
	}
	if len(has) == 0 {
		local = gen.Expand(c.Seed+1, 1000)
	}
	cli.Write(filepath.Join(dir, "ref.gosync"), ix)
	cli.Write(filepath.Join(dir, "local"), local)
	res = cli.Run(dir, 0, "diff", "-p", "1", "local", "ref.gosync")
	if !res.OK() {
		return vh.Failf("%v", res)
	}
	for k, want := range map[string]uint64{
		"matched": uint64(len(has)), "total": uint64(c.N),
		"missing": uint64(c.N-len(has)) * uint64(c.BS), "bytes": uint64(len(has)) * uint64(c.BS),
	} {
		m := line[k].FindStringSubmatch(res.Stdout)
		if m == nil || m[1] != strconv.FormatUint(want, 10) {
			return vh.Failf("%v: %d of %d blocks of %d bytes match, but it reports %v (%s)", res, len(has), c.N, c.BS, m, k)
		}
	}
	r.ClassIf(len(has) > 0, "some matched")
	if uint64(c.N-len(has))*uint64(c.BS) > 1<<32 {
		r.NonTrivial()
	}
	return nil
}

// whole is a local file of more than 2 or 4 GiB on disk, of which only the last
// block has data and all is in the index. The last block is what keeps every window
// at the end of the stream from being hashed, so that there has to be one stream.
type whole struct {
	BS   int `json:"bs"`
	N    int `json:"n"`    // blocks of the local file
	More int `json:"more"` // blocks of the index that it does not have
}

func genWhole(t *rapid.T) whole {
	c := whole{BS: 1<<25 + rapid.IntRange(0, 1<<24).Draw(t, "bs")}
	// not always that large, since it takes a minute
	n := rapid.SampledFrom([]int{1 << 28, 1 << 29, 1<<31 + 1<<25, 1<<32 + 1<<27}).Draw(t, "n")
	c.N = (n + c.BS - 1) / c.BS
	c.More = rapid.IntRange(0, 3).Draw(t, "more")
	return c
}

func runWhole(c whole, r *vh.Rec) error {
	dir, done := cli.Dir()
	defer done()
	size := int64(c.BS) * int64(c.N)
	f, err := os.Create(filepath.Join(dir, "large"))
	vh.Must(err)
	defer f.Close()
	vh.Must(f.Truncate(size))
	cli.Write(filepath.Join(dir, "sample"), []byte("x"))
	o := cli.Options{Seconds: 400}
	if res := o.Run(dir, "build", "--blocksize", strconv.Itoa(c.BS), "sample"); !res.OK() {
		return vh.Failf("%v", res)
	}
	ix := cli.Read(filepath.Join(dir, "sample.gosync"))
	if len(ix) < oracle.HeaderSize {
		return vh.Failf("the index has only %d bytes", len(ix))
	}
	ix = ix[:oracle.HeaderSize:oracle.HeaderSize]
	binary.LittleEndian.PutUint64(ix[12:], uint64(c.N+c.More)*uint64(c.BS))
	zero := make([]byte, c.BS)
	zero = append(oracle.Weak(zero), oracle.MD5(zero)...)
	for i := 1; i < c.N; i++ {
		ix = append(ix, zero...)
	}
	last := gen.Expand(uint64(c.N), c.BS)
	_, err = f.WriteAt(last, size-int64(c.BS))
	vh.Must(err)
	ix = append(append(ix, oracle.Weak(last)...), oracle.MD5(last)...)
	for i := 0; i < c.More; i++ {
		ix = append(ix, gen.Expand(uint64(i)+1, len(zero))...)
	}
	cli.Write(filepath.Join(dir, "ref.gosync"), ix)
	res := o.Run(dir, "diff", "-p", "1", "large", "ref.gosync")
	if !res.OK() {
		return vh.Failf("%v", res)
	}
	for what, want := range map[string]int64{"matched": int64(c.N), "bytes": size, "missing": int64(c.More) * int64(c.BS)} {
		m := line[what].FindStringSubmatch(res.Stdout)
		if m == nil || m[1] != strconv.FormatInt(want, 10) {
			return vh.Failf("%v: all of the %d blocks of a file of %d bytes match and %d do not (block size %d), it reports %v instead of %d", res, c.N, size, c.More, c.BS, m, want)
		}
	}
	if size > 1<<32 {
		r.NonTrivial()
	}
	return nil
}

const rule = "'gosync diff' on a generated local file and an index written by the oracle, with one or two stream counts; an independent search counts the reference blocks in the local file"

var check = &vh.Check{
	ID: "C21",
	Parts: []*vh.Part{
		vh.NewPart("small", rule+"; any content, including identical files; non-trivial: identical, or distinct blocks of which some occur", 150, 10000, false, small, run),
		vh.NewPart("pieces", rule+"; random references, local files made from pieces of them; non-trivial: distinct blocks of which some occur", 150, 10000, false, pieces(2, 60, 40, 0), run),
		vh.NewPart("streams", rule+"; as pieces, in files of more than 1 MiB, which the command splits into streams", 25, 1500, false, pieces(512, 16384, 80, 1200000), run),
		vh.NewPart("boundaries", rule+"; blocks that begin or end within a few bytes of where the file may be divided into streams, and of its ends", 20, 1500, false, boundaries, run),
		vh.NewPart("streams-huge", rule+"; as streams, with block sizes from 60000 to 200000", 4, 200, false, pieces(60000, 200000, 8, 1200000), run),
		vh.NewPart("block-sizes", rule+"; small files, block sizes around powers of two from 2^8 to 2^32-1; non-trivial: the index has blocks", 12, 600, false, sizes, func(c tc, r *vh.Rec) error {
			if len(c.Ref) > 0 && len(gen.Build(c.Ref, nil)) > 0 {
				r.NonTrivial()
			}
			return run(c, r)
		}),
		vh.NewPart("many", rule+"; references of 50000 to 110000 blocks, most of which occur; non-trivial: identical, or distinct blocks of which some occur", 2, 200, false, many, run),
		vh.NewPart("absent", "an index, with checksums that are made up, of up to terabytes, of which the local file has a few blocks; non-trivial: more than 4 GiB are missing", 10, 500, false, genAbsent, runAbsent),
		vh.NewPart("giant", "the same for a local file of more than 2 or 4 GiB, mostly a hole; non-trivial: more than 4 GiB", 1, 10, false, genGiant, runGiant),
		vh.NewPart("whole", "the same for a local file of more than 2 or 4 GiB all of which is in the index and almost all of which is a hole; non-trivial: more than 4 GiB", 1, 10, false, genWhole, runWhole),
		vh.NewPart("streams-identical", rule+"; identical files of more than 1 MiB, random or repetitive", 8, 500, false, sameLarge, run),
	},
	Procs:       2,
	Assumptions: []string{"a short last block is only looked for at the end of the local file or of a stream; elsewhere it may or may not be counted"},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
