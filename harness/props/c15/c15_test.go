package c15

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

// answer is what the server does for one range.
type answer struct {
	Status  int    `json:"status"`
	Body    int    `json:"body,omitempty"`    // body length minus requested length
	Framing string `json:"framing"`           // length, chunked, close
	Declare int    `json:"declare,omitempty"` // Content-Length minus body length; chunked: <0 unterminated
	Enc     string `json:"enc,omitempty"`
	Drop    bool   `json:"drop,omitempty"`  // close the connection without answering
	Move    bool   `json:"move,omitempty"`  // redirect first
	Moved   int    `json:"moved,omitempty"` // with that status instead of 302
	Pieces  int    `json:"pieces,omitempty"`
	Endless bool   `json:"endless,omitempty"` // announces more, which does not come; the connection stays open
}

func (a answer) good() bool {
	if a.Drop || a.Status != 206 || strings.Contains(a.Enc, "gzip") {
		return false
	}
	if a.Framing != "close" && a.Declare != 0 && !(a.Framing == "length" && a.Declare < 0) {
		return false
	}
	return a.effective() == 0
}

// effective is the body length a client sees, minus the requested length.
func (a answer) effective() int {
	if a.Framing == "length" && a.Declare < 0 {
		return a.Body + a.Declare
	}
	return a.Body
}

type req struct {
	Start  int    `json:"start"`
	N      int    `json:"n"`
	Answer answer `json:"answer"`
}

type tc struct {
	BS      int   `json:"bs"`
	Size    int   `json:"size"`
	Unknown bool  `json:"unknown,omitempty"` // the source is not told the file size
	Conc    int   `json:"conc"`
	First   int   `json:"first,omitempty"` // number of the first block that may be asked for
	Query   bool  `json:"query,omitempty"` // the URL has a query
	User    bool  `json:"user,omitempty"`  // and a name and password
	Reqs    []req `json:"reqs"`            // ascending, disjoint
}

func genAnswer(t *rapid.T, want int, allGood bool) answer {
	a := answer{Status: 206, Framing: rapid.SampledFrom([]string{"length", "chunked", "close"}).Draw(t, "framing"), Pieces: rapid.IntRange(1, 3).Draw(t, "pieces")}
	a.Move = rapid.IntRange(0, 9).Draw(t, "move") == 0
	if a.Move {
		a.Moved = rapid.SampledFrom([]int{0, 301, 303, 307, 308}).Draw(t, "moved")
	}
	if allGood {
		return a
	}
	delta := func(label string) int {
		return rapid.SampledFrom([]int{1, -1, 2, -2, -want, want, 100, -want / 2}).Draw(t, label)
	}
	switch rapid.SampledFrom([]string{"good", "status", "body", "declare", "gzip", "drop", "both"}).Draw(t, "bad") {
	case "status":
		a.Status = rapid.SampledFrom([]int{200, 404, 416, 500, 403, 410, 503, 203, 207, 400}).Draw(t, "status")
		if rapid.Bool().Draw(t, "other length") {
			a.Body = max(-want, delta("body"))
		}
	case "body":
		a.Body = max(-want, delta("body"))
	case "declare":
		a.Framing = rapid.SampledFrom([]string{"length", "chunked"}).Draw(t, "framing")
		a.Declare = rapid.SampledFrom([]int{1, -1, 2, -2, 100}).Draw(t, "declare")
	case "both": // what arrives has the right length, but something is wrong
		a.Framing = "length"
		a.Body = rapid.SampledFrom([]int{1, -1, 3}).Draw(t, "body")
		a.Declare = -a.Body
	case "gzip":
		a.Enc = rapid.SampledFrom([]string{"gzip", "x-gzip", "identity, gzip", "identity"}).Draw(t, "enc")
	case "drop":
		a.Drop = true
	}
	if a.Framing == "length" {
		a.Body = max(-want, a.Body)
		a.Declare = max(a.Declare, -(want + a.Body))
	}
	if a.Framing == "chunked" && a.Declare > 0 {
		a.Declare = -1
	}
	// only where what has come is enough to tell that it is not right
	if (a.Status != 206 || a.Enc == "gzip" || a.Body > 0) && a.Declare == 0 && !a.Drop && rapid.IntRange(0, 2).Draw(t, "endless") == 0 {
		a.Endless = true
		if a.Framing == "length" {
			a.Declare = 1 << 40
		} else if a.Framing == "chunked" {
			a.Declare = -1
		}
	}
	return a
}

func genCase(t *rapid.T) tc {
	c := tc{BS: 1 + gen.Pos(t, 40, "bs")}
	blocks := 1 + gen.Pos(t, 20, "blocks")
	if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
		c.BS = rapid.SampledFrom([]int{511, 512, 4096, 16385, 65536, 70001}).Draw(t, "bigBS")
		blocks = 1 + blocks%4
		if rapid.IntRange(0, 7).Draw(t, "huge") == 0 { // responses of some MB
			c.BS = rapid.SampledFrom([]int{1 << 20, 1<<20 - 1, 1<<20 + 1, 700000}).Draw(t, "hugeBS")
			blocks = 4
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
		c.First = 1<<rapid.SampledFrom([]uint{8, 16, 31, 32, 40}).Draw(t, "first") - rapid.IntRange(0, 3).Draw(t, "before")
	}
	c.Size = (c.First+blocks)*c.BS - rapid.IntRange(0, c.BS-1).Draw(t, "tail")
	c.Unknown = rapid.IntRange(0, 4).Draw(t, "unknown") == 0
	c.Conc = rapid.IntRange(1, 3).Draw(t, "conc")
	switch rapid.IntRange(0, 11).Draw(t, "address") {
	case 0:
		c.Query = true
	case 1:
		c.User = true
	case 2:
		c.Query, c.User = true, true
	}
	next := 0
	n := rapid.IntRange(1, 3).Draw(t, "reqs")
	good := rapid.IntRange(0, 2).Draw(t, "allGood") == 0
	for i := 0; i < n && next < blocks; i++ {
		r := req{Start: next + gen.Pos(t, blocks-1-next, "start")}
		r.N = 1 + gen.Pos(t, min(6, blocks-1-r.Start), "n")
		next = r.Start + r.N
		a, b := c.rng(r)
		r.Answer = genAnswer(t, b-a, good)
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

// rng is the byte range of the request.
func (c tc) rng(r req) (int, int) {
	a, b := (c.First+r.Start)*c.BS, (c.First+r.Start+r.N)*c.BS
	if !c.Unknown {
		b = min(b, c.Size)
	}
	return a, b
}

// server is a raw loopback server, shared by all cases of a shard.
type server struct {
	mu    sync.Mutex
	bases []string // several ports: closed connections occupy theirs for a while
	cases map[string]*running
	n     int
}

type running struct {
	c     tc
	bad   []string // violations seen in requests
	moved map[string]bool
	hits  int
}

var srv = sync.OnceValue(func() *server {
	s := &server{cases: map[string]*running{}}
	for i := 0; i < 16; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		vh.Must(err)
		s.bases = append(s.bases, "http://"+l.Addr().String())
		go func() {
			for {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				go s.serve(conn)
			}
		}()
	}
	return s
})

func (s *server) serve(conn net.Conn) {
	defer conn.Close()
	rd := bufio.NewReader(conn)
	for {
		hr, err := http.ReadRequest(rd)
		if err != nil {
			return
		}
		out, keep, wait := s.answer(hr)
		if out == nil {
			return
		}
		_, err = conn.Write(out)
		if wait {
			rd.ReadByte() // until the client has closed the connection
		}
		if err != nil || !keep {
			return
		}
	}
}

const query = "a=b%20c&d=http://e/;f"

// body is what the server sends for a range: a pure function of it.
func body(start, n int) []byte { return gen.Expand(uint64(start)+5, n) }

func (s *server) answer(hr *http.Request) (out []byte, keep, wait bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	rc := s.cases[strings.TrimSuffix(hr.URL.Path, "/moved")]
	if rc == nil {
		return []byte("HTTP/1.1 500 no such case\r\nContent-Length: 0\r\n\r\n"), true, false
	}
	rc.hits++
	rg := hr.Header.Values("Range")
	var found *req
	for i, r := range rc.c.Reqs {
		a, b := rc.c.rng(r)
		if len(rg) == 1 && strings.ReplaceAll(rg[0], " ", "") == fmt.Sprintf("bytes=%d-%d", a, b-1) {
			found = &rc.c.Reqs[i]
		}
	}
	if found == nil {
		rc.bad = append(rc.bad, fmt.Sprintf("request with Range %q matches none of the requested spans", rg))
		return []byte("HTTP/1.1 400 bad range\r\nContent-Length: 0\r\n\r\n"), true, false
	}
	if hr.Method != "GET" {
		rc.bad = append(rc.bad, "request method "+hr.Method)
	}
	if ae := strings.Join(hr.Header.Values("Accept-Encoding"), ","); !strings.Contains(ae, "identity") || strings.Contains(ae, "gzip") || strings.Contains(ae, "deflate") || strings.Contains(ae, "*") {
		rc.bad = append(rc.bad, fmt.Sprintf("request asks for Accept-Encoding %q, want identity", ae))
	}
	a := found.Answer
	if !strings.HasSuffix(hr.URL.Path, "/moved") {
		if q := hr.URL.RawQuery; rc.c.Query != (q == query) || !rc.c.Query && q != "" {
			rc.bad = append(rc.bad, fmt.Sprintf("request with the query %q", q))
		}
		if u, p, is := hr.BasicAuth(); is != rc.c.User || is && (u != "me@home" || p != "a:b/c") {
			rc.bad = append(rc.bad, fmt.Sprintf("request for the user %q with password %q", u, p))
		}
	}
	if a.Move && !strings.HasSuffix(hr.URL.Path, "/moved") {
		code := "302"
		if a.Moved != 0 {
			code = strconv.Itoa(a.Moved)
		}
		return []byte("HTTP/1.1 " + code + " Found\r\nLocation: " + hr.URL.Path + "/moved\r\nContent-Length: 0\r\n\r\n"), true, false
	}
	if a.Drop {
		return nil, false, false
	}
	start, end := rc.c.rng(*found)
	b := body(start, end-start+a.Body)
	var w bytes.Buffer
	fmt.Fprintf(&w, "HTTP/1.1 %d Status\r\n", a.Status)
	if a.Enc != "" {
		fmt.Fprintf(&w, "Content-Encoding: %s\r\n", a.Enc)
	}
	if a.Status == 206 {
		fmt.Fprintf(&w, "Content-Range: bytes %d-%d/%d\r\n", start, end-1, rc.c.Size)
	}
	keep = a.Declare == 0 && a.Framing != "close"
	if !keep {
		w.WriteString("Connection: close\r\n")
	}
	switch a.Framing {
	case "length":
		fmt.Fprintf(&w, "Content-Length: %d\r\n\r\n", len(b)+a.Declare)
		w.Write(b)
	case "close":
		w.WriteString("\r\n")
		w.Write(b)
	case "chunked":
		w.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		step := max(1, (len(b)+a.Pieces-1)/a.Pieces)
		for i := 0; i < len(b); i += step {
			p := b[i:min(len(b), i+step)]
			w.WriteString(strconv.FormatInt(int64(len(p)), 16) + "\r\n")
			w.Write(p)
			w.WriteString("\r\n")
		}
		if a.Declare == 0 {
			w.WriteString("0\r\n\r\n")
		}
	}
	return w.Bytes(), keep, a.Endless
}

func run(c tc, r *vh.Rec) error {
	if len(c.Reqs) == 0 {
		return nil
	}
	s := srv()
	s.mu.Lock()
	s.n++
	path, base := "/"+strconv.Itoa(s.n), s.bases[s.n%len(s.bases)]
	rc := &running{c: c, moved: map[string]bool{}}
	s.cases[path] = rc
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.cases, path)
		s.mu.Unlock()
	}()

	var res blocksources.BlockSourceOffsetResolver
	if c.Unknown {
		res = blocksources.MakeNullFixedSizeResolver(uint64(c.BS))
	} else {
		res = blocksources.MakeFileSizedBlockResolver(uint64(c.BS), int64(c.Size))
	}
	address := base + path
	if c.Query {
		address += "?" + query
	}
	if c.User {
		address = strings.Replace(address, "//", "//me%40home:a:b%2Fc@", 1)
	}
	r.ClassIf(c.Query, "URL with a query")
	r.ClassIf(c.User, "URL with a user")
	src := blocksources.NewHttpBlockSource(address, c.Conc, res, nil)

	allGood := true
	for _, q := range c.Reqs {
		allGood = allGood && q.Answer.good()
	}
	var got []patcher.BlockReponse
	var serr error
	if !vh.RealTime(func() {
		for _, q := range c.Reqs {
			if src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(c.BS), StartBlock: uint(c.First + q.Start), EndBlock: uint(c.First + q.Start + q.N - 1)}) != nil {
				break
			}
		}
		for len(got) < len(c.Reqs) && serr == nil {
			select {
			case x, ok := <-src.GetResultChannel():
				if !ok {
					serr = errors.New("result channel closed")
				} else {
					got = append(got, x)
				}
			case e, ok := <-src.EncounteredError():
				if !ok {
					serr = errors.New("error channel closed")
				} else {
					serr = e
				}
			}
		}
		src.Close()
	}) {
		return vh.Failf("no answer from the source although the server answered everything")
	}
	s.mu.Lock()
	bad, hits := append([]string{}, rc.bad...), rc.hits
	s.mu.Unlock()
	sort.Strings(bad)
	if len(bad) > 0 {
		return vh.Failf("%s", strings.Join(bad, "; "))
	}
	if hits == 0 {
		return vh.Failf("nothing was requested from the server (%v)", serr)
	}
	for _, g := range got {
		ok := false
		for _, q := range c.Reqs {
			if uint(c.First+q.Start) != g.StartBlock {
				continue
			}
			a, b := c.rng(q)
			if !q.Answer.good() {
				return vh.Failf("data (%d bytes, requested were %d) was delivered for a bad response %+v", len(g.Data), b-a, q.Answer)
			}
			if !bytes.Equal(g.Data, body(a, b-a)) {
				return vh.Failf("delivered data differs from the response body: %d bytes, the body has %d", len(g.Data), b-a)
			}
			ok = true
		}
		if !ok {
			return vh.Failf("unrequested block %d delivered", g.StartBlock)
		}
	}
	if allGood && serr != nil {
		return vh.Failf("good responses, but the source reports: %v", serr)
	}
	if !allGood && serr == nil {
		return vh.Failf("a bad response was not reported")
	}
	kinds := map[string]bool{}
	only404 := true
	for _, q := range c.Reqs {
		a := q.Answer
		switch {
		case a.good():
			kinds["good "+a.Framing] = true
		case a.Drop:
			kinds["no response"] = true
		case a.Status != 206:
			kinds[fmt.Sprintf("status %d", a.Status)] = true
		case a.Enc != "":
			kinds["compressed"] = true
		case !a.Endless && a.Framing != "close" && (a.Declare > 0 || a.Framing == "chunked" && a.Declare != 0):
			kinds["cut off"] = true
		case a.effective() < 0:
			kinds["short body"] = true
		default:
			kinds["long body"] = true
		}
		if !a.good() && (a.Drop || a.Status != 404 || a.Declare != 0 && !a.Endless) {
			only404 = false
		}
		r.ClassIf(a.Move, "redirected")
		r.ClassIf(a.Endless, "endless body")
	}
	if _, is := serr.(blocksources.URLNotFoundError); only404 && !allGood && !is {
		return vh.Failf("a missing document is reported as %T: %v", serr, serr)
	}
	for k := range kinds {
		r.Class(k)
	}
	r.ClassIf(c.First > 0, "high block numbers")
	r.ClassIf(c.BS > 500, "large blocks")
	_, end := c.rng(c.Reqs[len(c.Reqs)-1])
	r.ClassIf(end == c.Size && c.Size%c.BS != 0, "clipped to the file size")
	if !allGood || len(c.Reqs) > 1 {
		r.NonTrivial()
	}
	return nil
}

// addresses at which there is nothing
type ac struct {
	URL string `json:"url"`
	N   int    `json:"n"`
	S   int    `json:"s"` // spans
}

func genAddr(t *rapid.T) ac {
	c := ac{N: rapid.IntRange(1, 5).Draw(t, "n"), S: rapid.IntRange(1, 3).Draw(t, "s")}
	c.URL = rapid.SampledFrom([]string{
		"", ":", "no scheme", "relative/path", "/etc/hostname", "http://", "http:///x", "http://[::1", "http://127.0.0.1:port/", "http://127.0.0.1:99999/",
		"ht tp://x/", "\x00", "http://127.0.0.1:1/", "https://127.0.0.1:1/", "http://127.0.0.1/%zz", "file:///etc/hostname", "ftp://127.0.0.1:1/", "://", "http://127.0.0.1:1/\n", "%",
	}).Draw(t, "url")
	if rapid.Bool().Draw(t, "more") {
		c.URL += rapid.StringN(0, 6, 12).Draw(t, "suffix")
	}
	return c
}

func runAddr(c ac, r *vh.Rec) error {
	if strings.HasPrefix(c.URL, "http") { // nothing but the addresses above
		u, err := url.Parse(c.URL)
		if err == nil && u.Host != "" && u.Host != "127.0.0.1:1" && u.Port() != "99999" {
			return nil
		}
	}
	src := blocksources.NewHttpBlockSource(c.URL, 2, blocksources.MakeFileSizedBlockResolver(4, 400), nil)
	var serr error
	got := 0
	if !vh.RealTime(func() {
		for i := 0; i < c.S; i++ {
			if src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: 4, StartBlock: uint(10 * i), EndBlock: uint(10*i + c.N - 1)}) != nil {
				break
			}
		}
		for serr == nil && got == 0 {
			select {
			case _, ok := <-src.GetResultChannel():
				if ok {
					got++
				}
			case serr = <-src.EncounteredError():
				if serr == nil {
					got = -1
				}
			}
		}
		src.Close()
	}) {
		return vh.Failf("no answer from the source at address %q", c.URL)
	}
	if got > 0 {
		return vh.Failf("data was delivered from the address %q", c.URL)
	}
	if serr == nil {
		return vh.Failf("no error was reported for the address %q", c.URL)
	}
	if _, is := serr.(blocksources.URLNotFoundError); is {
		return vh.Failf("the address %q is reported as a missing document", c.URL)
	}
	_, err := http.NewRequest("GET", c.URL, nil)
	r.ClassIf(err != nil, "not a URL")
	r.NonTrivial()
	return nil
}

var check = &vh.Check{
	ID: "C15",
	Parts: []*vh.Part{
		vh.NewPart("responses", "one to three spans requested from a raw loopback server whose response to each is generated: status, body length relative to the request, content length, chunked or connection-delimited framing, cut connections, bodies that do not end, compression header, redirects; large blocks and block numbers; non-trivial: a bad response or several spans", 12000, 60000, false, genCase, run),
		vh.NewPart("addresses", "spans requested from an address that names no server: not a URL, a URL of another kind, or a port at which nothing listens; every case is non-trivial", 200, 10000, false, genAddr, runAddr),
		vh.NewPart("slow", "blocks requested from a server that gives good responses, one of them after half a minute, or with a pause of that length in the middle; every case is non-trivial", 1, 12, false, genSlow, runSlow),
	},
	Procs: 4,
	Assumptions: []string{
		"a 206 response of the requested length is taken to be the requested range; wrong content is the verifier's business (C12, C02)",
		"real time and loopback sockets are used, so schedules are those that occur",
	},
}

func TestMain(m *testing.M)  { vh.Main(m, check) }
func TestCheck(t *testing.T) { vh.RunChild(t) }
