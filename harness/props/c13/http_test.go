package c13

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"net"
	"net/http"
	"strconv"
	"sync"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/oracle"
	"verif/vh"
)

// span is a run of blocks.
type span struct {
	A int `json:"a"`
	N int `json:"n"`
}

type hc struct {
	BS    int    `json:"bs"`
	N     int    `json:"n"` // bytes in the file
	Conc  int    `json:"conc"`
	Split int    `json:"split"` // blocks per request
	Spans []span `json:"spans"`
	Order []int  `json:"order"` // which of the open requests is answered next
}

func genHTTP(t *rapid.T) hc {
	c := hc{BS: rapid.IntRange(1, 40).Draw(t, "bs"), Conc: rapid.IntRange(1, 6).Draw(t, "conc"), Split: rapid.IntRange(1, 4).Draw(t, "split")}
	for at := 0; len(c.Spans) < 8; {
		s := span{A: at + rapid.IntRange(0, 3).Draw(t, "gap"), N: rapid.IntRange(1, 6).Draw(t, "len")}
		at = s.A + s.N
		c.Spans = append(c.Spans, s)
		c.N = at*c.BS - rapid.IntRange(0, c.BS-1).Draw(t, "tail")
		if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			break
		}
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 12).Draw(t, "order")
	return c
}

// server answers only when as many requests are open as there may be.
type server struct {
	mu   sync.Mutex
	url  string
	path string
	c    hc
	file []byte
	open []chan struct{}
	left int // requests that have not been answered
	n    int
	most int
}

var srv = sync.OnceValue(func() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := &server{url: "http://" + l.Addr().String()}
	go http.Serve(l, s)
	http.DefaultTransport.(*http.Transport).IdleConnTimeout = time.Hour
	return s
})

// next lets requests go on if enough are open; s.mu is held.
func (s *server) next() {
	for len(s.open) > 0 && len(s.open) >= min(s.c.Conc, s.left) {
		i := s.c.Order[s.n%len(s.c.Order)] % len(s.open)
		s.n++
		close(s.open[i])
		s.open = append(s.open[:i:i], s.open[i+1:]...)
		s.left--
	}
}

func (s *server) ServeHTTP(w http.ResponseWriter, rq *http.Request) {
	s.mu.Lock()
	if rq.URL.Path != s.path {
		s.mu.Unlock()
		w.WriteHeader(500) // of an earlier case
		return
	}
	file := s.file
	ch := make(chan struct{})
	s.open = append(s.open, ch)
	s.most = max(s.most, len(s.open))
	s.next()
	s.mu.Unlock()
	<-ch
	var a, b int
	fmt.Sscanf(rq.Header.Get("Range"), "bytes=%d-%d", &a, &b)
	a, b = max(0, a), min(b+1, len(file))
	if a >= b {
		w.WriteHeader(416)
		return
	}
	w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b-1, len(file)))
	w.Header().Set("Content-Length", strconv.Itoa(b-a))
	w.WriteHeader(206)
	w.Write(file[a:b])
}

type lookup struct {
	file []byte
	bs   int
}

func (l lookup) GetStrongChecksumForBlock(i int) []byte {
	return oracle.MD5(l.file[min(len(l.file), i*l.bs):min(len(l.file), (i+1)*l.bs)])
}

var caseNo int

func runHTTP(c hc, r *vh.Rec) error {
	file := gen.Expand(uint64(c.N), c.N)
	s := srv()
	caseNo++
	requests, blocks := 0, 0
	for _, p := range c.Spans {
		requests += (p.N + c.Split - 1) / c.Split
		blocks += p.N
	}
	s.mu.Lock()
	s.path, s.c, s.file, s.open, s.left, s.n, s.most = "/"+strconv.Itoa(caseNo), c, file, nil, requests, 0, 0
	url := s.url + s.path
	s.mu.Unlock()

	src := blocksources.NewHttpBlockSource(url, c.Conc,
		&blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.BS), FileSize: int64(len(file)), MaxDesiredRequestSize: uint64(c.Split * c.BS)},
		&filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(c.BS), BlockChecksumGetter: lookup{file, c.BS}})
	var fail error
	bytesGot := int64(0)
	ended := vh.RealTime(func() {
		for _, p := range c.Spans {
			if err := src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(c.BS), StartBlock: uint(p.A), EndBlock: uint(p.A + p.N - 1)}); err != nil {
				fail = vh.Failf("RequestBlocks: %v", err)
				return
			}
		}
		for _, p := range c.Spans {
			for at := p.A; at < p.A+p.N; {
				select {
				case resp := <-src.GetResultChannel():
					if resp.StartBlock != uint(at) {
						fail = vh.Failf("block %d was delivered, expected block %d", resp.StartBlock, at)
						return
					}
					o := at * c.BS
					if len(resp.Data) == 0 || o+len(resp.Data) > len(file) || !bytes.Equal(resp.Data, file[o:o+len(resp.Data)]) {
						fail = vh.Failf("wrong data for block %d", at)
						return
					}
					at += (len(resp.Data) + c.BS - 1) / c.BS
					bytesGot += int64(len(resp.Data))
				case err := <-src.EncounteredError():
					fail = vh.Failf("error %v although the server answers every request", err)
					return
				}
			}
		}
	})
	s.mu.Lock()
	defer s.mu.Unlock()
	if !ended {
		return vh.Failf("stuck: %d requests are open and the server waits until there are %d", len(s.open), min(c.Conc, s.left))
	}
	if fail != nil {
		return fail
	}
	if s.most > c.Conc {
		return vh.Failf("%d requests at once, allowed are %d", s.most, c.Conc)
	}
	if n := src.ReadBytes(); n != bytesGot {
		return vh.Failf("ReadBytes %d, delivered were %d bytes", n, bytesGot)
	}
	if !vh.RealTime(func() { src.Close() }) {
		return vh.Failf("closing does not end")
	}
	r.ClassIf(s.most > 1, "requests at once")
	r.ClassIf(s.most > 2, "more than two at once")
	if s.most > 1 {
		r.NonTrivial()
	}
	return nil
}
