package c15

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

// slow is a source whose server takes its time: good answers, however late.
type slow struct {
	BS   int   `json:"bs"`
	Wait []int `json:"wait"` // per block: tenths of a second; <0: in the middle of the answer
	Conc int   `json:"conc"`
}

func genSlow(t *rapid.T) slow {
	c := slow{BS: 2 + gen.Pos(t, 40000, "bs")}
	n := rapid.IntRange(2, 9).Draw(t, "n")
	for i := 0; i < n; i++ {
		w := rapid.SampledFrom([]int{0, 0, 2, 30, 110, 160}).Draw(t, "wait")
		if rapid.Bool().Draw(t, "mid") {
			w = -w
		}
		c.Wait = append(c.Wait, w)
	}
	c.Wait[rapid.IntRange(0, n-1).Draw(t, "late")] = rapid.SampledFrom([]int{-320, -320, 320}).Draw(t, "long")
	c.Conc = n + rapid.IntRange(0, 2).Draw(t, "more")
	return c
}

func runSlow(c slow, r *vh.Rec) error {
	n := len(c.Wait)
	data := gen.Expand(uint64(c.BS), n*c.BS)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var a, b int
		if _, err := fmt.Sscanf(q.Header.Get("Range"), "bytes=%d-%d", &a, &b); err != nil || a%c.BS != 0 || b != a+c.BS-1 || b >= len(data) {
			w.WriteHeader(http.StatusRequestedRangeNotSatisfiable)
			return
		}
		wait, mid := c.Wait[a/c.BS], 0
		if wait < 0 {
			wait, mid = -wait, c.BS/2
		}
		w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, len(data)))
		if mid > 0 {
			w.WriteHeader(http.StatusPartialContent)
			w.Write(data[a : a+mid])
			w.(http.Flusher).Flush()
		}
		time.Sleep(time.Duration(wait) * time.Second / 10)
		if mid == 0 {
			w.WriteHeader(http.StatusPartialContent)
		}
		w.Write(data[a+mid : b+1])
	}))
	defer srv.Close()
	src := blocksources.NewHttpBlockSource(srv.URL+"/x", c.Conc, &blocksources.FixedSizeBlockResolver{BlockSize: uint64(c.BS), FileSize: int64(len(data)), MaxDesiredRequestSize: 1}, nil)
	got := []byte{}
	var err error
	if !vh.RealTime(func() {
		err = src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: int64(c.BS), EndBlock: uint(n - 1)})
		for len(got) < len(data) && err == nil {
			select {
			case x, ok := <-src.GetResultChannel():
				if !ok {
					err = fmt.Errorf("result channel closed")
				}
				got = append(got, x.Data...)
			case err = <-src.EncounteredError():
			}
		}
		src.Close()
	}) {
		return vh.Failf("good responses within 32 seconds, but the source delivers only %d of %d bytes", len(got), len(data))
	}
	if err != nil {
		return vh.Failf("good responses within 32 seconds, but the source reports: %v", err)
	}
	if !bytes.Equal(got, data) {
		return vh.Failf("good responses within 32 seconds, but the source delivers other bytes")
	}
	r.NonTrivial()
	return nil
}
