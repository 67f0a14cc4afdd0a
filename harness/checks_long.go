package main

import (
	"fmt"
	"io"
	"net/http"
	"strconv"
	"sync"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

type slowReader struct {
	nap  time.Duration
	left int
}

func (s *slowReader) Read(p []byte) (int, error) {
	time.Sleep(s.nap)
	if s.left == 0 {
		return 0, io.EOF
	}
	s.left--
	p[0] = 'x'
	return 1, nil
}

// longCases: requests that take seconds, in the handler, while the body is
// read or while it is written, at once and each with a status of its own.
func (r *Run) longCases(kind string, naps []time.Duration) {
	r.Cases(kind, 1, func(rng *randT, idx int) {
		installHook()
		takeHooks()
		before := snapMetrics()
		type long struct {
			code     int
			how      string
			fails    bool
			lo, hi   time.Duration
			nap      time.Duration
			accepted int
		}
		jobs := make([]*long, len(naps))
		for i, d := range naps {
			jobs[i] = &long{code: 610 + i, how: pick(rng, "handler", "reader", "writer"), fails: rng.IntN(3) == 0, nap: d}
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			fw := newFakeW()
			q := anyReq(rng, "GET")
			go func() {
				defer wg.Done()
				tick := time.NewTicker(500 * time.Millisecond)
				stop := make(chan bool)
				defer close(stop)
				go func() {
					for {
						select {
						case <-tick.C:
							step()
						case <-stop:
							tick.Stop()
							return
						}
					}
				}()
				inner := handler.HandlerFunc(func(*http.Request) response.Response {
					b := response.NewBuilder().WithStatus(j.code)
					switch j.how {
					case "handler":
						t0 := time.Now()
						time.Sleep(j.nap)
						j.lo = time.Since(t0)
						b.WithBody(body.FromString("hello"))
					case "reader":
						in, err := body.FromReader(&slowReader{j.nap / 4, 3})
						if err != nil {
							panic(err)
						}
						j.lo = j.nap
						b.WithBody(in)
					default:
						fw.nap = j.nap / 5
						b.WithBody(body.FromString("hello"))
					}
					return *b.Build()
				})
				if j.fails {
					fw.limit, fw.mode = 2, "fail"
				}
				t0 := time.Now()
				handler.Adaptor{Inner: inner}.ServeHTTP(fw.wrap(0), q)
				j.hi = time.Since(t0)
				if j.how != "handler" {
					j.lo = 0
				}
				j.lo += fw.slept
				j.accepted = len(fw.got)
			}()
		}
		wg.Wait()
		takeHooks()
		after := snapMetrics()
		reqs, sent, fails := map[string]int{}, map[string]float64{}, 0
		var lo, hi time.Duration
		for _, j := range jobs {
			c := strconv.Itoa(j.code)
			if j.how == "reader" {
				// two of its four naps at the least
				j.lo += j.nap / 2
			}
			reqs[c]++
			sent[c] += float64(j.accepted)
			if j.fails {
				fails++
			}
			lo += j.lo
			hi += j.hi
			d := after.vec[1][c] - before.vec[1][c]
			if d < j.lo.Seconds()-1e-6 || d > j.hi.Seconds()+1e-6 {
				r.Violate([]string{"H03"}, kind, idx, fmt.Sprintf("the latency total grew by %v s for a request that took between %v and %v (slow %s)", d, j.lo, j.hi, j.how), nil)
				return
			}
			r.Count("long_requests", 1)
			r.Max("longest_request_ms", j.hi.Milliseconds())
			r.Eval(hash64(kind, j.code, j.how, j.fails), true)
		}
		if d := after.histS[0] - before.histS[0]; d < lo.Seconds()-1e-6 || d > hi.Seconds()+1e-6 {
			r.Violate([]string{"H03"}, kind, idx, fmt.Sprintf("the latency histogram grew by %v s for requests that took between %v and %v", d, lo, hi), nil)
			return
		}
		if s := metricsDelta(before, after, reqs, sent, fails); s != "" {
			r.Violate([]string{"H03"}, kind, idx, s, nil)
		}
	})
}
