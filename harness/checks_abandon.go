package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

// endless is a reader without end that records its use.
type endless struct {
	out, closes, after atomic.Int64
	slow               bool
}

func (e *endless) Read(p []byte) (int, error) {
	if e.closes.Load() > 0 {
		e.after.Add(1)
	}
	if e.slow {
		time.Sleep(200 * time.Microsecond)
	}
	for i := range p {
		p[i] = 'e'
	}
	e.out.Add(int64(len(p)))
	return len(p), nil
}

func (e *endless) Close() error { e.closes.Add(1); return nil }

type funcHandler func(*http.Request) response.Response

func (f funcHandler) Handle(q *http.Request) response.Response { return f(q) }

// abandonCases: clients that leave in the middle of an endless response.
func (r *Run) abandonCases(kind string, n int) {
	s := newSite()
	defer s.close()
	installHook()
	r.Cases(kind, n, func(rng *randT, idx int) {
		proto, declared := rng.IntN(2), rng.IntN(2) == 0
		take := pick(rng, 0, 1, 5000, 300000)
		others := rng.IntN(4)
		src := &endless{slow: rng.IntN(4) == 0}
		type ended struct {
			escaped string
			hooks   []hookCall
			took    int64
		}
		done := make(chan ended, 1)
		var otherDone sync.WaitGroup
		s.mu.Lock()
		s.inner = nil
		s.raw = func(w http.ResponseWriter, q *http.Request) {
			inner := funcHandler(func(q *http.Request) response.Response {
				var b body.Body
				var err error
				if declared {
					b, err = body.FromReaderAndLength(src, 1<<45)
				} else {
					b, err = body.FromReader(src)
				}
				if err != nil {
					panic(err)
				}
				return *response.NewBuilder().WithStatus(203).WithBody(b).Build()
			})
			if q.URL.Path == "/other" {
				inner = funcHandler(func(q *http.Request) response.Response {
					return *response.NewBuilder().WithStatus(202).WithBody(body.FromString("other")).Build()
				})
				defer otherDone.Done()
				handler.Adaptor{Inner: inner}.ServeHTTP(w, q)
				return
			}
			w, took := counting(w)
			e, _ := guard(func() { handler.Adaptor{Inner: inner}.ServeHTTP(w, q) })
			done <- ended{e, takeHooks(), took.Load()}
		}
		s.mu.Unlock()
		takeHooks()
		before := snapMetrics()
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
		defer cancel()
		q, err := http.NewRequestWithContext(ctx, "GET", s.srv[proto].URL+"/endless", nil)
		if err != nil {
			panic(err)
		}
		resp, err := s.cl[proto].Do(q)
		if err != nil {
			r.Inconclusive("%s:%d %v", kind, idx, err)
			return
		}
		desc := fmt.Sprintf("an endless response (declared length %v) over %s whose client leaves after %d bytes", declared, protoNames[proto], take)
		if resp.StatusCode != 203 {
			r.Violate([]string{"H01", "R03"}, kind, idx, desc+fmt.Sprintf(": status %d", resp.StatusCode), nil)
			return
		}
		got, err := io.ReadFull(resp.Body, make([]byte, take))
		if err != nil {
			r.Violate([]string{"H01", "R03"}, kind, idx, desc+fmt.Sprintf(": only %d bytes: %v", got, err), nil)
			return
		}
		for i := 0; i < others; i++ {
			otherDone.Add(1)
			if msg := s.other(ctx, i%2); msg != "" {
				r.Violate([]string{"H01"}, kind, idx, desc+": another request meanwhile: "+msg, nil)
				return
			}
		}
		if rng.IntN(2) == 0 {
			cancel()
		}
		resp.Body.Close()
		var e ended
		select {
		case e = <-done:
		case <-time.After(200 * time.Second):
			r.Inconclusive("%s:%d the request did not end within 200 s of the client leaving", kind, idx)
			return
		}
		otherDone.Wait()
		step()
		after := snapMetrics()
		r.Eval(hash64(kind, proto, declared, take, others, src.slow, idx), true)
		r.Count("clients_that_left", 1)
		r.Count("failed_requests", 1)
		if e.escaped != "" {
			r.Violate([]string{"H01"}, kind, idx, desc+": a panic escaped the adaptor: "+e.escaped, nil)
			return
		}
		if len(e.hooks) != 1 {
			r.Violate([]string{"H02"}, kind, idx, desc+fmt.Sprintf(": the panic hook was called %d times", len(e.hooks)), nil)
			return
		}
		if err := e.hooks[0].err; err == nil || errors.Is(err, io.EOF) {
			r.Violate([]string{"H02"}, kind, idx, desc+fmt.Sprintf(": the panic hook got %v", err), nil)
		}
		if src.closes.Load() != 1 || src.after.Load() > 0 {
			r.Violate([]string{"R04", "H01"}, kind, idx, desc+fmt.Sprintf(": the reader was closed %d times and read %d times after that", src.closes.Load(), src.after.Load()), nil)
			return
		}
		sent := after.vec[3]["203"] - before.vec[3]["203"]
		if sent != float64(e.took) {
			r.Violate([]string{"H03", "R07"}, kind, idx, desc+fmt.Sprintf(": sent bytes grew by %v, the server accepted %d and the reader gave %d", sent, e.took, src.out.Load()), nil)
			return
		}
		if msg := metricsDelta(before, after, map[string]int{"203": 1, "202": others}, map[string]float64{"203": sent, "202": 5 * float64(others)}, 1); msg != "" {
			r.Violate([]string{"H03"}, kind, idx, desc+": "+msg, nil)
			return
		}
		otherDone.Add(1)
		if msg := s.other(context.Background(), proto); msg != "" {
			r.Violate([]string{"H01"}, kind, idx, desc+": the next request: "+msg, nil)
		}
	})
}

// other makes an ordinary request.
func (s *site) other(ctx context.Context, proto int) string {
	q, err := http.NewRequestWithContext(ctx, "GET", s.srv[proto].URL+"/other", nil)
	if err != nil {
		panic(err)
	}
	resp, err := s.cl[proto].Do(q)
	if err != nil {
		return err.Error()
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil || string(b) != "other" || resp.StatusCode != 202 {
		return "status " + strconv.Itoa(resp.StatusCode) + fmt.Sprintf(", %q, %v", b, err)
	}
	return ""
}
