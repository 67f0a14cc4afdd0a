package main

// Large numbers: families of tens of thousands of copies over one reader,
// thousands of requests inside their handlers at once.

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

// manyCopies makes a large family and closes it in random order. The reader
// must stay open, and each body intact, until the very last Close.
func (r *Run) manyCopies(kind string, n int) {
	if raceEnabled {
		return
	}
	r.Cases(kind, n, func(rng *randT, idx int) {
		s := &vastSrc{len: int64(pick(rng, 0, 1, 70, 5000, 65536, 150000)), failAt: -1, decl: -1, eofData: rng.IntN(2) == 0, frag: pick(rng, 0, 100, 65537)}
		rd, name, _, _, needLen := vastReader(s, idx%8)
		if name == "*io.SectionReader" {
			rd, name, _, _, needLen = vastReader(s, 3)
		}
		var b body.Body
		var err error
		if needLen && rng.IntN(2) == 0 {
			b, err = body.FromReaderAndLength(rd, s.len)
		} else {
			b, err = body.FromReader(rd)
		}
		if err != nil {
			r.Violate([]string{"B13"}, kind, idx, name+": "+err.Error(), nil)
			return
		}
		count := pick(rng, 100, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 513, 1023, 1025, 4097)
		if idx%40 < 8 {
			count = pick(rng, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000)
		}
		desc := fmt.Sprintf("%d copies over %s of %d bytes", count, name, s.len)
		bad := func(f string, a ...any) {
			r.Violate([]string{"B04", "B02", "B05"}, kind, idx, desc+": "+fmt.Sprintf(f, a...), nil)
		}
		fam := make([]*vbody, 1, count+1)
		fam[0] = &vbody{b: b, open: true}
		read := func(v *vbody, size int) string {
			p := make([]byte, size)
			m, err := v.b.Read(p)
			if m < 0 || m > size || int64(m) > s.len-v.cur {
				return fmt.Sprintf("Read of %d at %d of %d returned %d", size, v.cur, s.len, m)
			}
			if k := vastWrong(p[:m], v.cur); k >= 0 {
				return fmt.Sprintf("byte %d is not the source's", v.cur+int64(k))
			}
			v.cur += int64(m)
			if err != nil && (err != io.EOF || v.cur != s.len) {
				return fmt.Sprintf("Read at %d of %d reported %v", v.cur, s.len, err)
			}
			return ""
		}
		closes := 0
		shut := func(v *vbody, last bool) bool {
			err := v.b.Close()
			v.open = false
			closes++
			switch {
			case err != nil:
				bad("Close number %d failed: %v", closes, err)
			case !last && s.closes != 0:
				bad("the reader was closed by Close number %d", closes)
			case last && s.closes != 1:
				bad("the reader was closed %d times by the end", s.closes)
			case v.b.BytesRemaining() != 0 || v.b.Unwrap() != nil:
				bad("closed body still has %d bytes, reader %v", v.b.BytesRemaining(), v.b.Unwrap() != nil)
			default:
				return true
			}
			return false
		}
		msg, _ := guard(func() {
			early := 0
			flat := idx/8%5 == 0 && rng.IntN(2) == 0 || rng.IntN(5) == 0 // all copies at the same position
			for len(fam) <= count {
				v := fam[rng.IntN(min(len(fam), 6))]
				if rng.IntN(20) == 0 {
					v = fam[rng.IntN(len(fam))]
				}
				if !v.open {
					continue
				}
				c, err := v.b.Copy()
				if err != nil || c == nil {
					bad("copy number %d failed: %v", len(fam), err)
					return
				}
				fam = append(fam, &vbody{b: c, cur: v.cur, open: true})
				if !flat && (len(fam) <= 8 && rng.IntN(3) == 0 || rng.IntN(500) == 0) {
					if m := read(v, pick(rng, 0, 1, 10, 4000, 66000)); m != "" {
						bad("%s", m)
						return
					}
				}
				if early < count/2 && rng.IntN(50) == 0 && len(fam) > 10 {
					w := fam[6+rng.IntN(len(fam)-6)]
					if w.open {
						early++
						if !shut(w, false) {
							return
						}
					}
				}
				if len(fam)%1000 == 0 {
					step()
				}
			}
			rng.Shuffle(len(fam), func(i, j int) { fam[i], fam[j] = fam[j], fam[i] })
			open := 0
			for _, v := range fam {
				if v.open {
					open++
				}
			}
			for i, v := range fam {
				if !v.open {
					continue
				}
				open--
				if rng.IntN(len(fam)) < 60 || open == 0 {
					if want, got := s.len-v.cur, v.b.BytesRemaining(); got != want && !(needLen && got == -1) {
						bad("BytesRemaining is %d at %d of %d", got, v.cur, s.len)
						return
					}
					for k := 0; v.cur < s.len && (open == 0 || k < 2); k++ {
						at := v.cur
						if m := read(v, 20000); m != "" {
							bad("with %d bodies left: %s", open+1, m)
							return
						}
						if v.cur == at {
							break
						}
					}
					if open == 0 && v.cur != s.len {
						bad("the last body stopped at %d of %d", v.cur, s.len)
						return
					}
				}
				if !shut(v, open == 0) {
					return
				}
				if rng.IntN(len(fam)) < 20 {
					if err := v.b.Close(); !errors.Is(err, fs.ErrClosed) {
						bad("second Close: %v", err)
						return
					}
				}
				if i%1000 == 0 {
					step()
				}
			}
		})
		if msg != "" {
			bad("%s", msg)
		}
		step()
		r.Count("large_families", 1)
		r.Count("copies_in_large_families", int64(count))
		r.Eval(hash64(desc), true)
	})
}

// inFlight holds many requests inside their handlers at once: all of them must
// get there, whatever the others do.
func (r *Run) inFlight(kind string, counts ...int) {
	r.Cases(kind, len(counts), func(rng *randT, idx int) {
		count := counts[idx]
		installHook()
		takeHooks()
		var in atomic.Int64
		var wrong atomic.Pointer[string]
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < count; i++ {
			i := i
			path := fmt.Sprintf("/r/%d", i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				fw := newFakeW()
				q, _ := http.NewRequest("GET", "http://h"+path, nil)
				handler.Adaptor{Inner: handler.HandlerFunc(func(q *http.Request) response.Response {
					in.Add(1)
					step()
					<-gate
					if i%7 == 3 {
						panic(errors.New("after all"))
					}
					return *response.NewBuilder().WithBody(body.FromString(q.URL.Path)).Build()
				})}.ServeHTTP(fw.wrap(i%32), q)
				want := path
				if i%7 == 3 {
					want = ""
				}
				if string(fw.got) != want {
					s := fmt.Sprintf("request %s got %q", path, fw.got)
					wrong.Store(&s)
				}
			}()
		}
		last, since := int64(-1), time.Now()
		stuck := false
		for in.Load() < int64(count) {
			time.Sleep(2 * time.Millisecond)
			if n := in.Load(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 6*time.Second {
				held := func() (int, string) {
					k, ex := 0, ""
					for _, g := range strings.Split(stacksOf(256<<20), "\n\n") {
						if lines := strings.Split(g, "\n"); len(lines) > 1 && libBlocked(lines) {
							k++
							ex = g
						}
					}
					return k, ex
				}
				k0, ex := held()
				time.Sleep(time.Second)
				k1, _ := held()
				if n == in.Load() && k0 > 0 && k0 == k1 && int64(k0) == int64(count)-n {
					stuck = true
					r.Bad(kind, idx, "%d requests inside their handlers keep %d others from being handled at all:\n%s", n, k0, ex)
					break
				}
				since = time.Now()
			}
		}
		close(gate)
		wg.Wait()
		step()
		if s := wrong.Load(); s != nil && !stuck {
			r.Bad(kind, idx, "%s", *s)
		}
		if h := takeHooks(); len(h) != (count+3)/7 {
			r.Violate([]string{"H02"}, kind, idx, fmt.Sprintf("%d requests at once, %d failed, the hook was called %d times", count, (count+3)/7, len(h)), nil)
		}
		r.Count("requests_held_at_once", int64(count))
		r.Eval(hash64("inflight", count), true)
	})
}

// hooksMeet lets several requests fail at once, under a hook that takes its
// time: it returns only when the hooks of all of them have been called, and it
// may serve a request of its own before.
func (r *Run) hooksMeet(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		installHook()
		takeHooks()
		defer swapHook()
		count := pick(rng, 2, 2, 3, 8, 40)
		nest := rng.IntN(3)
		var in, calls, nested atomic.Int64
		met := make(chan struct{})
		abandon := make(chan struct{})
		var onceMet, onceOff sync.Once
		mask := rng.IntN(2) * 31
		give := func() { onceOff.Do(func() { close(abandon) }) }
		serve := func(q *http.Request, how int) {
			fw := newFakeW()
			if how == 2 {
				fw.limit, fw.mode, fw.werr = 1, "fail", errInjWrite
			}
			handler.Adaptor{Inner: handler.HandlerFunc(func(q *http.Request) response.Response {
				switch how {
				case 0:
					panic(errInjConst)
				case 1:
					panic("no error")
				}
				return *response.NewBuilder().WithBody(body.FromString("some text")).Build()
			})}.ServeHTTP(fw.wrap(mask), q)
		}
		var mu sync.Mutex
		inner := map[uint64]bool{}
		handler.OnPanic = func(err error) {
			g := gid()
			mu.Lock()
			was := inner[g]
			inner[g] = true
			mu.Unlock()
			if was {
				nested.Add(1)
				return
			}
			calls.Add(1)
			step()
			if nest > 0 {
				// the hook reports by way of another request, which fails too or not
				q, _ := http.NewRequest("POST", "http://h/report", nil)
				serve(q, 3*(nest-1))
			}
			if in.Add(1) == int64(count) {
				onceMet.Do(func() { close(met) })
			}
			select {
			case <-met:
			case <-abandon:
			}
		}
		var wg sync.WaitGroup
		for i := 0; i < count; i++ {
			i := i
			how := rng.IntN(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				q, _ := http.NewRequest("GET", fmt.Sprintf("http://h/%d", i), nil)
				serve(q, how)
			}()
		}
		stuck := false
		for last, since := int64(-1), time.Now(); ; {
			done := false
			select {
			case <-met:
				done = true
			case <-time.After(2 * time.Millisecond):
			}
			if done {
				break
			}
			if c := in.Load(); c != last {
				last, since = c, time.Now()
			} else if time.Since(since) > 6*time.Second {
				held := func() (k int, ex string) {
					for _, g := range strings.Split(stacksOf(16<<20), "\n\n") {
						if lines := strings.Split(g, "\n"); len(lines) > 1 && libBlocked(lines) {
							k++
							ex = g
						}
					}
					return
				}
				k0, ex := held()
				time.Sleep(time.Second)
				k1, _ := held()
				if c == in.Load() && k0 > 0 && k0 == k1 && int64(k0) == int64(count)-c {
					stuck = true
					r.Bad(kind, idx, "%d of %d failures at once reached the hook, the others wait inside the library for it to return (the hook serves a request itself: %v):\n%s", c, count, nest > 0, ex)
					break
				}
				since = time.Now()
			}
		}
		give()
		if stuck && nest > 0 {
			r.mu.Lock()
			r.halted = true // a request of the hook's own may never come back
			r.mu.Unlock()
			return
		}
		wg.Wait()
		step()
		if stuck {
			return
		}
		want := int64(0)
		if nest == 1 {
			want = int64(count)
		}
		if calls.Load() != int64(count) || nested.Load() != want {
			r.Bad(kind, idx, "%d requests failed at once and %d of the hook's own: the hook was called %d and %d times", count, want, calls.Load(), nested.Load())
		}
		r.Count("hooks_waiting_for_each_other", int64(count))
		r.Eval(hash64(kind, count, nest), true)
	})
}

func stacksOf(size int) string {
	buf := make([]byte, size)
	return string(buf[:runtime.Stack(buf, true)])
}

func init() {
	for _, id := range []string{"B02", "B04", "B05"} {
		also(id, func(r *Run) { r.manyCopies("many", r.N(240, 2400)) })
	}
	for _, id := range []string{"H01", "H02"} {
		also(id, func(r *Run) { r.hooksMeet("hooks-meet", r.N(120, 1200)) })
	}
	for _, id := range []string{"H01", "H02", "H05"} {
		also(id, func(r *Run) {
			if raceEnabled {
				r.inFlight("in-flight", 500, 1500)
			} else {
				r.inFlight("in-flight", 200, 1100, 3000, 5000)
			}
		})
	}
}
