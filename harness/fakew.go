package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/chronos-tachyon/morehttp/response"
)

// event is one call received by the instrumented response writer.
type event struct {
	K    string // status write readfrom flush hijack notify push
	Code int
	N    int
	Arg  string
	Hdr  http.Header // snapshot at status time
}

func (e event) String() string {
	switch e.K {
	case "status":
		return fmt.Sprintf("status(%d)", e.Code)
	case "push":
		return fmt.Sprintf("push(%s)", e.Arg)
	case "write", "readfrom":
		return fmt.Sprintf("%s(%d)", e.K, e.N)
	}
	return e.K
}

// fakeW is an instrumented http.ResponseWriter with fault injection.
type fakeW struct {
	hdr       http.Header
	log       []event
	got       []byte
	limit     int // bytes accepted before failing; <0 never
	mode      string
	panicAt   int // panic when that many bytes have been accepted; <0 never
	panicHdr  bool
	pushErrs  []error // result of the n-th push
	pushN     int
	pushOpts  []*http.PushOptions
	hijackErr error
	notify    chan bool
	onStatus  func(http.Header)
	failures  int // write failures reported to the caller
	shorts    int // writes cut short without an error
	panics    int // panics raised
	offered   int // body bytes offered
	readers   []io.Reader
	werr      error // what failing writes return
	conn      net.Conn
	brw       *bufio.ReadWriter
	nap       time.Duration // accepting body bytes takes that long
	slept     time.Duration
}

var errWPanic = errors.New("writer panic")

func newFakeW() *fakeW {
	return &fakeW{hdr: http.Header{}, limit: -1, panicAt: -1, notify: make(chan bool)}
}

type wBase struct{ w *fakeW }

// wOver is what a writer that stands before another one adds. Nothing may
// reach that other one but through the writer itself.
type wOver struct {
	w     *fakeW
	inner http.ResponseWriter
}

func (o wOver) Unwrap() http.ResponseWriter       { return o.inner }
func (o wOver) WriteString(s string) (int, error) { return wBase{o.w}.Write([]byte(s)) }

// anyWrap is wrap, or wrapOver with a writer behind that is not to be used.
func (w *fakeW) anyWrap(rng *randT, m int) http.ResponseWriter {
	if rng.IntN(3) > 0 {
		return w.wrap(m)
	}
	inner := newFakeW().wrap(pick(rng, m, 31, 0))
	if rng.IntN(2) == 0 {
		inner = response.NewWriter(inner, req(pick(rng, "GET", "HEAD")))
	}
	return w.wrapOver(m, inner)
}

type wFlush struct{ w *fakeW }
type wHijack struct{ w *fakeW }
type wNotify struct{ w *fakeW }
type wReadFrom struct{ w *fakeW }
type wPush struct{ w *fakeW }

func (b wBase) Header() http.Header { return b.w.hdr }
func (b wBase) WriteHeader(code int) {
	w := b.w
	if w.panicHdr {
		w.panics++
		panic(errWPanic)
	}
	if w.onStatus != nil {
		w.onStatus(w.hdr)
	}
	w.log = append(w.log, event{K: "status", Code: code, Hdr: w.hdr.Clone()})
}
func (w *fakeW) accept(p []byte) (int, error) {
	w.offered += len(p)
	if w.nap > 0 && w.slept < 5*w.nap {
		t0 := time.Now()
		time.Sleep(w.nap)
		w.slept += time.Since(t0)
	}
	if w.panicAt >= 0 && len(w.got)+len(p) > w.panicAt {
		n := w.panicAt - len(w.got)
		w.got = append(w.got, p[:n]...)
		w.panics++
		panic(errWPanic)
	}
	if w.mode == "late" && w.limit >= 0 && len(w.got)+len(p) >= w.limit {
		// takes everything and fails all the same
		w.got = append(w.got, p...)
		w.failures++
		if w.werr == nil {
			w.werr = errInjWrite
		}
		return len(p), w.werr
	}
	if w.limit < 0 || len(w.got)+len(p) <= w.limit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := w.limit - len(w.got)
	w.got = append(w.got, p[:n]...)
	if w.mode == "short" {
		w.shorts++
		return n, nil
	}
	w.failures++
	if w.werr == nil {
		w.werr = errInjWrite
	}
	return n, w.werr
}
func (b wBase) Write(p []byte) (int, error) {
	n, err := b.w.accept(p)
	b.w.log = append(b.w.log, event{K: "write", N: n})
	return n, err
}
func (b wReadFrom) ReadFrom(r io.Reader) (int64, error) {
	w := b.w
	w.readers = append(w.readers, r)
	var total int64
	buf := make([]byte, 1000)
	defer func() { w.log = append(w.log, event{K: "readfrom", N: int(total)}) }()
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := w.accept(buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
			if k < n {
				return total, io.ErrShortWrite
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
func (b wFlush) Flush() { b.w.log = append(b.w.log, event{K: "flush"}) }
func (b wHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	b.w.log = append(b.w.log, event{K: "hijack"})
	return b.w.conn, b.w.brw, b.w.hijackErr
}
func (b wNotify) CloseNotify() <-chan bool {
	b.w.log = append(b.w.log, event{K: "notify"})
	return b.w.notify
}
func (b wPush) Push(url string, o *http.PushOptions) error {
	w := b.w
	w.log = append(w.log, event{K: "push", Arg: url})
	w.pushOpts = append(w.pushOpts, o)
	i := w.pushN
	w.pushN++
	if i < len(w.pushErrs) {
		return w.pushErrs[i]
	}
	return nil
}

func (w *fakeW) has(kind string) bool {
	for _, e := range w.log {
		if e.K == kind {
			return true
		}
	}
	return false
}
