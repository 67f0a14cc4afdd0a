package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

// ---- the panic hook ----

type hookCall struct {
	gid     uint64
	err     error
	settled bool // a final status had been sent (direct cases)
	gen     int  // which of the hooks installed in turn was called
}

var hook struct {
	mu    sync.Mutex
	calls []hookCall
	fw    *fakeW
	gen   int
}

func gid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	v, _ := strconv.ParseUint(f[1], 10, 64)
	return v
}

func finalStatus(fw *fakeW) int {
	for _, e := range fw.log {
		if e.K == "status" && e.Code >= 200 {
			return e.Code
		}
	}
	return 0
}

var installHook = sync.OnceFunc(swapHook)

// swapHook installs a new hook in place of the last. Not while requests are
// being served.
func swapHook() {
	hook.mu.Lock()
	defer hook.mu.Unlock()
	hook.gen++
	gen := hook.gen
	handler.OnPanic = func(err error) {
		hook.mu.Lock()
		defer hook.mu.Unlock()
		c := hookCall{gid: gid(), err: err, gen: gen}
		if hook.fw != nil {
			c.settled = finalStatus(hook.fw) != 0
		}
		hook.calls = append(hook.calls, c)
	}
}

func takeHooks() []hookCall {
	hook.mu.Lock()
	defer hook.mu.Unlock()
	c := hook.calls
	hook.calls = nil
	return c
}

// ---- metrics ----

type msnap struct {
	panics float64
	vec    [4]map[string]float64 // requests, latency, recv, send by code
	histN  [3]uint64             // latency, recv, send
	histS  [3]float64
}

func collect(c prometheus.Collector, f func(*dto.Metric)) {
	ch := make(chan prometheus.Metric, 64)
	go func() {
		c.Collect(ch)
		close(ch)
	}()
	for m := range ch {
		var d dto.Metric
		if err := m.Write(&d); err != nil {
			panic(err)
		}
		f(&d)
	}
}

func snapMetrics() *msnap {
	s := &msnap{}
	collect(handler.PromPanicsTotal, func(d *dto.Metric) { s.panics = d.GetCounter().GetValue() })
	for i, v := range []*prometheus.CounterVec{handler.PromRequestsTotal, handler.PromLatencyTotal, handler.PromRecvBytesTotal, handler.PromSendBytesTotal} {
		s.vec[i] = map[string]float64{}
		collect(v, func(d *dto.Metric) { s.vec[i][d.GetLabel()[0].GetValue()] += d.GetCounter().GetValue() })
	}
	for i, h := range []prometheus.Histogram{handler.PromLatencyHist, handler.PromRecvBytesHist, handler.PromSendBytesHist} {
		collect(h, func(d *dto.Metric) {
			s.histN[i] = d.GetHistogram().GetSampleCount()
			s.histS[i] = d.GetHistogram().GetSampleSum()
		})
	}
	return s
}

// metricsDelta compares two snapshots with what is known to have happened:
// requests and bytes per code, and the number of failed requests.
func metricsDelta(a, b *msnap, reqs map[string]int, sent map[string]float64, failed int) string {
	total := 0
	for _, n := range reqs {
		total += n
	}
	if d := b.panics - a.panics; d != float64(failed) {
		return fmt.Sprintf("the panics counter grew by %v for %d failed request(s)", d, failed)
	}
	codes := map[string]bool{}
	for _, s := range []*msnap{a, b} {
		for i := range s.vec {
			for c := range s.vec[i] {
				codes[c] = true
			}
		}
	}
	for c := range reqs {
		codes[c] = true
	}
	sum := 0.0
	for c := range codes {
		if d := b.vec[0][c] - a.vec[0][c]; d != float64(reqs[c]) {
			return fmt.Sprintf("requests counted under code %s grew by %v, want %d (all: %v)", c, d, reqs[c], reqs)
		}
		if d := b.vec[3][c] - a.vec[3][c]; d != sent[c] {
			return fmt.Sprintf("sent bytes under code %s grew by %v, want %v", c, d, sent[c])
		}
		sum += sent[c]
		for i := 1; i < 3; i++ {
			d := b.vec[i][c] - a.vec[i][c]
			if d < 0 {
				return fmt.Sprintf("a total of code %s decreased by %v", c, -d)
			}
			if reqs[c] == 0 && d != 0 {
				return fmt.Sprintf("a total of code %s grew by %v without a request of that code", c, d)
			}
		}
	}
	for i, name := range []string{"latency", "received bytes", "sent bytes"} {
		if b.histN[i]-a.histN[i] != uint64(total) {
			return fmt.Sprintf("the %s histogram got %d observations for %d request(s)", name, b.histN[i]-a.histN[i], total)
		}
		if b.histS[i] < a.histS[i] {
			return fmt.Sprintf("the sum of the %s histogram decreased", name)
		}
	}
	if d := b.histS[2] - a.histS[2]; d != sum {
		return fmt.Sprintf("the sent bytes histogram grew by %v, want %v", d, sum)
	}
	return ""
}

// timeDelta compares the growth of the time totals with what the request
// certainly took and with the time between its call and its return.
func timeDelta(a, b *msnap, code string, lo, hi time.Duration) string {
	for _, x := range []struct {
		name string
		v, w float64
	}{{"latency total", a.vec[1][code], b.vec[1][code]}, {"latency histogram", a.histS[0], b.histS[0]}} {
		d, tol := x.w-x.v, 1e-9*(1+x.w)
		if d < lo.Seconds()-tol || d > hi.Seconds()+tol {
			return fmt.Sprintf("the %s grew by %v s for a request that took between %v and %v", x.name, d, lo, hi)
		}
	}
	return ""
}

// ---- what a handler may do ----

type evilErr struct{ p *int }

func (e evilErr) Error() string { panic("secret: Error was called on the panic value") }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "nil ptrErr secret"
	}
	return e.s
}

type evilString struct{}

func (evilString) String() string { panic("secret: String was called on the panic value") }

const secret = "sEcReT-5f3a"

// panicValues returns a fresh panic value; runtime errors are provoked.
// runtimePanics are ways of having the runtime panic.
var runtimePanics = []func(){
	func() { panic(nil) },
	func() { var e error; panic(e) },
	func() { var m map[string]int; m["a"] = 1 },
	func() { var x any = 1; _ = x.(string) },
	func() { var x any; _ = x.(error) },
	func() { z := 0; _ = 1 / z },
	func() { n := -1; _ = make([]byte, n) },
	func() { var c chan int; close(c) },
	func() { c := make(chan int); close(c); close(c) },
	func() { c := make(chan int); close(c); c <- 1 },
	func() { s, n := []int{1}, 2; _ = s[n:] },
	func() { s, n := []int{1}, 2; _ = [2]int(s[:1]); _ = n },
	func() { var k any = []int{}; _ = map[any]int{}[k] },
	func() { var a, b any = []int{}, []int{}; _ = a == b },
	func() { var f func(); f() },
	func() { var r io.Reader; r.Read(nil) },
	func() { var n *hact; n.Code = 1 },
}

func doPanic(k int) (what string, val any, run func()) {
	mk := func(v any) func() { return func() { panic(v) } }
	if k >= 1000 {
		e := errZoo(secret)[k-1000]
		return fmt.Sprintf("error %T %d", e, k), e, mk(e)
	}
	if k >= 500 {
		return "runtime error", nil, runtimePanics[k-500]
	}
	if k >= 16 {
		var e error
		switch {
		case k < 16+nErrKinds:
			e = errOf(errInjRead, k-16)
		case k == 16+nErrKinds:
			e = statusErr{secret, 404}
		case k == 17+nErrKinds:
			e = &http.MaxBytesError{Limit: 5}
		case k == 18+nErrKinds:
			e = errors.Join(errors.New(secret), http.ErrAbortHandler)
		default:
			e = &net.DNSError{Err: secret, IsTimeout: true, IsTemporary: true}
		}
		return fmt.Sprintf("error %T", e), e, mk(e)
	}
	switch k % 16 {
	case 0:
		return "string", secret, mk(secret)
	case 1:
		e := errors.New(secret)
		return "error", e, mk(e)
	case 2:
		e := fmt.Errorf("%s: %w", secret, io.ErrUnexpectedEOF)
		return "wrapped error", e, mk(e)
	case 3:
		return "int", 42, mk(42)
	case 4:
		v := []string{secret}
		return "slice", v, mk(v)
	case 5:
		v := map[string]int{secret: 1}
		return "map", v, mk(v)
	case 6:
		v := &struct{ s string }{secret}
		return "pointer", v, mk(v)
	case 7:
		var e *ptrErr
		return "nil pointer that is an error", e, mk(e)
	case 8:
		e := evilErr{new(int)}
		return "error whose Error panics", e, mk(e)
	case 9:
		return "value whose String panics", evilString{}, mk(evilString{})
	case 10:
		return "http.ErrAbortHandler", http.ErrAbortHandler, mk(http.ErrAbortHandler)
	case 11:
		return "runtime error", nil, func() { var p *http.Request; _ = p.Method }
	case 12:
		return "index out of range", nil, func() { var s []int; _ = s[k] }
	case 13:
		e := handler.PanicError{Value: secret}
		return "PanicError", e, mk(e)
	case 14:
		e := &ptrErr{secret}
		return "pointer error", e, mk(e)
	default:
		v := struct{ A, B string }{secret, "x"}
		return "struct", v, mk(v)
	}
}

// sameErr says whether the hook got the value of a panic unaltered.
func sameErr(got error, what string, val any) bool {
	if what == "runtime error" || what == "index out of range" {
		_, ok := got.(runtime.Error)
		return ok
	}
	if e, ok := val.(error); ok {
		return reflect.TypeOf(got) == reflect.TypeOf(e) && (got == e || what[0] == 'e' && reflect.DeepEqual(got, e))
	}
	switch w := got.(type) {
	case handler.PanicError:
		return reflect.DeepEqual(w.Value, val)
	case *handler.PanicError:
		return w != nil && reflect.DeepEqual(w.Value, val)
	}
	return false
}

// hact is one way a handler behaves.
type hact struct {
	Name     string
	Kind     string // ok, panic, readfail, readpanic, closeerr, zero, closed, push, pushpanic
	Body     string
	Len      int
	Code     int
	FailAt   int
	FailData bool
	Panic    int
	Late     bool // the panic comes after a response has been built
	Declared int  // declared length, when larger than Len
	Push     []error
	Hdr      http.Header
	Copy     bool
	ErrK     int // shape of the injected failure (errOf)
	Noise    bool
}

func (a hact) String() string {
	s := a.Kind
	switch a.Kind {
	case "panic":
		what, _, _ := doPanic(a.Panic)
		return fmt.Sprintf("panic with a %s (response already built: %v)", what, a.Late)
	case "readfail", "readpanic":
		s = fmt.Sprintf("%s at %d", a.Kind, a.FailAt)
	case "truncated":
		s = fmt.Sprintf("reader has %d of %d declared bytes", a.Len, a.Declared)
	}
	if len(a.Push) > 0 {
		s += fmt.Sprintf(", pushes %v", a.Push)
	}
	if a.ErrK != 0 && a.Kind != "ok" {
		s += fmt.Sprintf(" (failing with %v)", errOf(errInjRead, a.ErrK))
	}
	return fmt.Sprintf("%s, status %d with a %s body of %d bytes", s, a.Code, a.Body, a.Len)
}

// prepared is an act ready to be handled once.
type prepared struct {
	a     hact
	mb    *madeBody
	resp  *response.Response
	what  string
	val   any
	hdrs  http.Header // of the response as built
	clean []func()
	calls int
	seen  func(*http.Request) // looks at the request
	nap   time.Duration       // the handler takes that long
	busy  time.Duration       // from the handler's start to its end
}

func (r *Run) prepare(rng *randT, a hact) *prepared {
	p := &prepared{a: a}
	if a.Kind == "zero" {
		p.resp = &response.Response{}
		return p
	}
	p.mb = r.mkBody(rng, a.Body, a.Len, func(sp *srcSpec) {
		sp.CloseErr, sp.ErrK = a.Kind == "closeerr", a.ErrK
		if a.Kind == "readfail" || a.Kind == "readpanic" {
			sp.FailAt, sp.FailN, sp.FailData, sp.FailPan = a.FailAt, -1, a.FailData, a.Kind == "readpanic"
		}
		if a.Kind == "truncated" {
			sp.UseLen, sp.Declared = true, int64(a.Declared)
		}
	})
	p.clean = append(p.clean, p.mb.done)
	b := response.NewBuilder().WithStatus(a.Code)
	if a.Hdr != nil {
		b.WithHeaders(a.Hdr)
	}
	for i := range a.Push {
		b.WithHeader("Push", fmt.Sprintf("/push%d", i), true)
	}
	if rng.IntN(4) == 0 { // says why the response is what it is, no more
		b.WithError(pick[error](rng, errInjConst, io.EOF, io.ErrUnexpectedEOF, http.ErrAbortHandler, fs.ErrNotExist, context.Canceled, handler.PanicError{Value: 1}))
	}
	if a.Noise {
		noise(rng, b)
	}
	b.WithBody(p.mb.b)
	p.resp = b.Build()
	if a.Copy {
		if c, err := p.resp.Copy(); err == nil {
			p.resp.Body().Close()
			p.resp = c
		}
	}
	p.hdrs = p.resp.Headers().Clone()
	if a.Kind == "closed" {
		p.resp.Body().Close()
	}
	return p
}

func (p *prepared) handle(q *http.Request) response.Response {
	p.calls++
	t0 := time.Now()
	defer func() { p.busy += time.Since(t0) }()
	if p.seen != nil {
		p.seen(q)
	}
	if p.nap > 0 {
		time.Sleep(p.nap)
	}
	if p.a.Kind == "panic" {
		var run func()
		p.what, p.val, run = doPanic(p.a.Panic)
		run()
	}
	return *p.resp
}

func (p *prepared) done() {
	for _, f := range p.clean {
		f()
	}
}

// readFailed reports whether the reader really failed while serving.
func (p *prepared) readFailed() bool { return p.mb != nil && p.mb.s != nil && p.mb.s.raised > 0 }

var actCodes = []int{200, 200, 200, 201, 302, 404, 418, 500, 503, 999}

func genAct(rng *randT, small bool) hact {
	a := hact{Kind: "ok", Body: bodyKinds[rng.IntN(len(bodyKinds)-1)], Code: pick(rng, actCodes...), FailAt: -1, Panic: pick(rng, rng.IntN(16), 16+rng.IntN(nErrKinds+4), 1000+rng.IntN(len(errZoo(""))), 500+rng.IntN(len(runtimePanics))), Late: rng.IntN(2) == 0, Copy: rng.IntN(6) == 0, ErrK: genErrK(rng)}
	a.Len = pick(rng, 0, 1, 10, 300, rng.IntN(3000))
	if !small && rng.IntN(4) == 0 {
		a.Len = pick(rng, 2047, 2048, 2049, 4096, 8193, 32768, 65536, 70000)
	}
	if rng.IntN(3) == 0 {
		a.Code = 200 + rng.IntN(800)
	}
	if !small && rng.IntN(60) == 0 {
		a.Len = hugeLen(rng)
	}
	if rng.IntN(12) == 0 {
		a.Code = pick(rng, 204, 304)
	}
	srcKinds := []string{"readerat", "seeker", "buffered", "buffered-decl"}
	switch rng.IntN(14) {
	case 0, 1, 2:
		a.Kind = "panic"
	case 3, 4:
		a.Kind, a.Body = "readfail", pick(rng, srcKinds...)
		a.FailAt, a.FailData = rng.IntN(a.Len+1), rng.IntN(2) == 0
	case 5, 6:
		a.Kind, a.Body = "readpanic", pick(rng, srcKinds...)
		a.FailAt = rng.IntN(a.Len + 1)
	case 7:
		a.Kind, a.Body = "closeerr", pick(rng, srcKinds...)
	case 8:
		a.Kind = "zero"
	case 9:
		a.Kind = "closed"
	case 10:
		for i := 1 + rng.IntN(3); i > 0; i-- {
			a.Push = append(a.Push, pick[error](rng, nil, http.ErrNotSupported, errWrappedNS, pushError(rng)))
		}
	}
	return a
}

// ---- direct: the adaptor over an instrumented writer ----

func (r *Run) directCases(kind string, n int) {
	installHook()
	takeHooks()
	prev := snapMetrics()
	r.Cases(kind, n, func(rng *randT, idx int) {
		a := genAct(rng, rng.IntN(20) != 0)
		a.Noise = rng.IntN(2) == 0
		method := pick(rng, allMethods...)
		mask := rng.IntN(32)
		if rng.IntN(3) == 0 {
			mask |= mFull
		}
		fw := newFakeW()
		fw.pushErrs = a.Push
		fault := ""
		switch rng.IntN(6) {
		case 0:
			fw.limit, fw.mode, fw.werr = rng.IntN(a.Len+2), pick(rng, "fail", "fail", "late"), errOf(errInjWrite, genErrK(rng))
			fault = fmt.Sprintf("writer fails (%s) at %d", fw.mode, fw.limit)
		case 1:
			if rng.IntN(3) == 0 {
				fw.panicAt = rng.IntN(a.Len + 2)
				fault = fmt.Sprintf("writer panics at %d", fw.panicAt)
			}
		}
		var w http.ResponseWriter = fw.anyWrap(rng, mask)
		outer := rng.IntN(8)
		prewritten := 0
		q := anyReq(rng, method)
		switch outer {
		case 0: // an outer layer already wrapped the writer
			w = response.NewWriter(w, q)
		case 1: // ... and sent early hints
			w = response.NewWriter(w, q)
			w.WriteHeader(103)
		case 2:
			if rng.IntN(4) == 0 { // ... or even the status
				prewritten = pick(rng, 200, 404)
				w = response.NewWriter(w, q)
				w.WriteHeader(prewritten)
			}
		}
		p := r.prepare(rng, a)
		defer p.done()
		takeHooks()
		if rng.IntN(4) == 0 {
			swapHook()
		}
		hook.mu.Lock()
		hook.fw = fw
		hook.mu.Unlock()
		if rng.IntN(40) == 0 {
			p.nap = time.Duration(200+rng.IntN(2000)) * time.Microsecond
		}
		if rng.IntN(40) == 0 {
			fw.nap = time.Duration(200+rng.IntN(1000)) * time.Microsecond
		}
		var hooksAtReturn []hookCall
		start := time.Now()
		msg, pv := guard(func() { handler.Adaptor{Inner: handler.HandlerFunc(p.handle)}.ServeHTTP(w, q) })
		took := time.Since(start)
		hook.mu.Lock()
		hook.fw = nil
		hook.mu.Unlock()
		hooksAtReturn = takeHooks()
		next := snapMetrics()
		before := prev
		prev = next
		step()

		desc := fmt.Sprintf("%s %s; %s; caps %05b, outer %d/%d", method, a, fault, mask, outer, prewritten)
		bad := func(tags []string, format string, x ...any) {
			r.Violate(tags, kind, idx, desc+": "+fmt.Sprintf(format, x...)+fmt.Sprintf("; underlying saw %v", fw.log), nil)
		}
		for _, h := range hooksAtReturn {
			if h.gen != hook.gen {
				bad([]string{"H02"}, "the hook called is not the one installed now (%d replacements ago)", hook.gen-h.gen)
			}
		}
		var pushErr error
		for i := 0; i < fw.pushN && i < len(a.Push); i++ {
			if pushErr == nil && isPushError(a.Push[i]) {
				pushErr = a.Push[i]
			}
		}
		early := a.Kind == "panic" || a.Kind == "zero" || pushErr != nil // before any status
		failed := early || p.readFailed() || fw.failures > 0 || fw.panics > 0 || a.Kind == "closed" || a.Kind == "closeerr" || prewritten != 0
		r.Count("direct_requests", 1)
		if failed {
			r.Count("failed_requests", 1)
			r.Count("failed_"+a.Kind, 1)
		}
		r.Eval(hash64(a.String(), method, fault, mask, outer, prewritten), failed || len(fw.got) > 0)
		if r.WantSample() && failed {
			r.Sample(map[string]any{"case": desc, "underlying": fmt.Sprint(fw.log), "hook_calls": len(hooksAtReturn)})
		}
		if msg != "" {
			bad([]string{"H01"}, "a panic escaped the adaptor: %s (%T)", msg, pv)
			return
		}
		status := finalStatus(fw)
		n := 0
		for _, e := range fw.log {
			if e.K == "status" && e.Code >= 200 {
				n++
			}
		}
		if n != 1 {
			bad([]string{"H01", "R06"}, "%d final statuses were sent", n)
			return
		}
		want := a.Code
		if early {
			want = 500
		}
		if prewritten != 0 {
			want = prewritten
		}
		if status != want {
			tags := []string{"H01", "R03"}
			if early {
				tags = append(tags, "H03")
			}
			bad(tags, "the status sent is %d, want %d", status, want)
			return
		}
		if bytes.Contains(fw.got, []byte(secret)) || strings.Contains(fmt.Sprint(fw.hdr), secret) || bytes.Contains(fw.got, []byte("injected")) {
			bad([]string{"H01"}, "text of the failure was sent: %q %v", tailOf(fw.got), fw.hdr)
			return
		}
		if early && len(fw.got) > 0 && len(bytes.TrimSpace(fw.got)) > 0 && p.mb != nil && len(p.mb.data) > 4 && bytes.Contains(fw.got, p.mb.data[:4]) {
			bad([]string{"H01"}, "body bytes were sent after a failure that came before the status")
			return
		}
		// the hook
		if !failed {
			if len(hooksAtReturn) != 0 {
				bad([]string{"H02"}, "the panic hook was called %d time(s) (%v) for a request that succeeded", len(hooksAtReturn), hooksAtReturn[0].err)
				return
			}
			want := []byte(nil)
			if !bodyless(method, status) {
				want = p.mb.data
			}
			if !bytes.Equal(fw.got, want) {
				bad([]string{"R03", "R08"}, "%d body bytes sent, want %d", len(fw.got), len(want))
			}
		} else {
			if len(hooksAtReturn) != 1 {
				bad([]string{"H02"}, "the panic hook was called %d times for a failed request", len(hooksAtReturn))
				return
			}
			h := hooksAtReturn[0]
			if !h.settled {
				bad([]string{"H02"}, "the panic hook was called before the status had been settled")
				return
			}
			ok := true
			switch {
			case a.Kind == "panic":
				ok = sameErr(h.err, p.what, p.val)
			case pushErr != nil:
				ok = h.err == pushErr
			case a.Kind == "zero" || prewritten != 0:
				ok = h.err != nil
			case fw.panics > 0 || fw.failures > 0 || p.readFailed():
				ok = fw.panics > 0 && h.err == errWPanic || fw.failures > 0 && h.err == fw.werr || p.readFailed() && errors.Is(h.err, p.mb.s.readErr())
			case a.Kind == "closeerr":
				ok = errors.Is(h.err, p.mb.s.closeErr())
			}
			if !ok {
				t, _ := guard(func() { _ = h.err.Error() })
				bad([]string{"H02"}, "the panic hook got %T (%s), not the failure itself (%v)", h.err, t, p.what)
				return
			}
			r.Count("hook_values_compared", 1)
		}
		// the metrics
		fails := 0
		if failed {
			fails = 1
		}
		code := strconv.Itoa(status)
		sent := map[string]float64{code: float64(len(fw.got))}
		if fw.panics > 0 {
			// bytes accepted by a write that panicked are not accounted for
			d := next.vec[3][code] - before.vec[3][code]
			if d > float64(len(fw.got)) || d < 0 {
				bad([]string{"H03"}, "sent bytes grew by %v, the writer accepted %d", d, len(fw.got))
				return
			}
			sent[code] = d
		}
		if d := next.vec[3][code] - before.vec[3][code]; a.Kind == "readpanic" && p.readFailed() && fw.has("readfrom") && d < float64(len(fw.got)) {
			r.Violate3([]string{"H03"}, "panic-in-bulk-copy", kind, idx, desc+fmt.Sprintf(": sent bytes grew by %v, the writer accepted %d before the reader panicked", d, len(fw.got)))
			sent[code] = d
		}
		if s := metricsDelta(before, next, map[string]int{code: 1}, sent, fails); s != "" {
			bad([]string{"H03"}, "%s", s)
			return
		}
		if s := timeDelta(before, next, code, p.busy+fw.slept, took); s != "" {
			bad([]string{"H03"}, "%s", s)
			return
		}
		r.Count("metric_snapshots_compared", 1)
		if p.mb != nil && p.mb.s != nil && a.Kind != "panic" && p.mb.s.closes != 1 {
			bad([]string{"R04"}, "the reader was closed %d times", p.mb.s.closes)
		}
	})
}

// ---- real servers ----

type hreq struct {
	p       *prepared
	outer   func(http.Header)
	hdr     http.Header // of the request
	reqBody int         // of the request, in words; -1 none
	prewrap bool
	count   bool          // count what the server accepts
	took    *atomic.Int64 // that count
	done    chan struct{}
	escaped string
	gid     uint64
	calls   int
}

var wireMethods = []string{"GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS"}

// newHreq is a request with headers and a body that have no bearing on the
// response.
func newHreq(rng *randT, p *prepared, method string) *hreq {
	h := &hreq{p: p, hdr: http.Header{}, reqBody: -1}
	addReqHdrs(rng, h.hdr)
	h.hdr.Del("Te")
	h.count = rng.IntN(2) == 0
	switch method {
	case "GET", "HEAD", "OPTIONS":
		if rng.IntN(8) == 0 {
			h.reqBody = rng.IntN(20)
		}
	default:
		h.reqBody = pick(rng, -1, 0, 1, 1, 300)
	}
	return h
}

type site struct {
	srv    [2]*httptest.Server
	cl     [2]*http.Client
	mu     sync.Mutex
	reqs   map[string]*hreq
	inner  handler.Handler // for what is not in reqs
	raw    http.HandlerFunc
	nextID int
	logs   bytes.Buffer
	logMu  sync.Mutex
}

func (s *site) Write(p []byte) (int, error) {
	s.logMu.Lock()
	defer s.logMu.Unlock()
	if s.logs.Len() < 1<<20 {
		s.logs.Write(p)
	}
	return len(p), nil
}

var protoNames = [2]string{"HTTP/1.1", "HTTP/2"}

func newSite() *site {
	installHook()
	s := &site{reqs: map[string]*hreq{}}
	root := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.mu.Lock()
		h := s.reqs[strings.Trim(q.URL.Path, "/")]
		inner, raw := s.inner, s.raw
		s.mu.Unlock()
		if h == nil && raw != nil {
			raw(w, q)
			return
		}
		if h == nil && inner != nil {
			handler.Adaptor{Inner: inner}.ServeHTTP(w, q)
			return
		}
		if h == nil {
			w.WriteHeader(599)
			return
		}
		defer close(h.done)
		defer func() {
			if v := recover(); v != nil {
				h.escaped, _ = guard(func() { panic(v) })
				if h.escaped == "" {
					h.escaped = "panic"
				}
			}
		}()
		h.gid = gid()
		h.calls++
		if h.outer != nil {
			h.outer(w.Header())
		}
		if h.count {
			w, h.took = counting(w)
		}
		if h.prewrap {
			w = response.NewWriter(w, q)
		}
		handler.Adaptor{Inner: handler.HandlerFunc(h.p.handle)}.ServeHTTP(w, q)
	})
	for i := range s.srv {
		srv := httptest.NewUnstartedServer(root)
		srv.Config.ErrorLog = log.New(s, "", 0)
		tr := &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16, MaxConnsPerHost: 64}
		if i == 1 {
			srv.EnableHTTP2 = true
			srv.StartTLS()
			base := srv.Client().Transport.(*http.Transport)
			tr.TLSClientConfig = &tls.Config{RootCAs: base.TLSClientConfig.RootCAs}
			tr.ForceAttemptHTTP2 = true
		} else {
			srv.Start()
		}
		s.srv[i] = srv
		s.cl[i] = &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	}
	return s
}

func (s *site) close() {
	for i := range s.srv {
		s.cl[i].CloseIdleConnections()
		s.srv[i].Close()
	}
}

// answer is what the client's HTTP library reported.
type answer struct {
	err     error
	code    int
	hdr     http.Header
	cl      int64
	body    []byte
	bodyErr error
	proto   string
}

func (s *site) do(h *hreq, proto int, method string) *answer {
	h.done = make(chan struct{})
	s.mu.Lock()
	s.nextID++
	id := strconv.Itoa(s.nextID)
	s.reqs[id] = h
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.reqs, id)
		s.mu.Unlock()
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	var rb io.Reader
	if h.reqBody >= 0 {
		rb = strings.NewReader(strings.Repeat("request body", h.reqBody))
	}
	q, err := http.NewRequestWithContext(ctx, method, s.srv[proto].URL+"/"+id, rb)
	if err != nil {
		panic(err)
	}
	for k, v := range h.hdr {
		q.Header[k] = v
	}
	a := &answer{}
	resp, err := s.cl[proto].Do(q)
	if err != nil {
		a.err = err
	} else {
		a.code, a.hdr, a.cl, a.proto = resp.StatusCode, resp.Header, resp.ContentLength, resp.Proto
		a.body, a.bodyErr = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	var ne *url.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return a
	}
	select {
	case <-h.done:
	case <-ctx.Done():
	}
	return a
}

// timedOut marks a request that got no answer in time; that is no verdict.
func (r *Run) timedOut(a *answer, kind string, idx int) bool {
	if errors.Is(a.err, context.DeadlineExceeded) || errors.Is(a.bodyErr, context.DeadlineExceeded) {
		r.Inconclusive("%s:%d the client gave up after 200 s", kind, idx)
		return true
	}
	var oe *net.OpError
	if errors.As(a.err, &oe) && oe.Op == "dial" {
		r.Inconclusive("%s:%d dial: %v", kind, idx, a.err)
		return true
	}
	return false
}

var outerKeys = []string{"X-Outer-1", "X-Outer-2", "Vary", "Cache-Control", "Set-Cookie", "X-A"}

func genWireHdr(rng *randT) http.Header {
	h := http.Header{}
	names := []string{"X-A", "X-B", "X-C", "Vary", "Set-Cookie", "Cache-Control", "Etag", "Link", "Content-Language", "Last-Modified", "X-Frame-Options", "Www-Authenticate", "Content-Type", "X-Long"}
	names = append(names, anyName(rng), anyName(rng), anyName(rng))
	for i := rng.IntN(6); i > 0; i-- {
		k := names[rng.IntN(len(names))]
		if k == "Content-Type" {
			h[k] = []string{pick(rng, "text/plain; charset=utf-8", "image/png", "application/x-y")}
			continue
		}
		if k == "Location" {
			// the client library parses it
			h[k] = []string{pick(rng, "/x", "http://example.org/a?b=c")}
			continue
		}
		h[k] = nil
		many := 1 + rng.IntN(3)
		if rng.IntN(10) == 0 {
			many = 4 + rng.IntN(40)
		}
		for j := many; j > 0; j-- {
			v := pick(rng, "", "v", "a, b", "W/\"x\"", "k=v; Path=/; HttpOnly", "<https://h/x>; rel=next", "é", "\"quoted, with comma\"", "x") + pick(rng, "", "1", "-"+strconv.Itoa(rng.IntN(1000)))
			if rng.IntN(20) == 0 {
				v = strings.Repeat("long", 100+rng.IntN(1500))
			}
			h[k] = append(h[k], v)
		}
	}
	if rng.IntN(4) == 0 {
		addSpellings(rng, h)
	}
	if rng.IntN(10) == 0 {
		for i := 0; i < 60; i++ {
			h["X-Many-"+strconv.Itoa(i)] = []string{strconv.Itoa(i), strconv.Itoa(i * i)}
		}
	}
	return h
}

// wire checks one answer against the response the handler returned.
func (r *Run) wire(p *prepared, a *answer, method string, outer http.Header) (string, []string) {
	if a.err != nil {
		return fmt.Sprintf("the client got no answer: %v", a.err), []string{"R03", "H01"}
	}
	if a.bodyErr != nil && a.code == p.a.Code && (a.code == 204 || a.code == 304) && len(a.body) == 0 && strings.HasPrefix(a.proto, "HTTP/2") && errors.Is(a.bodyErr, io.ErrUnexpectedEOF) && a.cl > 0 {
		// Go's HTTP/2 server, unlike its HTTP/1 server, lets a Content-Length
		// pass on these statuses and its client then misses the body
		a.bodyErr = nil
	}
	if a.bodyErr != nil {
		return fmt.Sprintf("the client could not read the body: %v after %d bytes", a.bodyErr, len(a.body)), []string{"R03", "H04"}
	}
	bl := bodyless(method, p.a.Code)
	tags := []string{"R03"}
	if bl {
		tags = append(tags, "R08")
	}
	if a.code != p.a.Code {
		return fmt.Sprintf("status %d, want %d", a.code, p.a.Code), append(tags, "H01")
	}
	want := p.mb.data
	if bl {
		want = nil
	}
	if !bytes.Equal(a.body, want) {
		return fmt.Sprintf("the client got %d body bytes, want %d: %s", len(a.body), len(want), diff(a.body, want)), append(tags, "H04")
	}
	exp := p.hdrs.Clone()
	if _, ok := a.hdr["Push"]; ok {
		return "the Push header reached the client", []string{"R03", "R05"}
	}
	delete(exp, "Push")
	if v, ok := a.hdr["Content-Length"]; ok && !(p.a.Code == 204 || p.a.Code == 304) {
		if len(v) != 1 || v[0] != strconv.Itoa(len(p.mb.data)) {
			return fmt.Sprintf("Content-Length %q reached the client for %d bytes", v, len(p.mb.data)), append(tags, "H04")
		}
	} else if _, specified := exp["Content-Length"]; specified && !(p.a.Code == 204 || p.a.Code == 304) {
		return "the Content-Length of the response was lost", append(tags, "H04")
	}
	for k, v := range outer {
		if _, ok := exp[k]; !ok {
			exp[k] = v
		}
	}
	got := a.hdr.Clone()
	for _, h := range []http.Header{got, exp} {
		delete(h, "Content-Length")
		if p.a.Code == 204 || p.a.Code == 304 {
			delete(h, "Content-Type") // net/http leaves it out of such responses
		}
	}
	if v, ok := exp["Date"]; !ok {
		delete(got, "Date")
	} else if len(v) == 0 {
		r.Count("date_suppressed", 1)
	}
	if msg := fieldsDiffer(got, exp); msg != "" {
		return msg + " at the client", tags
	}
	return "", nil
}

func (r *Run) wireCase(s *site, kind string, idx int, rng *randT, a hact, proto int, method string) bool {
	outer := http.Header{}
	for i := rng.IntN(4); i > 0; i-- {
		outer[outerKeys[rng.IntN(len(outerKeys))]] = []string{"outer" + strconv.Itoa(i), "o2"}
	}
	p := r.prepare(rng, a)
	defer p.done()
	h := newHreq(rng, p, method)
	h.prewrap = rng.IntN(4) == 0
	h.outer = func(w http.Header) {
		for k, v := range outer {
			w[k] = append([]string(nil), v...)
		}
	}
	takeHooks()
	ans := s.do(h, proto, method)
	step()
	if r.timedOut(ans, kind, idx) {
		return true
	}
	r.Count("requests_"+protoNames[proto], 1)
	r.Count("body_bytes_received", int64(len(ans.body)))
	r.Eval(hash64(method, proto, a.String(), fmt.Sprint(p.hdrs), fmt.Sprint(outer)), true)
	desc := fmt.Sprintf("%s over %s: %s, headers %.300v", method, protoNames[proto], a, p.hdrs)
	hooks := takeHooks()
	if h.escaped != "" {
		r.Violate([]string{"H01", "R03"}, kind, idx, desc+": a panic escaped the adaptor: "+h.escaped, nil)
		return false
	}
	if len(hooks) > 0 {
		e := ""
		guard(func() { e = hooks[0].err.Error() })
		r.Violate([]string{"H02", "R03", "R08"}, kind, idx, desc+": the panic hook was called: "+e, nil)
		return false
	}
	if msg, tags := r.wire(p, ans, method, outer); msg != "" {
		r.Violate(tags, kind, idx, desc+": "+msg, nil)
		return false
	}
	if p.mb.s != nil && p.mb.s.closes != 1 {
		r.Violate([]string{"R04", "R08"}, kind, idx, desc+fmt.Sprintf(": the reader was closed %d times", p.mb.s.closes), nil)
	}
	if idx < 3 {
		r.Sample(map[string]any{"case": desc, "status": ans.code, "headers": ans.hdr, "body_bytes": len(ans.body)})
	}
	return true
}

var wireLens = []int{0, 1, 2, 511, 512, 513, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200001}

func (r *Run) wireCases(kind string, n int, bodylessOnly bool) {
	s := newSite()
	defer s.close()
	gen := func(rng *randT) (hact, int, string) {
		a := hact{Kind: "ok", Body: bodyKinds[rng.IntN(len(bodyKinds))], Code: pick(rng, 200, 200, 200, 201, 206, 300, 301, 302, 400, 404, 418, 451, 500, 503, 599, 600, 799, 999, 200+rng.IntN(800)), FailAt: -1, Hdr: genWireHdr(rng), Copy: rng.IntN(6) == 0, ErrK: genErrK(rng)}
		a.Len = pick(rng, wireLens...)
		if rng.IntN(3) == 0 {
			a.Len = rng.IntN(5000)
		}
		if rng.IntN(200) == 0 {
			a.Len = 1<<20 + rng.IntN(1<<20)
		}
		method := pick(rng, "GET", "GET", "GET", "GET", "POST", "PUT", "HEAD")
		if bodylessOnly {
			method = pick(rng, "GET", "HEAD", "HEAD", "POST")
			if method != "HEAD" || rng.IntN(4) == 0 {
				a.Code = pick(rng, 204, 304)
			}
		} else if a.Code == 204 || a.Code == 304 {
			a.Code = 200
		}
		if rng.IntN(6) == 0 {
			a.Push = make([]error, 1+rng.IntN(3))
		}
		if rng.IntN(5) == 0 && !bodylessOnly {
			a.Hdr["Content-Length"] = []string{strconv.Itoa(a.Len)}
		}
		return a, rng.IntN(2), method
	}
	r.Cases(kind, n, func(rng *randT, idx int) {
		a, proto, method := gen(rng)
		r.wireCase(s, kind, idx, rng, a, proto, method)
	})
	if !bodylessOnly {
		// statuses one by one, lengths one by one, header-free
		r.Cases(kind+"-status", 800, func(rng *randT, idx int) {
			code := 200 + idx
			if code == 204 || code == 304 {
				return
			}
			for proto := 0; proto < 2; proto++ {
				r.wireCase(s, kind+"-status", idx, rng, hact{Kind: "ok", Body: bodyKinds[idx%7], Code: code, Len: idx % 40, FailAt: -1}, proto, "GET")
			}
		})
		r.Cases(kind+"-length", len(wireLens)*7*2, func(rng *randT, idx int) {
			a := hact{Kind: "ok", Body: bodyKinds[idx/2%7], Code: 200, Len: wireLens[idx/14], FailAt: -1}
			r.wireCase(s, kind+"-length", idx, rng, a, idx%2, "GET")
		})
	}
	// batches in flight at once
	r.Cases(kind+"-concurrent", n/100, func(rng *randT, idx int) {
		type job struct {
			p      *prepared
			proto  int
			method string
			ans    *answer
			h      *hreq
		}
		var jobs []*job
		for i := 0; i < 24; i++ {
			a, proto, method := gen(rng)
			p := r.prepare(rng, a)
			jobs = append(jobs, &job{p: p, proto: proto, method: method, h: newHreq(rng, p, method)})
		}
		takeHooks()
		msgs := par(8, func(g int) {
			for i := g; i < len(jobs); i += 8 {
				j := jobs[i]
				j.ans = s.do(j.h, j.proto, j.method)
				step()
			}
		})
		if len(msgs) > 0 {
			panic(msgs[0])
		}
		hooks := takeHooks()
		for _, j := range jobs {
			if r.timedOut(j.ans, kind, idx) {
				return
			}
			if msg, tags := r.wire(j.p, j.ans, j.method, nil); msg != "" {
				r.Violate(tags, kind+"-concurrent", idx, fmt.Sprintf("%s over %s beside 23 others: %s: %s", j.method, protoNames[j.proto], j.p.a, msg), nil)
				return
			}
			j.p.done()
			r.Count("concurrent_requests", 1)
			r.Eval(hash64(kind, idx, j.p.a.String(), j.proto), true)
		}
		if len(hooks) > 0 {
			r.Violate([]string{"H02", "R03"}, kind+"-concurrent", idx, fmt.Sprintf("the panic hook was called: %v", hooks[0].err), nil)
		}
	})
}

// failingCases sends requests whose handlers fail, beside others that do not.
func (r *Run) failingCases(kind string, n int) {
	s := newSite()
	defer s.close()
	judge := func(idx int, p *prepared, ans *answer, h *hreq, proto int, method, note string) bool {
		desc := fmt.Sprintf("%s over %s%s: %s", method, protoNames[proto], note, p.a)
		bad := func(tags []string, f string, x ...any) bool {
			r.Violate(tags, kind, idx, desc+": "+fmt.Sprintf(f, x...), nil)
			return false
		}
		if h.escaped != "" {
			return bad([]string{"H01"}, "a panic escaped the adaptor: %s", h.escaped)
		}
		if h.calls != 1 {
			return bad([]string{"H01"}, "the request was handled %d times", h.calls)
		}
		if ans.err != nil {
			return bad([]string{"H01"}, "the client got no answer: %v", ans.err)
		}
		early := p.a.Kind == "panic" || p.a.Kind == "zero"
		want := p.a.Code
		if early {
			want = 500
		}
		if ans.code != want {
			return bad([]string{"H01"}, "the client got status %d, want %d", ans.code, want)
		}
		all := append([]byte(fmt.Sprint(ans.hdr)), ans.body...)
		for _, t := range []string{secret, "injected", "goroutine ", "runtime error", "panic"} {
			if bytes.Contains(all, []byte(t)) {
				return bad([]string{"H01"}, "text of the failure (%q) was sent to the client: %q", t, tailOf(all))
			}
		}
		if p.a.Kind == "ok" {
			if msg, tags := r.wire(p, ans, method, nil); msg != "" {
				return bad(append(tags, "H01"), "a request that does not fail was disturbed: %s", msg)
			}
		}
		r.Count("answers_"+p.a.Kind, 1)
		return true
	}
	expectFail := func(p *prepared) bool {
		return p.a.Kind == "panic" || p.a.Kind == "zero" || p.a.Kind == "closed" || p.a.Kind == "closeerr" || p.readFailed()
	}
	gen := func(rng *randT) hact {
		a := genAct(rng, false)
		a.Push = nil
		return a
	}
	prev := snapMetrics()
	r.Cases(kind, n, func(rng *randT, idx int) {
		a := gen(rng)
		proto, method := rng.IntN(2), pick(rng, wireMethods...)
		p := r.prepare(rng, a)
		defer p.done()
		h := newHreq(rng, p, method)
		h.prewrap = rng.IntN(5) == 0
		takeHooks()
		ans := s.do(h, proto, method)
		step()
		if r.timedOut(ans, kind, idx) {
			return
		}
		hooks := takeHooks()
		next := snapMetrics()
		before := prev
		prev = next
		failed := expectFail(p)
		r.Eval(hash64(a.String(), proto, method), failed)
		if r.WantSample() && failed {
			r.Sample(map[string]any{"case": a.String(), "proto": protoNames[proto], "client_status": ans.code, "client_bytes": len(ans.body), "client_error": fmt.Sprint(ans.bodyErr), "hook_calls": len(hooks)})
		}
		if !judge(idx, p, ans, h, proto, method, "") {
			return
		}
		fails := 0
		if failed {
			fails = 1
			r.Count("failed_requests", 1)
		}
		if len(hooks) != fails {
			r.Violate([]string{"H02"}, kind, idx, fmt.Sprintf("%s over %s: %s: the panic hook was called %d times", method, protoNames[proto], a, len(hooks)), nil)
			return
		}
		if fails == 1 {
			e := hooks[0].err
			ok := true
			switch {
			case a.Kind == "panic":
				ok = sameErr(e, p.what, p.val)
			case p.readFailed():
				ok = errors.Is(e, p.mb.s.readErr())
			case a.Kind == "closeerr":
				ok = errors.Is(e, p.mb.s.closeErr())
			}
			if !ok {
				r.Violate([]string{"H02"}, kind, idx, fmt.Sprintf("%s: the panic hook got a %T, not the failure itself", a, e), nil)
				return
			}
		}
		code := strconv.Itoa(ans.code)
		sent := map[string]float64{code: float64(len(ans.body))}
		d := next.vec[3][code] - before.vec[3][code]
		bulkPanic := a.Kind == "readpanic" && p.readFailed() && proto == 0
		if h.took != nil && !bulkPanic {
			r.Count("requests_counted_at_the_server", 1)
			sent[code] = float64(h.took.Load())
		} else if failed && d >= float64(len(ans.body)) {
			sent[code] = d // bytes the server accepted but never delivered
		} else if bulkPanic {
			r.Violate3([]string{"H03"}, "panic-in-bulk-copy", kind, idx, fmt.Sprintf("%s over %s: %s: sent bytes grew by %v, the client received %d", method, protoNames[proto], a, d, len(ans.body)))
			sent[code] = d
		}
		if m := metricsDelta(before, next, map[string]int{code: 1}, sent, fails); m != "" {
			r.Violate([]string{"H03"}, kind, idx, fmt.Sprintf("%s over %s: %s: %s", method, protoNames[proto], a, m), nil)
			return
		}
		r.Count("metric_snapshots_compared", 1)
	})
	r.Cases(kind+"-concurrent", n/40, func(rng *randT, idx int) {
		type job struct {
			p      *prepared
			proto  int
			method string
			ans    *answer
			h      *hreq
		}
		var jobs []*job
		for i := 0; i < 32; i++ {
			a := gen(rng)
			p := r.prepare(rng, a)
			method := pick(rng, wireMethods...)
			jobs = append(jobs, &job{p: p, proto: rng.IntN(2), method: method, h: newHreq(rng, p, method)})
		}
		takeHooks()
		before := snapMetrics()
		msgs := par(8, func(g int) {
			for i := g; i < len(jobs); i += 8 {
				j := jobs[i]
				j.ans = s.do(j.h, j.proto, j.method)
				step()
			}
		})
		if len(msgs) > 0 {
			panic(msgs[0])
		}
		hooks := takeHooks()
		next := snapMetrics()
		prev = next
		byGid := map[uint64]int{}
		for _, h := range hooks {
			byGid[h.gid]++
		}
		wantGid := map[uint64]int{}
		reqs, sent, fails := map[string]int{}, map[string]float64{}, 0
		exact, loose := true, false
		for _, j := range jobs {
			if r.timedOut(j.ans, kind, idx) {
				return
			}
			if !judge(idx, j.p, j.ans, j.h, j.proto, j.method, " beside 31 others") {
				return
			}
			c := strconv.Itoa(j.ans.code)
			reqs[c]++
			sent[c] += float64(len(j.ans.body))
			if expectFail(j.p) {
				fails++
				wantGid[j.h.gid]++
				if len(j.ans.body) < j.p.a.Len {
					exact = false
				}
				if j.p.a.Kind == "readpanic" && j.p.readFailed() && j.proto == 0 {
					loose = true // panic-in-bulk-copy, judged one at a time
				}
			}
			r.Count("concurrent_requests", 1)
			r.Eval(hash64(kind, idx, j.p.a.String(), j.proto), true)
			j.p.done()
		}
		if len(hooks) != fails {
			r.Violate([]string{"H02"}, kind+"-concurrent", idx, fmt.Sprintf("%d requests failed, the panic hook was called %d times", fails, len(hooks)), nil)
			return
		}
		if !reflect.DeepEqual(byGid, wantGid) && len(byGid) > 0 {
			// a goroutine of a keep-alive connection serves several requests; the counts per goroutine must agree
			r.Violate([]string{"H02"}, kind+"-concurrent", idx, fmt.Sprintf("panic hook calls per serving goroutine %v, failures %v", byGid, wantGid), nil)
			return
		}
		if !exact || loose {
			for c := range sent {
				if d := next.vec[3][c] - before.vec[3][c]; d >= sent[c] || loose {
					sent[c] = d
				}
			}
		}
		if m := metricsDelta(before, next, reqs, sent, fails); m != "" {
			r.Violate([]string{"H03"}, kind+"-concurrent", idx, fmt.Sprintf("after %d concurrent requests, %d failed: %s", len(jobs), fails, m), nil)
		}
	})
}

// truncationCases: responses that cannot be completed.
func (r *Run) truncationCases(kind string, n int) {
	s := newSite()
	defer s.close()
	r.Cases(kind, n, func(rng *randT, idx int) {
		a := hact{Kind: pick(rng, "readfail", "readfail", "readpanic", "truncated", "ok"), Body: pick(rng, "readerat", "seeker", "buffered", "buffered-decl"), Code: pick(rng, 200, 200, 206, 404, 500), FailAt: -1, Copy: rng.IntN(8) == 0, ErrK: genErrK(rng)}
		a.Len = pick(rng, 0, 1, 100, 2047, 2048, 2049, 4096, 5000, 40000, 65536, 100000, rng.IntN(9000), rng.IntN(9000))
		switch a.Kind {
		case "readfail", "readpanic":
			a.FailAt, a.FailData = pick(rng, 0, a.Len/2, max(a.Len-1, 0), rng.IntN(a.Len+1)), rng.IntN(2) == 0
		case "truncated":
			a.Declared = a.Len + pick(rng, 1, 2, 10, 5000)
		}
		a.Hdr = http.Header{}
		if rng.IntN(2) == 0 {
			addTelling(rng, a.Hdr, true)
		}
		if rng.IntN(4) == 0 {
			a.Hdr["Content-Length"] = []string{strconv.Itoa(max(a.Len, a.Declared))}
		}
		proto := rng.IntN(2)
		method := pick(rng, "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS")
		p := r.prepare(rng, a)
		defer p.done()
		h := newHreq(rng, p, method)
		takeHooks()
		ans := s.do(h, proto, method)
		step()
		if r.timedOut(ans, kind, idx) {
			return
		}
		hooks := takeHooks()
		full := len(p.mb.data)
		if a.Kind == "truncated" {
			full = a.Declared
		}
		_, known := p.hdrs["Content-Length"]
		clean := ans.err == nil && ans.bodyErr == nil && ans.code == a.Code
		r.Eval(hash64(a.String(), proto, method), true)
		r.Count("responses", 1)
		if known {
			r.Count("responses_known_length", 1)
		}
		if !clean {
			r.Count("incomplete_noticed_by_client", 1)
			if a.Kind == "ok" {
				r.Bad(kind, idx, "%s over %s: %s: the client reports %v %v status %d for a response without failure", method, protoNames[proto], a, ans.err, ans.bodyErr, ans.code)
			}
			return
		}
		r.Count("complete_for_client", 1)
		if len(ans.body) == full && bytes.Equal(ans.body, p.mb.data[:min(full, len(p.mb.data))]) {
			return
		}
		detail := fmt.Sprintf("%s over %s: %s, headers %.300v: the client's HTTP library reports a complete body of %d bytes, the response has %d", method, protoNames[proto], a, p.hdrs, len(ans.body), full)
		// the listed finding: undeclared length, the failure was noticed by the
		// server, and everything before it was delivered
		if !known && a.Body == "buffered" && (a.Kind == "readfail" || a.Kind == "readpanic") && p.readFailed() && len(hooks) == 1 && bytes.Equal(ans.body, p.mb.data[:min(len(ans.body), full)]) && len(ans.body) <= a.FailAt {
			r.Finding("unknown-length-"+strings.ToLower(strings.ReplaceAll(protoNames[proto], "/", "")), kind, idx, detail, nil)
			return
		}
		r.Bad(kind, idx, "%s", detail)
	})
}

func (r *Run) hookDefault() {
	r.Cases("default-hook", 1, func(*randT, int) {
		if msg, _ := guard(func() { handler.DefaultOnPanic(errors.New("x")) }); msg != "" {
			r.Bad("default-hook", 0, "the default hook panics: %s", msg)
		}
	})
}

var _ = body.Empty

func init() {
	div := func(n int) int {
		if raceEnabled {
			return n/8 + 1
		}
		return n
	}
	direct := "Direct cases run the adaptor over an instrumented writer (32 capability sets, failing or panicking at a byte, wrapped by outer layers, early hints, status already sent) with generated handler behaviour: success, panics of some seventy sorts before the status, readers failing or panicking at a byte, failing Close, failing or unsupported push, zero and closed responses."
	real := "Real cases go through net/http servers over HTTP/1.1 and HTTP/2, one at a time and 24-32 at once, and are judged by what the client's HTTP library reports, the hook's calls and the exported metrics; some clients leave in the middle of an endless response."
	checks["R03"] = func(r *Run) {
		r.Rule("Responses with generated headers (multiple values, empty, long, up to 60 fields), statuses (each of 200-999 but 204 and 304), all seven kinds of body and boundary lengths, over real HTTP/1.1 and HTTP/2 connections, with outer header fields set beforehand; and over an instrumented writer that notes the headers it holds when the status is sent, with any header field that net/http interprets (Trailer, Connection, Content-Encoding, Content-Length ...). Distinct by response and protocol; every case is non-trivial.")
		r.Assume("Header values have no surrounding space, CR or LF, which HTTP itself does not preserve. Date may be added by net/http.")
		r.serveExact("serve", r.N(40000, 400000))
		r.wireCases("wire", r.N(8000, 80000), false)
	}
	checks["R08"] = func(r *Run) {
		r.Rule("HEAD requests and statuses 204 and 304 through every path of the library's writer (instrumented writer that refuses any byte), through Serve, and through real HTTP/1.1 and HTTP/2 servers. Distinct by calls; non-trivial when there were bytes to suppress.")
		r.Assume("net/http itself drops Content-Length and Content-Type from 204 and 304 responses.")
		r.writerCases("sequence", r.N(60000, 600000), true)
		r.bodylessServe("serve", r.N(30000, 300000))
		r.wireCases("wire", r.N(4000, 40000), true)
	}
	for id, what := range map[string]string{"H01": "escapes, statuses and answers", "H02": "hook calls", "H03": "metric deltas"} {
		what := what
		checks[id] = func(r *Run) {
			r.Rule(direct + " " + real + " Judged here: " + what + ". Distinct by behaviour, method and writer; non-trivial when a failure was reached or bytes were sent.")
			r.Assume("panic(nil), runtime.Goexit, response writers whose WriteHeader panics, and hooks that panic are outside the property.")
			r.directCases("direct", div(r.N(30000, 300000)))
			r.failingCases("real", div(r.N(4000, 40000)))
			r.abandonCases("abandon", div(r.N(240, 2400)))
			if id == "H03" {
				sec := time.Second
				naps := []time.Duration{sec / 2, sec * 11 / 10, sec * 13 / 10, sec * 3 / 2, sec * 19 / 10, sec * 5 / 2, sec * 31 / 10, sec * 43 / 10, sec * 52 / 10, sec * 61 / 10, sec * 77 / 10, sec * 104 / 10, 12 * sec, 16 * sec}
				if r.Thorough() {
					naps = append(naps, 31*sec, 62*sec)
				}
				r.longCases("long", naps)
			}
			r.hookDefault()
		}
	}
	checks["H04"] = func(r *Run) {
		r.Rule("Responses whose reader fails, panics or ends before its declared length at a chosen byte, and intact ones, over real HTTP/1.1 and HTTP/2; the client's view (complete or not, bytes) is compared with the response. Distinct by behaviour and protocol; every case is non-trivial.")
		r.Assume("HTTP/1.0 clients are not considered.")
		r.truncationCases("truncation", r.N(8000, 80000))
	}
}
