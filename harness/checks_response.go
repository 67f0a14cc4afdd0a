package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
)

// countBody is a Body of the caller's own that delegates to another one and
// counts how it is closed.
type countBody struct {
	body.Body
	closes   int
	reads    int
	closeErr error
	late     int // calls after Close
}

func (c *countBody) Read(p []byte) (int, error) {
	c.reads++
	if c.closes > 0 {
		c.late++
	}
	return c.Body.Read(p)
}

func (c *countBody) Close() error {
	c.closes++
	err := c.Body.Close()
	if err == nil && c.closes == 1 {
		err = c.closeErr
	}
	return err
}

const (
	mFlush = 1 << iota
	mHijack
	mNotify
	mFrom
	mPush
	mFull = mFlush | mHijack | mNotify | mFrom
)

func writeLen(rng *randT) int {
	if rng.IntN(40) == 0 {
		return pick(rng, 1023, 1024, 2048, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65536, 70000)
	}
	if rng.IntN(4000) == 0 {
		return hugeLen(rng)
	}
	return pick(rng, 0, 1, 7, 30, 100, rng.IntN(300))
}

func req(method string) *http.Request { return httptest.NewRequest(method, "/", nil) }

func bodyless(method string, code int) bool {
	return method == "HEAD" || code == 204 || code == 304
}

// ---- R04: whatever fails while serving ----

type serveFault struct {
	name              string
	limit             int // writer accepts that many bytes
	mode              string
	panicAt           int
	panicHdr          bool
	readAt            int // reader fails there
	readPan, readData bool
	push              []error
}

var errWrappedNS = fmt.Errorf("h2: %w", http.ErrNotSupported)

func serveFaults(n int) []serveFault {
	none := serveFault{limit: -1, panicAt: -1, readAt: -1}
	var out []serveFault
	add := func(name string, f func(*serveFault)) {
		x := none
		x.name = name
		f(&x)
		out = append(out, x)
	}
	add("none", func(*serveFault) {})
	pos := []int{0}
	for _, p := range []int{1, n / 2, n - 1, n} {
		if p > pos[len(pos)-1] {
			pos = append(pos, p)
		}
	}
	for _, p := range pos {
		p := p
		add(fmt.Sprintf("write fails at %d", p), func(f *serveFault) { f.limit, f.mode = p, "fail" })
		add(fmt.Sprintf("write fails late at %d", p), func(f *serveFault) { f.limit, f.mode = p, "late" })
		add(fmt.Sprintf("write short at %d", p), func(f *serveFault) { f.limit, f.mode = p, "short" })
		add(fmt.Sprintf("write panics at %d", p), func(f *serveFault) { f.panicAt = p })
		add(fmt.Sprintf("read fails at %d", p), func(f *serveFault) { f.readAt = p })
		add(fmt.Sprintf("read fails with data at %d", p), func(f *serveFault) { f.readAt, f.readData = p, true })
		add(fmt.Sprintf("read panics at %d", p), func(f *serveFault) { f.readAt, f.readPan = p, true })
		add(fmt.Sprintf("read and write fail at %d", p), func(f *serveFault) { f.readAt, f.limit, f.mode = p, p, "fail" })
	}
	add("status panics", func(f *serveFault) { f.panicHdr = true })
	add("push fails", func(f *serveFault) { f.push = []error{errInjPush} })
	add("second push fails", func(f *serveFault) { f.push = []error{nil, errInjPush} })
	add("push unsupported", func(f *serveFault) { f.push = []error{http.ErrNotSupported, errWrappedNS, http.ErrNotSupported} })
	add("third push fails, then write", func(f *serveFault) {
		f.push, f.limit, f.mode = []error{http.ErrNotSupported, nil, errInjPush}, 0, "fail"
	})
	return out
}

func (r *Run) serveFaultCases() {
	sizes := []int{0, 1, 6, 40000}
	kinds := append([]string{"own"}, bodyKinds...)
	wraps := []string{"raw", "GET", "HEAD"}
	codes := []int{200, 404, 204, 304}
	for si, n := range sizes {
		faults := serveFaults(n)
		total := len(faults) * len(kinds) * 32 * len(wraps) * len(codes) * 2
		if n > 100 && !r.Thorough() {
			total /= 16 // the idx below strides over the space
		}
		kind := fmt.Sprintf("faults-%d", n)
		full := len(faults) * len(kinds) * 32 * len(wraps) * len(codes) * 2
		r.Cases(kind, total, func(rng *randT, idx int) {
			x := idx
			if total < full {
				x = rng.IntN(full)
			}
			take := func(m int) int { v := x % m; x /= m; return v }
			f := faults[take(len(faults))]
			bk := kinds[take(len(kinds))]
			mask := take(32)
			wrap := wraps[take(len(wraps))]
			code := codes[take(len(codes))]
			closeErr := take(2) == 1
			r.serveFault(kind, idx, rng, n, f, bk, mask, wrap, code, closeErr)
		})
		_ = si
	}
	r.Cases("faults-random", r.N(20000, 200000), func(rng *randT, idx int) {
		n := genLen(rng, .05)
		if rng.IntN(400) == 0 {
			n = hugeLen(rng)
		}
		f := serveFault{name: "random", limit: -1, panicAt: -1, readAt: -1}
		for k := rng.IntN(3); k >= 0; k-- {
			switch rng.IntN(6) {
			case 0:
				f.limit, f.mode = rng.IntN(n+2), pick(rng, "fail", "fail", "late")
			case 1:
				f.limit, f.mode = rng.IntN(n+2), "short"
			case 2:
				f.panicAt = rng.IntN(n + 2)
			case 3, 4:
				f.readAt, f.readPan, f.readData = rng.IntN(n+1), rng.IntN(4) == 0, rng.IntN(2) == 0
			case 5:
				for q := rng.IntN(4); q >= 0; q-- {
					f.push = append(f.push, pick[error](rng, nil, nil, http.ErrNotSupported, errWrappedNS, pushError(rng)))
				}
			}
		}
		f.name = fmt.Sprintf("%+v", f)
		r.serveFault("faults-random", idx, rng, n, f, kinds[rng.IntN(len(kinds))], rng.IntN(32), wraps[rng.IntN(3)], pick(rng, 200, 204, 304, 200+rng.IntN(800), 200+rng.IntN(800)), rng.IntN(3) == 0)
	})
}

func (r *Run) serveFault(kind string, idx int, rng *randT, n int, f serveFault, bk string, mask int, wrap string, code int, closeErr bool) {
	srcKind := bk
	if bk == "own" {
		srcKind = bodyKinds[rng.IntN(len(bodyKinds)-1)]
	}
	errK, wErrK := genErrK(rng), genErrK(rng)
	mb := r.mkBody(rng, srcKind, n, func(sp *srcSpec) {
		sp.CloseErr, sp.ErrK = closeErr && bk != "own", errK
		if f.readAt >= 0 {
			sp.FailAt, sp.FailN, sp.FailData, sp.FailPan = f.readAt, -1, f.readData, f.readPan
		}
	})
	defer mb.done()
	eRead, eClose := errOf(errInjRead, errK), errOf(errInjClose, errK)
	b := mb.b
	var own *countBody
	if bk == "own" {
		own = &countBody{Body: mb.b}
		if closeErr {
			own.closeErr = eClose
		}
		b = own
	}
	sib, _ := b.Copy()
	keep := sib != nil && rng.IntN(4) == 0
	if !keep && sib != nil {
		sib.Close()
		sib = nil
	}
	bld := response.NewBuilder().WithStatus(code).WithBody(b)
	for i := range f.push {
		bld.WithHeader("Push", fmt.Sprintf("/p%d", i), true)
	}
	noise(rng, bld)
	x := bld.Build()
	fw := newFakeW()
	fw.limit, fw.mode, fw.panicAt, fw.panicHdr, fw.pushErrs = f.limit, f.mode, f.panicAt, f.panicHdr, f.push
	fw.werr = errOf(errInjWrite, wErrK)
	var w http.ResponseWriter = fw.anyWrap(rng, mask)
	method := "GET"
	if wrap != "raw" {
		method = wrap
		w = response.NewWriter(w, anyReq(rng, method))
	}
	step()
	var err error
	msg, pv := guard(func() { err = x.Serve(w) })
	desc := fmt.Sprintf("%s; %s body of %d bytes, writer caps %05b via %s, status %d, close fails: %v", f.name, bk, n, mask, wrap, code, closeErr)
	bad := func(format string, a ...any) {
		r.Violate([]string{"R04"}, kind, idx, desc+": "+fmt.Sprintf(format, a...), nil)
	}
	r.Count("serves", 1)
	readFail := mb.s != nil && mb.s.raised > 0
	// what happened, in the order it can happen
	var pushErr error
	if mask&mPush != 0 {
		for i := 0; i < fw.pushN && i < len(f.push); i++ {
			if pushErr == nil && isPushError(f.push[i]) {
				pushErr = f.push[i]
			}
		}
	}
	reached := []string{}
	for name, c := range map[string]bool{"push": pushErr != nil, "write": fw.failures > 0, "short": fw.shorts > 0, "wpanic": fw.panics > 0, "read": readFail} {
		if c {
			reached = append(reached, name)
			r.Count("faults_reached_"+name, 1)
		}
	}
	r.Eval(hash64(f.name, bk, n, mask, wrap, code, closeErr), len(reached) > 0 || closeErr || n > 0)

	// the body is closed exactly once
	switch {
	case own != nil:
		if own.closes != 1 {
			bad("the body was closed %d times", own.closes)
			return
		}
		if own.late > 0 {
			bad("the body was read after it had been closed")
			return
		}
	default:
		if _, e := b.Read(make([]byte, 1)); !errors.Is(e, fs.ErrClosed) {
			bad("the body is still open after Serve (%v)", e)
			return
		}
	}
	if mb.s != nil {
		want := int64(1)
		if keep {
			want = 0
		}
		if mb.s.closes != want {
			bad("the reader was closed %d times, want %d", mb.s.closes, want)
			return
		}
	}
	if keep {
		// another copy of the body must be unaffected by all this
		if f.readAt < 0 {
			raw, e := io.ReadAll(sib)
			if e != nil || !bytes.Equal(raw, mb.data) {
				bad("a copy kept beside the served body reads %d bytes (%v), want %d", len(raw), e, len(mb.data))
				return
			}
		}
		guard(func() { sib.Close() })
		if mb.s != nil && mb.s.closes != 1 {
			bad("the reader was closed %d times after the last copy was closed", mb.s.closes)
			return
		}
	}

	panicked := msg != ""
	canPanic := fw.panics > 0 || readFail && f.readPan
	if panicked {
		if !canPanic {
			bad("Serve panicked though nothing it used did: %s", msg)
			return
		}
		if e, ok := pv.(error); ok && (errors.Is(e, errWPanic) || errors.Is(e, eRead)) {
			r.Count("panics_propagated", 1)
		}
		return
	}
	if canPanic {
		if err == nil {
			bad("a panic was swallowed and Serve returned nil")
		}
		return
	}
	if err == nil {
		if closeErr && !keep && (own != nil || mb.s != nil) {
			bad("Serve returned nil though closing the body failed")
			return
		}
		if !(wrap != "raw" && bodyless(method, code)) && !bytes.Equal(fw.got, mb.data) {
			bad("Serve returned nil though the writer accepted %d of %d bytes: %s", len(fw.got), len(mb.data), diff(fw.got, mb.data))
			return
		}
		for _, name := range reached {
			bad("Serve returned nil though a %s failure occurred", name)
			return
		}
		r.Count("serves_succeeded", 1)
		return
	}
	r.Count("serves_failed", 1)
	switch {
	case pushErr != nil:
		if !errors.Is(err, pushErr) {
			bad("returned %v, the first failure was the push", err)
		}
	case fw.shorts > 0:
		if errors.Is(err, eClose) {
			bad("returned the close failure although the writer had cut a write short before")
		}
	case fw.failures > 0 || readFail:
		if !(fw.failures > 0 && errors.Is(err, fw.werr) || readFail && errors.Is(err, eRead)) {
			bad("returned %v instead of the write or read failure", err)
		}
	case closeErr:
		if !errors.Is(err, eClose) {
			bad("returned %v instead of the failure of closing", err)
		}
		if own == nil && mb.s == nil {
			bad("returned %v though nothing failed", err)
		}
	default:
		bad("returned %v though nothing failed", err)
	}
}

// ---- R05: push ----

func (r *Run) pushCases(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		k := rng.IntN(6)
		if rng.IntN(10) == 0 {
			k = 20 + rng.IntN(30)
		}
		if rng.IntN(100) == 0 {
			k = pick(rng, 99, 101, 127, 129, 255, 257, 300, 1025)
		}
		mask := rng.IntN(32)
		wrap := pick(rng, "raw", "GET", "HEAD", "POST")
		var urls []string
		var errs []error
		fails := rng.IntN(2) == 0
		for i := 0; i < k; i++ {
			u := pick(rng, "/a.css", "/b.js", "", "https://h/x", "/é", " /s ", "/dup", "/a?b=c&d", "/x#frag", "//h/y", "HTTP://H/Z", "rel/ative", "../up", "/a,/b", "</a.css>; rel=preload", "*", "/%2F%zz", "/"+strings.Repeat("l", 2000)) + pick(rng, "", "", fmt.Sprint(i))
			urls = append(urls, u)
			e := pick[error](rng, nil, nil, nil, http.ErrNotSupported, errWrappedNS)
			if fails && rng.IntN(max(3, k/2)) == 0 {
				e = pick[error](rng, pushError(rng), fmt.Errorf("wrapped: %w", errInjPush), errors.New("http2: recursive push not allowed"))
			}
			errs = append(errs, e)
		}
		var firstFail error
		failAt := -1
		for i, e := range errs {
			if e != nil && !errors.Is(e, http.ErrNotSupported) {
				firstFail, failAt = e, i
				break
			}
		}
		mb := r.mkBody(rng, bodyKinds[rng.IntN(len(bodyKinds)-1)], pick(rng, 0, 1, 1+rng.IntN(50), 1+rng.IntN(50), 5000), nil)
		defer mb.done()
		code := pick(rng, 200, 302, 404, 204, 304)
		if rng.IntN(2) == 0 {
			code = 200 + rng.IntN(800)
		}
		bld := response.NewBuilder().WithStatus(code).WithBody(mb.b).WithHeader("X-Keep", "1", false)
		if rng.IntN(4) == 0 {
			bld.WithError(errInjConst)
		}
		viaMap := rng.IntN(3) == 0
		if viaMap && k > 0 {
			bld.WithHeaders(http.Header{"Push": urls, "X-Keep": {"1"}})
		} else {
			for _, u := range urls {
				bld.WithHeader(pick(rng, "Push", "push", "PUSH"), u, true)
			}
		}
		if rng.IntN(3) == 0 {
			// fields that have something to do with pushing or caching
			for i := rng.IntN(3); i >= 0; i-- {
				bld.WithHeader(pick(rng, "Link", "Cache-Control", "Location", "Content-Type", "Vary", "Etag", "Connection", "Content-Encoding", "X-Accel-Expires", "Accept-Push-Policy"), pick(rng, "</a.css>; rel=preload; as=style", "</b.js>; rel=preload; nopush", "no-cache", "no-store", "private", "close", "/x", "gzip", "text/html", ""), true)
			}
		}
		x := bld.Build()
		if rng.IntN(4) == 0 {
			y, err := x.Copy()
			if err == nil {
				x.Body().Close()
				x = y
			}
		}
		fw := newFakeW()
		fw.pushErrs = errs
		fw.hdr.Set("X-Outer", "1")
		var w http.ResponseWriter = fw.anyWrap(rng, mask)
		method := "GET"
		if wrap != "raw" {
			method = wrap
			w = response.NewWriter(w, anyReq(rng, method))
		}
		step()
		var err error
		msg, _ := guard(func() { err = x.Serve(w) })
		bad := func(format string, a ...any) {
			r.Violate([]string{"R05"}, kind, idx, fmt.Sprintf("pushes %q results %v, caps %05b via %s: ", urls, errs, mask, wrap)+fmt.Sprintf(format, a...)+fmt.Sprintf("; log %v", fw.log), nil)
		}
		r.Count("push_requests", int64(fw.pushN))
		r.Eval(hash64(fmt.Sprint(urls, errs), mask, wrap, code), k > 0)
		if k > 0 && k < 4 {
			r.Sample(map[string]any{"urls": urls, "caps": mask, "log": fmt.Sprint(fw.log), "err": fmt.Sprint(err)})
		}
		if msg != "" {
			bad("Serve: %s", msg)
			return
		}
		var want []string
		if mask&mPush != 0 {
			for i, u := range urls {
				want = append(want, u)
				if i == failAt {
					break
				}
			}
		} else {
			failAt, firstFail = -1, nil
		}
		var got []string
		sent := false
		for _, e := range fw.log {
			switch e.K {
			case "push":
				if sent {
					bad("push of %q after the status or body", e.Arg)
					return
				}
				got = append(got, e.Arg)
			case "status":
				sent = true
				if _, ok := e.Hdr["Push"]; ok {
					bad("the Push header was sent")
					return
				}
				if e.Hdr.Get("X-Keep") != "1" || e.Hdr.Get("X-Outer") != "1" {
					bad("headers lost: %v", e.Hdr)
				}
			case "write", "readfrom":
				sent = true
			}
		}
		if !reflect.DeepEqual(got, want) {
			bad("pushed %q, want %q", got, want)
			return
		}
		if _, ok := fw.hdr["Push"]; ok {
			bad("the Push header reached the response writer")
			return
		}
		if failAt >= 0 {
			r.Count("pushes_failed", 1)
			if sent {
				bad("a status or body byte was sent although a push had failed")
				return
			}
			if err == nil || !errors.Is(err, firstFail) {
				bad("returned %v, want the push failure %v", err, firstFail)
			}
			return
		}
		if err != nil {
			bad("returned %v though no push failed", err)
			return
		}
		if !(wrap != "raw" && bodyless(method, code)) && !bytes.Equal(fw.got, mb.data) {
			bad("body sent: %d of %d bytes", len(fw.got), len(mb.data))
		}
		r.Count("pushes_served", 1)
	})
}

// ---- R06, R07, R08: operation sequences on the library's writer ----

// onlyReader hides every optional interface of its reader.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// wop runs one random sequence on the library's writer over an instrumented
// writer and follows it with a model; tag prefixes choose what is judged.
func (r *Run) writerCases(kind string, n int, forceBodyless bool) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		mask := rng.IntN(32)
		if rng.IntN(3) == 0 {
			mask |= mFull
		}
		method := pick(rng, allMethods...)
		fw := newFakeW()
		fw.conn, _ = net.Pipe()
		faulty := rng.IntN(2) == 0
		if faulty {
			fw.limit, fw.mode, fw.werr = rng.IntN(200), pick(rng, "fail", "fail", "late", "short"), errOf(errInjWrite, genErrK(rng))
		}
		var code int
		if forceBodyless {
			if method != "HEAD" {
				code = pick(rng, 204, 304)
			}
			if rng.IntN(2) == 0 {
				fw.limit, fw.mode = 0, "fail"
			} else {
				fw.limit = -1
			}
		}
		for i := 0; i < 12; i++ {
			fw.pushErrs = append(fw.pushErrs, pick[error](rng, nil, nil, http.ErrNotSupported, errWrappedNS, errInjPush))
		}
		fw.hijackErr = pick[error](rng, nil, http.ErrNotSupported, errors.New("connection gone"))
		under := fw.anyWrap(rng, mask)
		w := response.NewWriter(under, anyReq(rng, method))
		var hist []string
		bad := func(tags []string, format string, a ...any) {
			r.Violate(tags, kind, idx, fmt.Sprintf(format, a...)+fmt.Sprintf("; %s, caps %05b, limit %d/%s; calls %v; underlying saw %v", method, mask, fw.limit, fw.mode, hist, fw.log), append([]string(nil), hist...))
		}
		status := 0       // final status the underlying writer must have seen
		var want []int    // statuses the underlying writer must have seen
		refused := false  // a second status was refused
		unspec := false   // SawError is unspecified from here on
		hijacked := false // nothing more is done
		pushes := 0
		implicit := func() {
			if status == 0 {
				status = 200
				want = append(want, 200)
			}
		}
		forwarded := func(kind string) (n int) {
			for _, e := range fw.log {
				if e.K == kind {
					n++
				}
			}
			return n
		}
		nops := 1 + rng.IntN(12)
		for k := 0; k < nops && !hijacked; k++ {
			step()
			op := rng.IntN(22)
			if forceBodyless && k == 0 && code != 0 {
				op = 0
			}
			got0, fail0, short0, off0 := len(fw.got), fw.failures, fw.shorts, fw.offered
			switch {
			case op < 3: // explicit final status
				c := pick(rng, 200, 201, 204, 304, 404, 500, 299, 999, 200+rng.IntN(800))
				if forceBodyless && status == 0 {
					c = pick(rng, 200, 404)
					if code != 0 {
						c = code
					}
				}
				hist = append(hist, fmt.Sprintf("WriteHeader(%d)", c))
				if status == 0 && !forceBodyless && rng.IntN(12) == 0 {
					c = http.StatusSwitchingProtocols
				}
				log0 := len(fw.log)
				msg, _ := guard(func() { w.WriteHeader(c) })
				if status == 0 {
					if msg != "" {
						bad([]string{"R06"}, "the first status panicked: %s", msg)
						return
					}
					status = c
					want = append(want, c)
				} else {
					refused = true
					r.Count("second_status_refused", 1)
					if msg == "" {
						bad([]string{"R06"}, "a second explicit status was not refused by a panic")
						return
					}
					if len(fw.log) != log0 {
						bad([]string{"R06"}, "a refused second status reached the underlying writer")
						return
					}
				}
			case op < 5:
				c := pick(rng, 200, 204, 304, 404, 500, 200+rng.IntN(800))
				if forceBodyless && status == 0 && code != 0 {
					c = code
				}
				if status != 0 && rng.IntN(3) == 0 {
					c = pick(rng, 100, 101, 102, 103, 150, 199)
				}
				hist = append(hist, fmt.Sprintf("MaybeWriteHeader(%d)", c))
				log0 := len(fw.log)
				msg, _ := guard(func() { w.MaybeWriteHeader(c) })
				if msg != "" {
					bad([]string{"R06"}, "a conditional status panicked: %s", msg)
					return
				}
				if status == 0 {
					status = c
					want = append(want, c)
				} else if len(fw.log) != log0 {
					bad([]string{"R06"}, "a conditional status after the first was not ignored")
					return
				}
			case op == 5: // informational
				if status != 0 {
					continue
				}
				c := pick(rng, 100, 102, 103, 103, 199)
				hist = append(hist, fmt.Sprintf("status %d", c))
				msg, _ := guard(func() {
					if rng.IntN(3) == 0 {
						w.MaybeWriteHeader(c)
					} else {
						w.WriteHeader(c)
					}
				})
				if msg != "" {
					bad([]string{"R06"}, "informational status: %s", msg)
					return
				}
				want = append(want, c)
				r.Count("informational", 1)
			case op == 6: // out of range
				if status != 0 {
					continue
				}
				c := pick(rng, 0, -1, 99, 1000, 12345)
				hist = append(hist, fmt.Sprintf("WriteHeader(%d)", c))
				guard(func() { w.WriteHeader(c) })
			case op < 18 && status == http.StatusSwitchingProtocols:
				continue // what follows the switch is not HTTP
			case op < 12: // Write
				p := content(writeLen(rng), rng.Uint64()|1, false)
				p0 := append([]byte(nil), p...)
				how := "Write"
				var nw int
				var err error
				msg, _ := guard(func() {
					if rng.IntN(4) == 0 {
						how = "WriteString"
						nw, err = io.WriteString(w, string(p))
					} else {
						nw, err = w.Write(p)
					}
				})
				hist = append(hist, fmt.Sprintf("%s(%d)=%d,%v", how, len(p), nw, err))
				if msg != "" {
					bad([]string{"R06", "R07", "R08"}, "Write panicked: %s", msg)
					return
				}
				implicit()
				if !bytes.Equal(p, p0) {
					bad([]string{"R07"}, "Write modified its buffer")
					return
				}
				if bodyless(method, status) {
					if nw != len(p) || err != nil {
						bad([]string{"R08"}, "Write to a bodyless response returned %d, %v", nw, err)
						return
					}
					if fw.offered != off0 {
						bad([]string{"R08"}, "body bytes passed to the underlying writer")
						return
					}
					r.Count("bytes_suppressed", int64(len(p)))
				} else {
					acc := fw.got[got0:]
					if nw != len(acc) || (err != nil) != (fw.failures > fail0) || err != nil && fw.failures > fail0 && err != fw.werr {
						bad([]string{"R07"}, "Write returned %d, %v; the underlying writer accepted %d (failed: %v)", nw, err, len(acc), fw.failures > fail0)
						return
					}
					if !bytes.Equal(acc, p[:len(acc)]) || len(acc) < len(p) && fw.failures == fail0 && fw.shorts == short0 {
						bad([]string{"R07"}, "the underlying writer got %d bytes of %d, or other bytes", len(acc), len(p))
						return
					}
				}
				if fw.shorts > short0 {
					unspec = true
				}
			case op < 18: // bulk copy or io.Copy
				sp := srcSpec{Len: pick(rng, 0, 1, 50, rng.IntN(500), rng.IntN(500)), FailAt: -1, Declared: -1, Seed: rng.Uint64()>>12 | 1, EOFData: rng.IntN(2) == 0, Frag: pick(rng, 0, 1, 2, 50)}
				srcFail := rng.IntN(5) == 0
				if rng.IntN(60) == 0 {
					sp.Len = 70000
				}
				if rng.IntN(3000) == 0 {
					sp.Len, sp.Frag = hugeLen(rng), 0
				}
				if srcFail {
					sp.FailAt, sp.FailN, sp.FailData, sp.ErrK = rng.IntN(sp.Len+1), -1, rng.IntN(2) == 0, genErrK(rng)
				}
				s := newSrc(sp)
				s.inCtor = false
				var rd io.Reader = onlyReader{s.reader()}
				how := "io.Copy"
				var nw int64
				var err error
				rf, isRF := w.(io.ReaderFrom)
				data := s.data
				msg, _ := guard(func() {
					switch {
					case isRF && rng.IntN(2) == 0:
						how = "ReadFrom"
						if rng.IntN(2) == 0 {
							rd, how = stdReader(rng, s.data)
							how = "ReadFrom " + how
							srcFail = false
						}
						nw, err = rf.ReadFrom(rd)
					case rng.IntN(3) == 0:
						how = "Body.WriteTo"
						srcFail = false
						b := body.FromBytes(data)
						nw, err = io.Copy(w, b)
					case rng.IntN(4) == 0:
						rd, how = stdReader(rng, s.data)
						how = "io.Copy " + how
						srcFail = false
						if fw.mode == "short" {
							rd = onlyReader{rd} // bufio.Reader panics otherwise
						}
						nw, err = io.Copy(w, rd)
					default:
						nw, err = io.Copy(w, rd)
					}
				})
				if srcFail {
					data = data[:sp.FailAt]
				}
				hist = append(hist, fmt.Sprintf("%s(%d bytes, source fails: %v)=%d,%v", how, sp.Len, srcFail, nw, err))
				if msg != "" {
					bad([]string{"R06", "R07", "R08"}, "%s panicked: %s", how, msg)
					return
				}
				acc := fw.got[got0:]
				if strings.HasPrefix(how, "ReadFrom") || len(acc) > 0 || fw.offered > off0 {
					implicit()
				} else if status == 0 && w.Status() == 200 {
					// an empty or failing copy may or may not have settled the status
					implicit()
				}
				if bodyless(method, status) {
					if fw.offered != off0 {
						bad([]string{"R08"}, "body bytes passed to the underlying writer by %s", how)
						return
					}
					if nw != int64(len(data)) || (err != nil) != srcFail {
						bad([]string{"R08"}, "%s to a bodyless response returned %d, %v for %d bytes", how, nw, err, len(data))
						return
					}
					r.Count("bytes_suppressed", nw)
				} else {
					wf := fw.failures > fail0
					if nw != int64(len(acc)) {
						bad([]string{"R07"}, "%s returned %d, the underlying writer accepted %d", how, nw, len(acc))
						return
					}
					if !bytes.Equal(acc, data[:min(len(acc), len(data))]) || len(acc) > len(data) {
						bad([]string{"R07"}, "%s passed on wrong bytes", how)
						return
					}
					if err == nil && (len(acc) < len(data) || wf || srcFail) {
						bad([]string{"R07"}, "%s succeeded with %d of %d bytes (writer failed: %v, source fails: %v)", how, len(acc), len(data), wf, srcFail)
						return
					}
					if wf && !errors.Is(err, fw.werr) && !(srcFail && errors.Is(err, sp.failure())) {
						bad([]string{"R07"}, "%s returned %v instead of the writer's failure", how, err)
						return
					}
					if err != nil && !wf && !srcFail && fw.shorts == short0 {
						bad([]string{"R07"}, "%s failed with %v though nothing failed", how, err)
						return
					}
					r.Count("bytes_copied", nw)
				}
				if srcFail || fw.shorts > short0 {
					unspec = true
				}
			case op == 18:
				fl, ok := w.(http.Flusher)
				if !ok {
					continue
				}
				hist = append(hist, "Flush")
				before := forwarded("flush")
				if msg, _ := guard(func() { fl.Flush() }); msg != "" {
					bad([]string{"R06", "R09"}, "Flush panicked: %s", msg)
					return
				}
				if n := forwarded("flush") - before; n != 1 {
					bad([]string{"R09"}, "one Flush made %d flushes of the underlying writer", n)
					return
				}
				implicit()
			case op == 19:
				hist = append(hist, "Push")
				pushes++
				var pushWant error = http.ErrNotSupported
				if mask&mPush != 0 {
					pushWant = fw.pushErrs[pushes-1]
				}
				before := forwarded("push")
				if err := w.Push("/x", nil); err != pushWant {
					bad([]string{"R09", "R07"}, "Push returned %v instead of %v", err, pushWant)
					return
				}
				if n := forwarded("push") - before; n != mask&mPush/mPush {
					bad([]string{"R09"}, "one Push made %d pushes of the underlying writer", n)
					return
				}
			case op == 20:
				hist = append(hist, "Header().Set")
				w.Header().Set("X-K", fmt.Sprint(k))
			case op == 21:
				hj, ok := w.(http.Hijacker)
				if !ok || rng.IntN(4) != 0 {
					continue
				}
				hist = append(hist, "Hijack")
				before := forwarded("hijack")
				_, _, err := hj.Hijack()
				hijacked = err == nil
				if err != fw.hijackErr {
					bad([]string{"R09", "R07"}, "Hijack returned %v instead of %v", err, fw.hijackErr)
					return
				}
				if n := forwarded("hijack") - before; n != 1 {
					bad([]string{"R09"}, "one Hijack made %d hijacks of the underlying writer", n)
					return
				}
			}
			r.Count("writer_calls", 1)
			if w.Status() != status {
				bad([]string{"R06"}, "Status() is %d, the final status is %d", w.Status(), status)
				return
			}
			if w.BytesWritten() != int64(len(fw.got)) {
				bad([]string{"R07"}, "BytesWritten() is %d, the underlying writer accepted %d", w.BytesWritten(), len(fw.got))
				return
			}
			wantErr := refused || fw.failures > 0
			if wantErr && !w.SawError() && refused && fw.failures == 0 {
				bad([]string{"R06", "R07"}, "a refused second status was not flagged as an error")
				return
			}
			if wantErr && !w.SawError() {
				bad([]string{"R07"}, "SawError() is false after a failure of the underlying writer")
				return
			}
			if !wantErr && w.SawError() && !unspec {
				bad([]string{"R07"}, "SawError() is true though nothing failed")
				return
			}
		}
		// the log of the underlying writer
		var codes []int
		final := false
		for _, e := range fw.log {
			switch e.K {
			case "status":
				codes = append(codes, e.Code)
				if e.Code >= 200 || e.Code == http.StatusSwitchingProtocols {
					if final {
						bad([]string{"R06"}, "two final statuses reached the underlying writer")
						return
					}
					final = true
				} else if final {
					bad([]string{"R06"}, "an informational status was sent after the final one")
					return
				}
			case "write", "readfrom", "flush":
				if !final {
					bad([]string{"R06"}, "%s reached the underlying writer before any final status", e.K)
					return
				}
				if e.K != "flush" && bodyless(method, status) && (e.N > 0 || e.K == "readfrom") {
					bad([]string{"R08"}, "%s of a bodyless response reached the underlying writer", e.K)
					return
				}
			}
		}
		if fmt.Sprint(codes) != fmt.Sprint(want) {
			bad([]string{"R06"}, "the underlying writer saw the statuses %v, want %v", codes, want)
			return
		}
		if bodyless(method, status) && len(fw.got) > 0 {
			bad([]string{"R08"}, "%d body bytes were passed to the underlying writer", len(fw.got))
			return
		}
		r.Count("underlying_events", int64(len(fw.log)))
		r.Eval(hash64(method, mask, fw.limit, fmt.Sprint(hist)), len(fw.log) > 1)
		if len(hist) < 5 {
			r.Sample(map[string]any{"method": method, "caps": mask, "calls": hist, "underlying": fmt.Sprint(fw.log)})
		}
	})
}

// panickingSources: a source that panics in the middle of a transfer; what
// the underlying writer had accepted by then stays accounted for.
func (r *Run) panickingSources(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		mask := rng.IntN(32)
		if rng.IntN(2) == 0 {
			mask |= mFull
		}
		fw := newFakeW()
		w := response.NewWriter(fw.anyWrap(rng, mask), anyReq(rng, "GET"))
		total := 0
		for k := 0; k < 1+rng.IntN(3); k++ {
			step()
			sp := srcSpec{Len: rng.IntN(3000), FailAt: -1, Declared: -1, Seed: rng.Uint64()>>12 | 1, Frag: pick(rng, 0, 2, 50)}
			if rng.IntN(3) > 0 {
				sp.FailAt, sp.FailN, sp.FailPan = rng.IntN(sp.Len+1), -1, true
			}
			s := newSrc(sp)
			s.inCtor = false
			msg, _ := guard(func() { io.Copy(w, onlyReader{s.reader()}) })
			if (msg != "") != (s.raised > 0) {
				r.Bad(kind, idx, "source panics: %d, io.Copy panics: %q", s.raised, msg)
				return
			}
			total += sp.Len
			if w.BytesWritten() != int64(len(fw.got)) {
				detail := fmt.Sprintf("caps %05b: BytesWritten() is %d after a source panicked at %d of %d bytes, the underlying writer accepted %d", mask, w.BytesWritten(), sp.FailAt, sp.Len, len(fw.got))
				if s.raised > 0 && fw.has("readfrom") && w.BytesWritten() < int64(len(fw.got)) {
					r.Violate3([]string{"R07"}, "panic-in-bulk-copy", kind, idx, detail)
				} else {
					r.Bad(kind, idx, "%s", detail)
				}
				break
			}
		}
		r.Eval(hash64(kind, mask, fmt.Sprint(fw.log)), total > 0)
		r.Count("panicking_source_cases", 1)
	})
}

// noise gives a builder further fields and an error, none of which matters to
// how a response is served.
func noise(rng *randT, bld *response.Builder) {
	if rng.IntN(5) == 0 {
		bld.WithError(pick[error](rng, errInjConst, io.EOF, fs.ErrClosed, http.ErrAbortHandler, http.ErrNotSupported))
	}
	if rng.IntN(3) > 0 {
		return
	}
	for i := rng.IntN(4); i >= 0; i-- {
		name := pick(rng, "Link", "Cache-Control", "Location", "Content-Type", "Vary", "Etag", "Connection", "Content-Encoding", "Content-Range", "Accept-Ranges", "Transfer-Encoding", "Trailer", "Upgrade", "Content-Disposition", "Set-Cookie", "X-Accel-Buffering", "X-Sendfile", "Retry-After", "Allow", "Date", "Digest")
		val := pick(rng, "</a.css>; rel=preload; as=style", "no-cache", "no-store", "private", "close", "/x", "gzip", "text/html", "text/event-stream", "bytes", "bytes 0-3/10", "chunked", "X-T", "websocket", "attachment", "a=b", "no", "1", "identity", "keep-alive", "")
		bld.WithHeader(name, val, rng.IntN(2) == 0)
	}
}

// bodyless responses through Serve
func (r *Run) bodylessServe(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		method := pick(rng, append(allMethods, "HEAD", "HEAD", "HEAD", "HEAD")...)
		code := 200
		if method != "HEAD" {
			code = pick(rng, 204, 304)
		} else {
			code = pick(rng, 200, 404, 500, 204, 304, 200+rng.IntN(800), 200+rng.IntN(800))
		}
		bk := bodyKinds[rng.IntN(len(bodyKinds)-1)]
		mb := r.mkBody(rng, bk, genLen(rng, .05), nil)
		defer mb.done()
		bld := response.NewBuilder().WithStatus(code).WithHeader("X-A", "1", false).WithBody(mb.b)
		noise(rng, bld)
		x := bld.Build()
		fw := newFakeW()
		if rng.IntN(2) == 0 {
			fw.limit, fw.mode = 0, "fail"
		}
		mask := rng.IntN(32)
		w := response.NewWriter(fw.anyWrap(rng, mask), anyReq(rng, method))
		var err error
		step()
		msg, _ := guard(func() { err = x.Serve(w) })
		bad := func(format string, a ...any) {
			r.Violate([]string{"R08"}, kind, idx, fmt.Sprintf("%s status %d, %s body of %d bytes, caps %05b: ", method, code, bk, len(mb.data), mask)+fmt.Sprintf(format, a...), nil)
		}
		r.Eval(hash64(kind, method, code, bk, mask, len(mb.data)), len(mb.data) > 0)
		r.Count("bodyless_serves", 1)
		switch {
		case msg != "":
			bad("Serve: %s", msg)
		case err != nil:
			bad("Serve returned %v", err)
		case fw.offered != 0:
			bad("%d body bytes were passed to the underlying writer", fw.offered)
		case w.BytesWritten() != 0:
			bad("BytesWritten() is %d", w.BytesWritten())
		case w.SawError():
			bad("SawError() is true")
		case w.Status() != code || len(fw.log) == 0 || fw.log[0].Code != code:
			bad("status %d, log %v", w.Status(), fw.log)
		case fw.log[0].Hdr.Get("X-A") != "1":
			bad("headers lost: %v", fw.log[0].Hdr)
		case mb.s != nil && mb.s.closes != 1:
			bad("the reader was closed %d times", mb.s.closes)
		}
		if _, e := mb.b.Read(make([]byte, 1)); !errors.Is(e, fs.ErrClosed) {
			bad("the body was left open")
		}
	})
}

// ---- R09: capabilities ----

// ownWriter is a response.Writer of the caller's own.
type ownWriter struct {
	http.ResponseWriter
}

func (o *ownWriter) Push(string, *http.PushOptions) error { return nil }
func (o *ownWriter) MaybeWriteHeader(int)                 {}
func (o *ownWriter) Status() int                          { return 299 }
func (o *ownWriter) BytesWritten() int64                  { return 7 }
func (o *ownWriter) SawError() bool                       { return false }
func (o *ownWriter) Unwrap() http.ResponseWriter          { return o.ResponseWriter }

func (r *Run) capabilityCases(kind string, rounds int) {
	methods := []string{"GET", "HEAD", "POST"}
	r.Cases(kind, 32*3*rounds, func(rng *randT, idx int) {
		mask, method := idx%32, methods[idx/32%3]
		fw := newFakeW()
		cl, sv := net.Pipe()
		defer cl.Close()
		defer sv.Close()
		fw.conn, fw.brw = cl, bufio.NewReadWriter(bufio.NewReader(cl), bufio.NewWriter(cl))
		brw0 := *fw.brw
		if rng.IntN(3) == 0 {
			fw.hijackErr = errOf(errInjWrite, genErrK(rng))
		}
		under := fw.anyWrap(rng, mask)
		bad := func(format string, a ...any) {
			r.Violate([]string{"R09"}, kind, idx, fmt.Sprintf("%s, underlying caps %05b: ", method, mask)+fmt.Sprintf(format, a...), nil)
		}
		msg, _ := guard(func() {
			w := response.NewWriter(under, anyReq(rng, method))
			if w2 := response.NewWriter(w, anyReq(rng, pick(rng, "GET", "HEAD"))); w2 != w {
				bad("wrapping again gave a new writer")
				return
			}
			if w.Unwrap() != under {
				bad("Unwrap is not the underlying writer")
				return
			}
			w.Header().Set("X-1", "a")
			fw.hdr.Set("X-2", "b")
			if fw.hdr.Get("X-1") != "a" || w.Header().Get("X-2") != "b" || reflect.ValueOf(w.Header()).Pointer() != reflect.ValueOf(fw.hdr).Pointer() {
				bad("Header is not the underlying header map")
				return
			}
			if w.Status() != 0 || w.BytesWritten() != 0 || w.SawError() {
				bad("a fresh wrapper reports status %d, %d bytes, error %v", w.Status(), w.BytesWritten(), w.SawError())
				return
			}
			fl, isFl := w.(http.Flusher)
			hj, isHj := w.(http.Hijacker)
			cn, isCn := w.(http.CloseNotifier)
			rf, isRf := w.(io.ReaderFrom)
			if isFl != (mask&mFlush != 0) {
				bad("offers Flush: %v", isFl)
				return
			}
			for _, c := range []struct {
				name string
				is   bool
				bit  int
			}{{"Hijack", isHj, mHijack}, {"CloseNotify", isCn, mNotify}, {"ReadFrom", isRf, mFrom}} {
				if c.is && mask&c.bit == 0 {
					bad("offers %s, which the underlying writer lacks", c.name)
					return
				}
				if !c.is && mask&mFull == mFull {
					bad("does not offer %s although the underlying writer has the full set", c.name)
					return
				}
			}
			r.Count("capabilities_compared", 4)
			n := 0
			seq := append(rng.Perm(6), rng.Perm(6)[:rng.IntN(6)]...)
			for range rng.IntN(4) {
				seq = append(seq, seq[len(seq)-1])
			}
			for _, k := range seq {
				switch k {
				case 0:
					url := pick(rng, "/a", "", "https://x/?q")
					opts := pick(rng, nil, &http.PushOptions{Method: "GET", Header: http.Header{"A": {"b"}}})
					want := pick[error](rng, nil, http.ErrNotSupported, pushError(rng))
					fw.pushErrs = make([]error, fw.pushN+1)
					fw.pushErrs[fw.pushN] = want
					n0 := fw.pushN
					err := w.Push(url, opts)
					if mask&mPush == 0 {
						if !errors.Is(err, http.ErrNotSupported) {
							bad("Push without support returned %v", err)
							return
						}
						break
					}
					n++
					if fw.pushN != n0+1 || fw.pushOpts[n0] != opts || fw.log[len(fw.log)-1].Arg != url || err != want {
						bad("Push(%q) = %v was not forwarded as is (want %v)", url, err, want)
						return
					}
				case 1:
					if !isHj {
						break
					}
					n++
					c, b, err := hj.Hijack()
					if c != net.Conn(cl) || b != fw.brw || *b != brw0 || err != fw.hijackErr {
						bad("Hijack results differ from the underlying writer's")
						return
					}
				case 2:
					if !isCn {
						break
					}
					n++
					if ch := cn.CloseNotify(); ch != (<-chan bool)(fw.notify) {
						bad("CloseNotify returned another channel")
						return
					}
				case 3:
					if !isRf || method == "HEAD" {
						break
					}
					n++
					data := content(rng.IntN(3000), rng.Uint64()|1, false)
					rd, _ := stdReader(rng, data)
					g0, r0 := len(fw.got), len(fw.readers)
					nn, err := rf.ReadFrom(rd)
					if len(fw.readers) != r0+1 || fw.readers[r0] != rd {
						bad("ReadFrom was not forwarded with the same reader")
						return
					}
					if nn != int64(len(data)) || err != nil || !bytes.Equal(fw.got[g0:], data) {
						bad("ReadFrom returned %d, %v for %d bytes", nn, err, len(data))
						return
					}
				case 4:
					if !isFl {
						break
					}
					n++
					l0 := 0
					for _, e := range fw.log {
						if e.K == "flush" {
							l0++
						}
					}
					fl.Flush()
					for _, e := range fw.log {
						if e.K == "flush" {
							l0--
						}
					}
					if l0 != -1 {
						bad("Flush reached the underlying writer %d times", -l0)
						return
					}
				case 5:
					if method == "HEAD" {
						break
					}
					g0 := len(fw.got)
					nn, err := w.Write([]byte("hello"))
					if nn != 5 || err != nil || string(fw.got[g0:]) != "hello" {
						bad("Write returned %d, %v", nn, err)
						return
					}
				}
			}
			r.Count("forwarded_calls", int64(n))
		})
		if msg != "" {
			bad("%s", msg)
		}
		r.Eval(hash64(kind, mask, method, fmt.Sprint(fw.log)), mask != 0)
		if mask%7 == 3 {
			r.Sample(map[string]any{"caps": fmt.Sprintf("%05b", mask), "method": method, "underlying": fmt.Sprint(fw.log)})
		}
	})
	r.Cases(kind+"-own", 64, func(rng *randT, idx int) {
		o := &ownWriter{newFakeW().wrap(idx % 32)}
		w := response.NewWriter(o, anyReq(rng, "GET"))
		if w != response.Writer(o) {
			r.Bad(kind+"-own", idx, "a writer that already is a response.Writer was wrapped again")
		}
		r.Eval(hash64("own", idx), true)
	})
	r.Cases(kind+"-real", 4, func(rng *randT, idx int) {
		h2 := idx%2 == 1
		var prob string
		srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			w := response.NewWriter(rw, q)
			for name, f := range map[string]func(any) bool{
				"Flush":       func(x any) bool { _, ok := x.(http.Flusher); return ok },
				"Hijack":      func(x any) bool { _, ok := x.(http.Hijacker); return ok },
				"CloseNotify": func(x any) bool { _, ok := x.(http.CloseNotifier); return ok },
				"ReadFrom":    func(x any) bool { _, ok := x.(io.ReaderFrom); return ok },
			} {
				have := f(rw)
				if f(w) && !have {
					prob = "the wrapper of net/http's writer offers " + name + ", which it lacks"
				}
				if have && !f(w) && (name == "Flush" || !h2) {
					prob = "the wrapper of net/http's writer lost " + name
				}
			}
			if h2 {
				if _, ok := rw.(http.Pusher); !ok {
					prob = "harness: HTTP/2 writer without Pusher"
				}
			} else if err := w.Push("/x", nil); !errors.Is(err, http.ErrNotSupported) {
				prob = fmt.Sprintf("Push over HTTP/1: %v", err)
			}
			if h2 != strings.HasPrefix(q.Proto, "HTTP/2") {
				prob = "harness: wrong protocol " + q.Proto
			}
			io.WriteString(w, "ok")
		}))
		srv.EnableHTTP2 = h2
		if h2 {
			srv.StartTLS()
		} else {
			srv.Start()
		}
		defer srv.Close()
		resp, err := srv.Client().Get(srv.URL)
		if err == nil {
			raw, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if string(raw) != "ok" && prob == "" {
				prob = "wrong answer"
			}
		} else if prob == "" {
			r.Inconclusive("real server: %v", err)
		}
		if prob != "" {
			r.Bad(kind+"-real", idx, "%s", prob)
		}
		r.Eval(hash64("real", idx), true)
	})
}

func init() {
	checks["R04"] = func(r *Run) {
		r.Rule("Every combination of fault (none; writer failing, accepting short or panicking, reader failing or panicking at the first, a middle and the last byte and the end; status panicking; pushes failing or unsupported), body kind, size, the 32 writer capability sets, raw or wrapped for GET or HEAD, four statuses and a failing Close, plus random combinations. Distinct by combination; non-trivial when a fault was reached, closing fails or there are bytes.")
		r.Assume("When a read and a write failure both occur in one step either is the first one. Truncated readers (shorter than declared) are judged by H04.")
		r.serveFaultCases()
	}
	checks["R05"] = func(r *Run) {
		r.Rule("Responses with up to 50 Push values, sometimes hundreds, and generated results per push (accepted, unsupported, wrapped unsupported, other failures) served to the 32 capability sets, raw or wrapped; the event log of the writer is compared with the values. Non-trivial with at least one value.")
		r.pushCases("push", r.N(60000, 600000))
	}
	writerRule := "Random sequences of 1-12 calls (statuses final, informational, repeated, out of range and conditional, Write, WriteString, bulk copy, io.Copy, Body transfers, Flush, Push, Hijack) on the library's writer over an instrumented writer with one of 32 capability sets and failing or cutting writes short at a random byte; the model predicts results, Status, BytesWritten, SawError and the underlying event log. Distinct by calls and results; non-trivial with two underlying events."
	checks["R06"] = func(r *Run) {
		r.Rule(writerRule)
		r.Assume("An explicit informational status after the final one is not judged, nor are bytes written after status 101.")
		r.writerCases("sequence", r.N(150000, 1500000), false)
	}
	checks["R07"] = func(r *Run) {
		r.Rule(writerRule)
		r.Assume("SawError is not judged after a source failed during a bulk copy or the underlying writer cut a write short without an error.")
		r.writerCases("sequence", r.N(150000, 1500000), false)
		r.panickingSources("panicking-source", r.N(20000, 200000))
	}
	checks["R09"] = func(r *Run) {
		r.Rule("All 32 capability sets of the underlying writer, for GET, HEAD and POST, with every offered capability called in random order; plus random sequences of status, body, flush, push and hijack calls; plus writers of the caller's own and net/http's HTTP/1 and HTTP/2 writers. Distinct by capabilities and log; non-trivial with a capability.")
		r.capabilityCases("caps", r.N(150, 1500))
		r.writerCases("sequence", r.N(40000, 400000), false)
	}
}
