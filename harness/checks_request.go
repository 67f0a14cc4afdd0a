package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

// H05: the handler gets the request as the server received it, once.

// watchBody is a request body that notices who reads it.
type watchBody struct {
	r      io.Reader
	reads  int
	closes int
}

func (b *watchBody) Read(p []byte) (int, error) { b.reads++; return b.r.Read(p) }
func (b *watchBody) Close() error               { b.closes++; return nil }

// ctxReader fails once the context of the request has ended, as readers of a
// database or an upstream server do.
type ctxReader struct {
	ctx context.Context
	r   io.Reader
}

func (c *ctxReader) Read(p []byte) (int, error) {
	if err := c.ctx.Err(); err != nil {
		return 0, err
	}
	return c.r.Read(p)
}

// sameRequest compares what a handler got with what the adaptor was given.
func sameRequest(got, want *http.Request) string {
	for _, x := range []struct {
		what string
		a, b any
	}{
		{"method", got.Method, want.Method}, {"host", got.Host, want.Host}, {"request target", got.RequestURI, want.RequestURI}, {"protocol", got.Proto, want.Proto},
		{"protocol version", [2]int{got.ProtoMajor, got.ProtoMinor}, [2]int{want.ProtoMajor, want.ProtoMinor}},
		{"peer address", got.RemoteAddr, want.RemoteAddr}, {"content length", got.ContentLength, want.ContentLength}, {"transfer coding", got.TransferEncoding, want.TransferEncoding}, {"close flag", got.Close, want.Close},
		{"TLS state", got.TLS, want.TLS},
		{"URL", got.URL.String(), want.URL.String()}, {"headers", got.Header, want.Header}, {"trailers", got.Trailer, want.Trailer}, {"form", got.Form, want.Form}, {"parsed form", got.PostForm, want.PostForm}, {"multipart form", got.MultipartForm, want.MultipartForm},
	} {
		if !reflect.DeepEqual(x.a, x.b) {
			return fmt.Sprintf("its %s is %v instead of %v", x.what, x.a, x.b)
		}
	}
	return ""
}

func (r *Run) requestCases(kind string, n int) {
	installHook()
	r.Cases(kind, n, func(rng *randT, idx int) {
		a := genAct(rng, true)
		method := pick(rng, allMethods...)
		fw := newFakeW()
		fw.pushErrs = a.Push
		if rng.IntN(8) == 0 {
			fw.limit, fw.mode, fw.werr = rng.IntN(a.Len+2), "fail", errOf(errInjWrite, genErrK(rng))
		}
		var w http.ResponseWriter = fw.anyWrap(rng, rng.IntN(32))
		q := anyReq(rng, method)
		if rng.IntN(3) == 0 {
			q.SetPathValue("id", "7")
		}
		data := content(pick(rng, 0, 1, 20, 3000), rng.Uint64(), false)
		wb := &watchBody{r: bytes.NewReader(data)}
		q.Body = wb
		ctx, cancel := context.WithCancel(context.WithValue(q.Context(), ctxKey{}, idx))
		defer cancel()
		if rng.IntN(4) == 0 {
			ctx, cancel = context.WithDeadline(ctx, time.Now().Add(time.Hour))
			defer cancel()
		}
		q = q.WithContext(ctx)
		gone := ctx.Err() != nil
		if rng.IntN(3) == 0 {
			w = response.NewWriter(w, q)
		}
		want := q.Clone(ctx)
		p := r.prepare(rng, a)
		defer p.done()
		readAll, cancelIn := rng.IntN(2) == 0, rng.IntN(4) == 0
		prob := ""
		p.seen = func(g *http.Request) {
			if prob != "" {
				return
			}
			prob = sameRequest(g, want)
			wantD, wantOK := ctx.Deadline()
			gotD, gotOK := g.Context().Deadline()
			switch {
			case prob != "":
			case wb.reads > 0 || wb.closes > 0:
				prob = "its body has been read from or closed"
			case g.Context().Value(ctxKey{}) != idx:
				prob = "its context lacks the server's values"
			case gotOK != wantOK || !gotD.Equal(wantD):
				prob = fmt.Sprintf("its deadline is %v instead of %v", gotD, wantD)
			case (g.Context().Err() != nil) != gone:
				prob = fmt.Sprintf("its context says %v", g.Context().Err())
			case g.PathValue("id") != want.PathValue("id"):
				prob = "its path values are lost"
			case fw.has("status") || fw.has("write"):
				prob = "something was sent before it ran"
			}
			if prob == "" && readAll {
				if got, err := io.ReadAll(g.Body); err != nil || !bytes.Equal(got, data) {
					prob = fmt.Sprintf("it reads %d bytes (%v) of a request body of %d", len(got), err, len(data))
				}
			}
			if prob == "" && cancelIn {
				cancel()
				if g.Context().Err() == nil {
					prob = "the end of the request's context does not reach it"
				}
			}
		}
		// while the response is served, the context is still the client's
		if p.mb != nil && p.mb.s != nil {
			p.mb.s.onRead = func() {
				if prob == "" && !gone && !cancelIn && ctx.Err() != nil {
					prob = "its request's context ended before the response was served"
				}
				if prob == "" && wb.closes > 0 {
					prob = "its request's body was closed before the response was served"
				}
			}
		}
		msg, _ := guard(func() { handler.Adaptor{Inner: handler.HandlerFunc(p.handle)}.ServeHTTP(w, q) })
		takeHooks()
		step()
		desc := fmt.Sprintf("%s %s, request body of %d bytes", method, a, len(data))
		r.Count("requests_compared", 1)
		r.Eval(hash64(desc, readAll, cancelIn, fmt.Sprint(want.Header)), true)
		switch {
		case p.calls != 1:
			r.Violate([]string{"H05"}, kind, idx, fmt.Sprintf("%s: the handler was called %d times (%s)", desc, p.calls, msg), nil)
		case prob != "":
			r.Violate([]string{"H05"}, kind, idx, fmt.Sprintf("%s: the handler: %s", desc, prob), nil)
		case msg != "":
			r.Violate([]string{"H01"}, kind, idx, desc+": "+msg, nil)
		case !readAll && wb.reads > 0:
			r.Violate([]string{"H05"}, kind, idx, desc+": the adaptor read the request's body", nil)
		case !reflect.DeepEqual(q.Header, want.Header) || q.Method != want.Method || q.URL.String() != want.URL.String():
			r.Violate([]string{"H05"}, kind, idx, desc+": the request was altered", nil)
		}
	})
}

// echo answers with what it was asked, in one of several ways.
type echo struct {
	calls atomic.Int64
	mu    sync.Mutex
	ids   map[string]int
}

type echoInfo struct {
	Method, URI, Host, Sum string
	Length, Declared       int64
	Hdr                    http.Header
	Err, Trailer           string
}

func (e *echo) Handle(q *http.Request) response.Response {
	e.calls.Add(1)
	id := q.Header.Get("X-Id")
	e.mu.Lock()
	e.ids[id]++
	e.mu.Unlock()
	b := response.NewBuilder().WithHeader("X-Id", id, false)
	if c, err := strconv.Atoi(q.Header.Get("X-Code")); err == nil {
		b.WithStatus(c)
	}
	switch q.Header.Get("X-Mode") {
	case "lazy": // the response's body is the request's
		in, err := body.FromReader(&ctxReader{q.Context(), q.Body})
		if err != nil {
			panic(err)
		}
		return *b.WithBody(in).Build()
	case "eager":
		raw, err := io.ReadAll(q.Body)
		if err != nil {
			panic(err)
		}
		return *b.WithBody(body.FromBytes(raw)).Build()
	case "panic":
		panic(errors.New("asked to"))
	case "upload": // the response's body is an uploaded file, on disk if large
		if err := q.ParseMultipartForm(1000); err != nil {
			panic(err)
		}
		f, _, err := q.FormFile("f")
		if err != nil {
			panic(err)
		}
		in, err := body.FromReader(f)
		if err != nil {
			panic(err)
		}
		if _, onDisk := f.(*os.File); onDisk {
			b.WithHeader("X-On-Disk", "1", false)
			// opened a second time while the response is served
			in = &reopen{Body: in, head: q.MultipartForm.File["f"][0], form: q.MultipartForm}
		}
		return *b.WithHeader("X-Field", q.MultipartForm.Value["a"][0], false).WithBody(in).Build()
	case "form":
		return *b.WithHeader("X-Field", q.PostFormValue("a"), false).WithBody(body.FromString(q.PostFormValue("data"))).Build()
	case "url":
		return *b.WithBody(body.FromString(q.Method + " " + q.RequestURI)).Build()
	}
	i := echoInfo{Method: q.Method, URI: q.RequestURI, Host: q.Host, Declared: q.ContentLength, Hdr: q.Header}
	h := sha256.New()
	n, err := io.Copy(h, q.Body)
	i.Trailer = q.Trailer.Get("X-Sum")
	i.Length, i.Sum = n, hex.EncodeToString(h.Sum(nil))
	if err != nil {
		i.Err = err.Error()
	}
	return *b.WithBody(body.FromJSON(i)).Build()
}

type unsized struct{ io.Reader }

// reopen is a body over an uploaded file that is opened once more when it is
// first read from.
type reopen struct {
	body.Body
	head *multipart.FileHeader
	form *multipart.Form
}

func (b *reopen) Close() error {
	err := b.Body.Close()
	b.form.RemoveAll()
	return err
}

func (b *reopen) again() error {
	if b.head == nil {
		return nil
	}
	f, err := b.head.Open()
	b.head = nil
	if err == nil {
		err = f.Close()
	}
	return err
}

func (b *reopen) Read(p []byte) (int, error) {
	if err := b.again(); err != nil {
		return 0, err
	}
	return b.Body.Read(p)
}

func (b *reopen) WriteTo(w io.Writer) (int64, error) {
	if err := b.again(); err != nil {
		return 0, err
	}
	return io.Copy(w, b.Body)
}

// trailing sets the request's trailer when the body has been sent.
type trailing struct {
	io.Reader
	q *http.Request
	v string
}

func (t *trailing) Read(p []byte) (int, error) {
	n, err := t.Reader.Read(p)
	if err == io.EOF {
		t.q.Trailer.Set("X-Sum", t.v)
	}
	return n, err
}

type echoJob struct {
	id, mode, method, uri string
	data                  []byte
	sized                 bool
	proto                 int
	status                int
	hdr                   http.Header
	err                   error
	code                  int
	rid                   string
	got                   []byte
	trailer, field        string
	onDisk                bool
}

func (s *site) echo(j *echoJob) {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	var rb io.Reader
	if len(j.data) > 0 {
		rb = bytes.NewReader(j.data)
	}
	ctype := ""
	switch j.mode {
	case "upload":
		var buf bytes.Buffer
		mw := multipart.NewWriter(&buf)
		mw.WriteField("a", j.id)
		f, _ := mw.CreateFormFile("f", "x.bin")
		f.Write(j.data)
		mw.Close()
		ctype, rb = mw.FormDataContentType(), &buf
	case "form":
		ctype, rb = "application/x-www-form-urlencoded", strings.NewReader(url.Values{"a": {j.id}, "data": {string(j.data)}}.Encode())
	}
	if rb != nil && !j.sized {
		rb = unsized{rb}
	}
	var tr *trailing
	if j.trailer != "" && rb != nil {
		tr = &trailing{Reader: rb, v: j.trailer}
		rb = tr
	}
	q, err := http.NewRequestWithContext(ctx, j.method, s.srv[j.proto].URL+j.uri, rb)
	if err != nil {
		panic(err)
	}
	for k, v := range j.hdr {
		q.Header[k] = v
	}
	if ctype != "" {
		q.Header.Set("Content-Type", ctype)
	}
	if tr != nil {
		tr.q, q.Trailer = q, http.Header{"X-Sum": nil}
	}
	q.Header.Set("X-Id", j.id)
	q.Header.Set("X-Mode", j.mode)
	q.Header.Set("X-Code", strconv.Itoa(j.status))
	resp, err := s.cl[j.proto].Do(q)
	if err != nil {
		j.err = err
		return
	}
	j.code, j.rid, j.field, j.onDisk = resp.StatusCode, resp.Header.Get("X-Id"), resp.Header.Get("X-Field"), resp.Header.Get("X-On-Disk") != ""
	j.got, j.err = io.ReadAll(resp.Body)
	resp.Body.Close()
}

func (j *echoJob) judge(host string) string {
	if j.mode == "panic" {
		if j.err != nil || j.code != 500 {
			return fmt.Sprintf("status %d, %v", j.code, j.err)
		}
		return ""
	}
	if j.err != nil || j.code != j.status {
		return fmt.Sprintf("status %d, %v", j.code, j.err)
	}
	if j.rid != j.id {
		return fmt.Sprintf("the answer is that to request %q", j.rid)
	}
	if j.method == "HEAD" {
		return ""
	}
	switch j.mode {
	case "lazy", "eager", "upload", "form":
		if (j.mode == "upload" || j.mode == "form") && !strings.HasPrefix(j.field, j.id) {
			return fmt.Sprintf("the handler saw the form value %q instead of %q", j.field, j.id)
		}
		if !bytes.Equal(j.got, j.data) {
			return "the request's body came back different: " + diff(j.got, j.data)
		}
	case "url":
		if string(j.got) != j.method+" "+j.uri {
			return fmt.Sprintf("the handler saw %q", j.got)
		}
	default:
		var i echoInfo
		if err := json.Unmarshal(j.got, &i); err != nil {
			return fmt.Sprintf("the answer does not decode: %v", err)
		}
		sum := sha256.Sum256(j.data)
		decl := int64(len(j.data))
		if !j.sized && decl > 0 {
			decl = -1
		}
		switch {
		case i.Err != "":
			return "the handler cannot read the request's body: " + i.Err
		case i.Length != int64(len(j.data)) || i.Sum != hex.EncodeToString(sum[:]):
			return fmt.Sprintf("the handler read %d bytes of a request body of %d, or others", i.Length, len(j.data))
		case i.Trailer != j.trailer && len(j.data) > 0:
			return fmt.Sprintf("the handler saw the trailer %q instead of %q", i.Trailer, j.trailer)
		case i.Declared != decl:
			return fmt.Sprintf("the handler saw a declared length of %d instead of %d", i.Declared, decl)
		case i.Method != j.method || i.URI != j.uri || i.Host != host:
			return fmt.Sprintf("the handler saw %s %s %s", i.Method, i.Host, i.URI)
		}
		for k, v := range j.hdr {
			if !reflect.DeepEqual(i.Hdr[k], v) {
				return fmt.Sprintf("the handler saw %s: %q instead of %q", k, i.Hdr[k], v)
			}
		}
	}
	return ""
}

func (r *Run) echoCases(kind string, n int) {
	s := newSite()
	defer s.close()
	r.Cases(kind, n, func(rng *randT, idx int) {
		e := &echo{ids: map[string]int{}}
		s.mu.Lock()
		s.inner = e
		s.mu.Unlock()
		var jobs []*echoJob
		for i := 8 + rng.IntN(16); i > 0; i-- {
			j := &echoJob{id: fmt.Sprintf("%d-%d", idx, i), mode: pick(rng, "lazy", "lazy", "eager", "info", "info", "url", "panic", "upload", "form"), method: pick(rng, "GET", "POST", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD"), proto: rng.IntN(2), status: pick(rng, 200, 200, 201, 206, 302, 307, 400, 404, 413, 417, 426, 499, 500, 503, 999), sized: rng.IntN(2) == 0, hdr: http.Header{}}
			addReqHdrs(rng, j.hdr)
			for _, k := range []string{"Te", "Proxy-Connection", "Http2-Settings"} {
				j.hdr.Del(k) // Go's client sends none of these over HTTP/2
			}
			j.uri = "/echo/" + strconv.Itoa(i) + pick(rng, "", "?", "?a=b&c=%20d", "/%2F/x%20y", ";p=1", "?q="+strings.Repeat("z", rng.IntN(3000)))
			if j.proto == 1 && j.mode == "lazy" && j.status > 299 {
				// Go's HTTP/2 client then stops sending the request's body
				j.status = 202
			}
			ln := pick(rng, 0, 1, 100, 4096, 30000, rng.IntN(60000))
			if (j.proto == 1 || j.mode == "eager" || j.mode == "info") && rng.IntN(4) == 0 {
				// net/http's HTTP/1 server ends the request's body once the
				// response has begun, so a lazy echo is for what one fill takes
				ln = pick(rng, 65536, 200001, 700000)
			}
			if j.mode == "form" && j.method != "PUT" && j.method != "PATCH" || j.mode == "upload" && j.method == "GET" {
				j.method = "POST"
			}
			if idx%16 == 3 && i == 1 && j.mode != "lazy" {
				ln = pick(rng, 1<<20, 1<<20+1, 3<<20, 10<<20+5, 17<<20, 34<<20)
				j.mode, j.method = pick(rng, "info", "info", "eager", "upload"), "POST"
			}
			if rng.IntN(4) == 0 && j.mode == "info" {
				j.trailer, j.sized = "t"+j.id, false
			}
			if j.method == "GET" || j.method == "HEAD" || j.mode == "url" || j.mode == "panic" {
				ln, j.trailer = 0, ""
			}
			j.data = content(ln, rng.Uint64()|1, false)
			jobs = append(jobs, j)
		}
		msgs := par(8, func(g int) {
			for i := g; i < len(jobs); i += 8 {
				s.echo(jobs[i])
				step()
			}
		})
		if len(msgs) > 0 {
			panic(msgs[0])
		}
		takeHooks()
		for _, j := range jobs {
			a := &answer{err: j.err}
			if r.timedOut(a, kind, idx) {
				return
			}
			host := strings.TrimPrefix(strings.TrimPrefix(s.srv[j.proto].URL, "https://"), "http://")
			if msg := j.judge(host); msg != "" {
				r.Violate([]string{"H05"}, kind, idx, fmt.Sprintf("%s %.60s over %s, %s echo with status %d of %d bytes (sized %v) beside %d others: %s", j.method, j.uri, protoNames[j.proto], j.mode, j.status, len(j.data), j.sized, len(jobs)-1, msg), nil)
				return
			}
			e.mu.Lock()
			c := e.ids[j.id]
			e.mu.Unlock()
			if c != 1 {
				r.Violate([]string{"H05"}, kind, idx, fmt.Sprintf("%s over %s, %s echo: the handler was called %d times", j.method, protoNames[j.proto], j.mode, c), nil)
				return
			}
			r.Count("echoes_"+j.mode, 1)
			if j.onDisk {
				r.Count("uploads_on_disk", 1)
			}
			if j.trailer != "" {
				r.Count("request_trailers", 1)
			}
			r.Max("request_body_bytes", int64(len(j.data)))
			r.Count("request_bytes_echoed", int64(len(j.data)))
			r.Eval(hash64(kind, j.id, j.mode, j.method, len(j.data)), true)
		}
	})
}

func init() {
	checks["H05"] = func(r *Run) {
		r.Rule("Direct: the adaptor is called with generated requests (methods, headers, targets, protocol versions, contexts with values, deadlines and cancellation, path values, a watched body) and handlers that succeed or fail in every way of H01-H03; the handler compares what it gets with a clone taken beforehand, and reads and cancels. Echo: 8-24 requests at once over real HTTP/1.1 and HTTP/2 connections with unique bodies and targets, answered from their own body, target and headers, read at once or lazily while the answer is served. Distinct by request; every case is non-trivial.")
		r.Assume("A lazy echo over HTTP/1.1 is limited to 60 kB: net/http ends the request's body once the response has begun. Over HTTP/2 a lazy echo has a 2xx status: Go's client stops sending a request's body when any other arrives.")
		r.requestCases("direct", r.N(20000, 200000))
		r.echoCases("echo", r.N(300, 3000))
	}
}
