package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"io"
	"net/http"
	"net/http/httptest"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
)

// Values whose special meaning elsewhere must not make a difference here.

var allMethods = []string{"GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "PROPFIND", "QUERY", "X"}

var reqHdrs = [][2]string{
	{"Range", "bytes=0-1"}, {"If-None-Match", "*"}, {"If-None-Match", `"x"`}, {"If-Modified-Since", "Mon, 02 Jan 2090 15:04:05 GMT"}, {"If-Match", `"y"`},
	{"Accept", "application/json"}, {"Accept", "text/html"}, {"Accept-Encoding", "identity"}, {"Accept-Encoding", "gzip, br"}, {"Authorization", "Basic eDp5"}, {"Cookie", "a=b"},
	{"Referer", "http://x/"}, {"Origin", "http://x"}, {"X-Requested-With", "XMLHttpRequest"}, {"X-Forwarded-For", "1.2.3.4"}, {"X-Forwarded-Proto", "https"}, {"User-Agent", "curl/8"},
	{"Cache-Control", "no-cache"}, {"Want-Digest", "sha-256"}, {"X-Http-Method-Override", "HEAD"}, {"Accept-Language", "de"}, {"Save-Data", "on"}, {"Te", "trailers"}, {"Purpose", "prefetch"}, {"Content-Type", "application/json"}, {"X-Request-Id", "7"},
}

func addReqHdrs(rng *randT, h http.Header) {
	if rng.IntN(2) == 0 {
		return
	}
	for i := rng.IntN(5); i >= 0; i-- {
		switch rng.IntN(8) {
		case 0, 1:
			h[http.CanonicalHeaderKey(reqNames[rng.IntN(len(reqNames))])] = reqVals(rng)
		case 2:
			h[anyName(rng)] = reqVals(rng)
		default:
			x := reqHdrs[rng.IntN(len(reqHdrs))]
			h.Set(x[0], x[1])
		}
	}
}

// reqNames are further request header names that something between a client
// and a handler might look at, or take away.
var reqNames = []string{"Proxy-Connection", "Proxy-Authorization", "Proxy-Authenticate", "Forwarded", "Via", "X-Forwarded-Host", "X-Forwarded-Port", "X-Forwarded-Server", "X-Real-Ip", "Max-Forwards", "If-Range", "If-Unmodified-Since", "Accept-Charset", "Accept-Datetime", "Date", "Dnt", "From", "Pragma", "Prefer", "Sec-Fetch-Mode", "Sec-Websocket-Key", "Sec-Ch-Ua", "Http2-Settings", "Upgrade-Insecure-Requests", "X-Csrf-Token", "X-Original-Url", "X-Rewrite-Url", "X-Correlation-Id", "Traceparent", "Tracestate", "X-B3-Traceid", "X-Method-Override", "X-Http-Method", "Content-Md5", "Content-Encoding", "Content-Language", "Content-Location", "Digest", "Early-Data", "Alt-Used", "Priority", "Idempotency-Key", "Last-Event-Id", "Ping-To", "Service-Worker", "X-Api-Key", "X-Status", "Status", "Location", "Server", "Set-Cookie", "Link", "Push-Policy", "Accept-Push-Policy", "Expect-Ct", "Keep-Alive-Hint"}

func reqVals(rng *randT) []string {
	vs := make([]string, 1+rng.IntN(3))
	for i := range vs {
		vs[i] = pick(rng, "keep-alive", "close", "1", "0", "x, y", "http://x/;q=\"1\"", "a\tb", strings.Repeat("v", 1+rng.IntN(300)))
	}
	return vs
}

type ctxKey struct{}

// anyReq is a request as a server might hand it to a handler, with all that
// has no bearing on how a response is served.
func anyReq(rng *randT, method string) *http.Request {
	if rng.IntN(3) == 0 {
		return req(method)
	}
	var rb io.Reader
	if rng.IntN(3) == 0 {
		rb = strings.NewReader(strings.Repeat("r", rng.IntN(100)))
	}
	target := pick(rng, "/", "/a/b?c=d", "http://example.org/x", "/favicon.ico", "/metrics", "/healthz", "//x/../y", "/%2e%2e/%00", "/a;b=c", "/robots.txt", "/.well-known/x", "/debug/pprof/", "/?", "http://h:81", "/x#y", "/index.html", "/"+strings.Repeat("p", rng.IntN(3000)))
	switch {
	case method == "CONNECT" && rng.IntN(2) == 0:
		target = pick(rng, "example.org:443", "[::1]:80")
	case rng.IntN(12) == 0 && method != "CONNECT":
		target = "*"
	}
	q := httptest.NewRequest(method, target, rb)
	addReqHdrs(rng, q.Header)
	switch rng.IntN(8) {
	case 0:
		q.ContentLength = -1
	case 1:
		q.TLS = &tls.ConnectionState{Version: tls.VersionTLS13}
	case 2:
		q.Header.Set("Connection", pick(rng, "close", "Upgrade", "keep-alive"))
		q.Header.Set("Upgrade", "websocket")
		q.Close = rng.IntN(2) == 0
	case 3:
		q.Header.Set("Expect", "100-continue")
	case 4:
		q.Header = http.Header{}
	}
	switch rng.IntN(4) {
	case 0:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/1.0", 1, 0
	case 1:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
	case 2:
		q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/3.0", 3, 0
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, 1)
	switch rng.IntN(5) {
	case 0, 1: // the client has gone away
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	case 2: // a deadline has passed
		c, cancel := context.WithDeadline(ctx, time.Unix(0, 0))
		defer cancel()
		ctx = c
	}
	return q.WithContext(ctx)
}

var nearNames = []string{"Push-Policy", "Pushed", "Pus", "X-Push", "Accept-Push-Policy", "Content-Lengthy", "Content-Types", "Content-Type-Options", "X-Content-Type-Options", "Datex", "Etags", "Set-Cookie2", "Content", "Location", "Content-Location", "Server", "Allow", "Retry-After", "Strict-Transport-Security", "Accept-Ranges", "Content-Range", "Content-Disposition", "Digest", "Expires", "Pragma", "Age", "Alt-Svc", "Warning", "Via", "P3p", "Access-Control-Allow-Origin", "Transfer", "Trailers", "Status", "X-Accel-Redirect", "X-Sendfile", "X-Http-Status", "A", "Z0", "X_underscore", "X.dot", "X!bang"}

// anyName is a header name that HTTP does not handle specially, canonical.
func anyName(rng *randT) string {
	if rng.IntN(3) > 0 {
		return nearNames[rng.IntN(len(nearNames))]
	}
	var sb strings.Builder
	for i := rng.IntN(4); i >= 0; i-- {
		sb.WriteString(pick(rng, "x", "foo", "bar", "content", "push", "type", "security", "id", "info", "cache", strconv.Itoa(rng.IntN(50))))
		if i > 0 {
			sb.WriteByte('-')
		}
	}
	n := http.CanonicalHeaderKey(sb.String())
	switch n {
	case "Push", "Content-Type", "Cache", "":
		return "X-Other"
	}
	return n
}

// hopNames are names that a server gives a meaning of its own; to a builder they
// are names like any other.
var hopNames = []string{"Transfer-Encoding", "Trailer", "Connection", "Keep-Alive", "Upgrade", "Te", "Content-Encoding", "Content-Range", "Accept-Ranges", "Date", "X-Content-Type-Options", "Trailer:X-T", "Last-Modified", "Expires", "Www-Authenticate", "Retry-After", "Allow"}

func opName(rng *randT) string {
	switch rng.IntN(8) {
	case 0, 1:
		return anyName(rng)
	case 2:
		return hopNames[rng.IntN(len(hopNames))]
	}
	return hdrNames[rng.IntN(len(hdrNames))]
}

// hugeLen is a length of one to several megabytes.
func hugeLen(rng *randT) int {
	return pick(rng, 1<<20-1, 1<<20, 1<<20+1, 2<<20+1, 3<<20, 1<<20+rng.IntN(4<<20))
}

// stdReader yields the data through one of the reader types of the standard
// library, some of which have a fast path of their own.
func stdReader(rng *randT, data []byte) (io.Reader, string) {
	switch rng.IntN(12) {
	case 0:
		return bytes.NewReader(data), "*bytes.Reader"
	case 1:
		return strings.NewReader(string(data)), "*strings.Reader"
	case 2:
		return bytes.NewBuffer(bytes.Clone(data)), "*bytes.Buffer"
	case 3:
		return io.LimitReader(bytes.NewReader(data), int64(len(data)+pick(rng, 0, 1, 1000, 1<<40))), "*io.LimitedReader, short"
	case 4:
		return io.LimitReader(onlyReader{bytes.NewReader(append(bytes.Clone(data), "more"...))}, int64(len(data))), "*io.LimitedReader"
	case 5:
		return io.NewSectionReader(bytes.NewReader(data), 0, int64(len(data)+pick(rng, 0, 1, 1000))), "*io.SectionReader"
	case 6:
		return bufio.NewReaderSize(onlyReader{bytes.NewReader(data)}, 16), "*bufio.Reader"
	case 7:
		k := rng.IntN(len(data) + 1)
		return io.MultiReader(bytes.NewReader(data[:k]), strings.NewReader(""), bytes.NewReader(data[k:])), "io.MultiReader"
	case 8:
		return io.TeeReader(bytes.NewReader(data), io.Discard), "io.TeeReader"
	case 9:
		return io.NopCloser(bytes.NewReader(data)), "io.NopCloser"
	case 10:
		b := body.FromBytes(bytes.Clone(data))
		return b, "body of bytes"
	default:
		b, err := body.FromReader(onlyReader{bytes.NewReader(data)})
		if err != nil {
			panic(err)
		}
		return b, "buffered body"
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}
