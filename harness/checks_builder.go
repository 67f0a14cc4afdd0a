package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"io/fs"
	"mime"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
)

// anyBody makes a body of one of the kinds with n bytes.
var bodyKinds = []string{"bytes", "string", "readerat", "seeker", "buffered", "buffered-decl", "file"}

type madeBody struct {
	kind string
	b    body.Body
	data []byte
	s    *src
	done func()
}

func (r *Run) mkBody(rng *randT, kind string, n int, edit func(*srcSpec)) *madeBody {
	m := &madeBody{kind: kind, done: func() {}}
	sp := srcSpec{Len: n, FailAt: -1, Declared: -1, Seed: rng.Uint64()>>12 | 1, Close: true, EOFData: rng.IntN(2) == 0, Frag: pick(rng, 0, 0, 2, 1000), More: rng.IntN(3) == 0, Start: pick(rng, 0, 0, n/2)}
	switch kind {
	case "bytes":
		m.data = content(n, sp.Seed, false)
		m.b = body.FromBytes(append([]byte(nil), m.data...))
		return m
	case "string":
		m.data = content(n, sp.Seed, false)
		m.b = body.FromString(string(m.data))
		return m
	case "file":
		e := &env{c: &bcase{Spec: sp}}
		m.data = content(n, sp.Seed, false)
		b, err := body.FromReader(stdReaders["file"].mk(e, m.data))
		if err != nil {
			panic(err)
		}
		m.b = b
		m.done = func() {
			for _, f := range e.cleanup {
				f()
			}
		}
		return m
	case "readerat":
		sp.At, sp.Stat = true, true
	case "seeker":
		sp.Seek = true
	case "buffered-decl":
		sp.UseLen, sp.Declared = true, int64(n)
	}
	if edit != nil {
		edit(&sp)
	}
	m.s = newSrc(sp)
	m.data = m.s.data
	var err error
	if sp.UseLen {
		m.b, err = body.FromReaderAndLength(m.s.reader(), sp.Declared)
	} else {
		m.b, err = body.FromReader(m.s.reader())
	}
	if err != nil {
		panic(err)
	}
	m.s.inCtor = false
	return m
}

// ---- reference model of a builder ----

type bmodel struct {
	code  int
	hdrs  http.Header
	data  []byte // expected body bytes; nil when no body
	has   bool
	known bool // body length known
	err   error
	gen   response.PageGenerator
	ctRaw bool // Content-Type was set by WithContentType: compare parsed
}

func (m *bmodel) h() http.Header {
	if m.hdrs == nil {
		m.hdrs = http.Header{}
	}
	return m.hdrs
}

func (m *bmodel) clone() *bmodel {
	c := *m
	c.hdrs = m.hdrs.Clone()
	return &c
}

func hdrEqual(got, want http.Header) string {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, gok := got[k]
		w, wok := want[k]
		if gok != wok && !(len(g) == 0 && len(w) == 0) {
			return fmt.Sprintf("header %q: got %q (present %v), want %q (present %v)", k, g, gok, w, wok)
		}
		if len(g) == 0 && len(w) == 0 {
			continue
		}
		if !reflect.DeepEqual(g, w) {
			if k == "Content-Type" && len(g) == 1 && len(w) == 1 {
				m1, p1, e1 := mime.ParseMediaType(g[0])
				m2, p2, e2 := mime.ParseMediaType(w[0])
				if e1 == nil && e2 == nil && m1 == m2 && reflect.DeepEqual(p1, p2) {
					continue
				}
			}
			return fmt.Sprintf("header %q: got %q, want %q", k, g, w)
		}
	}
	return ""
}

func bodyBytes(b body.Body) ([]byte, error) {
	c, err := b.Copy()
	if err != nil {
		return nil, err
	}
	defer c.Close()
	return io.ReadAll(c)
}

// check compares a builder with its model.
func (m *bmodel) check(b *response.Builder, deep bool) string {
	if b.Status() != m.code {
		return fmt.Sprintf("builder status %d, want %d", b.Status(), m.code)
	}
	if b.Err() != m.err {
		return fmt.Sprintf("builder error %v, want %v", b.Err(), m.err)
	}
	if s := hdrEqual(b.Headers(), m.hdrs); s != "" {
		return "builder " + s
	}
	if (b.Body() != nil) != m.has {
		return fmt.Sprintf("builder body present: %v, want %v", b.Body() != nil, m.has)
	}
	if m.gen != nil && b.PageGenerator() != m.gen {
		return "builder lost its page generator"
	}
	if m.gen == nil && b.PageGenerator() != response.DefaultPageGenerator {
		return "builder has an unexpected page generator"
	}
	if m.has && deep {
		raw, err := bodyBytes(b.Body())
		if err != nil || !bytes.Equal(raw, m.data) {
			return fmt.Sprintf("builder body has %d bytes (%v), want %d", len(raw), err, len(m.data))
		}
	}
	return ""
}

type rmodel struct {
	code  int
	hdrs  http.Header
	data  []byte
	err   error
	used  bool // served or consumed: body closed
	pos   int
	clMay bool // the length may or may not have become known before Build
}

func (m *bmodel) build() *rmodel {
	r := &rmodel{code: m.code, hdrs: m.hdrs.Clone(), data: m.data, err: m.err, clMay: !m.known}
	if r.code == 0 {
		r.code = 200
	}
	if r.hdrs == nil {
		r.hdrs = http.Header{}
	}
	if _, ok := r.hdrs["Content-Type"]; !ok {
		r.hdrs["Content-Type"] = []string{"application/octet-stream"}
	}
	if _, ok := r.hdrs["Content-Length"]; !ok && m.known {
		r.hdrs["Content-Length"] = []string{strconv.Itoa(len(m.data))}
	}
	*m = bmodel{gen: m.gen}
	return r
}

func (m *rmodel) check(x *response.Response, deep bool) string {
	if x.Status() != m.code {
		return fmt.Sprintf("response status %d, want %d", x.Status(), m.code)
	}
	if x.Err() != m.err {
		return fmt.Sprintf("response error %v, want %v", x.Err(), m.err)
	}
	if _, ok := m.hdrs["Content-Length"]; m.clMay && !ok {
		// the end of a forward-only reader may already have been seen
		if v := x.Headers()["Content-Length"]; len(v) == 1 && v[0] == strconv.Itoa(len(m.data)) {
			m.hdrs["Content-Length"] = []string{v[0]}
		}
	}
	m.clMay = false
	if s := hdrEqual(x.Headers(), m.hdrs); s != "" {
		return "response " + s
	}
	if x.Body() == nil {
		return "response has no body"
	}
	if deep && !m.used {
		raw, err := bodyBytes(x.Body())
		if err != nil || !bytes.Equal(raw, m.data[m.pos:]) {
			return fmt.Sprintf("response body has %d bytes (%v), want %d", len(raw), err, len(m.data)-m.pos)
		}
	}
	return ""
}

// testGen is a page generator of the caller's own.
type testGen struct {
	id    int
	calls []string
}

func (g *testGen) GenerateRedirectPage(code int, loc string) (http.Header, body.Body) {
	g.calls = append(g.calls, fmt.Sprintf("redirect %d %s", code, loc))
	return http.Header{"Location": {loc}, "X-Gen": {strconv.Itoa(g.id)}, "Content-Type": {"text/x-gen"}}, body.FromString(fmt.Sprintf("gen%d redirect %d %s", g.id, code, loc))
}

func (g *testGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	g.calls = append(g.calls, fmt.Sprintf("error %d %v", code, err))
	if g.id%2 == 0 {
		return nil, body.FromString(fmt.Sprintf("gen%d error %d", g.id, code))
	}
	return http.Header{"X-Gen": {strconv.Itoa(g.id)}}, body.FromString(fmt.Sprintf("gen%d error %d", g.id, code))
}

var hdrNames = []string{"X-A", "x-b", "X-C", "Content-Type", "content-length", "Etag", "ETag", "Vary", "Set-Cookie", "Link", "Digest", "Cache-Control", "Content-Language", "Push", "Location"}

func genHdr(rng *randT) http.Header {
	switch rng.IntN(6) {
	case 0:
		return nil
	case 1:
		return http.Header{}
	}
	h := http.Header{}
	switch rng.IntN(30) {
	case 0:
		for i := pick(rng, 9, 16, 17, 33, 65, 100, 257) + rng.IntN(3); i > 0; i-- {
			h["X-Wide-"+strconv.Itoa(i)] = []string{genVal(rng)}
		}
	case 1:
		for i := pick(rng, 9, 16, 17, 33, 65, 100, 257) + rng.IntN(3); i > 0; i-- {
			h["X-Deep"] = append(h["X-Deep"], strconv.Itoa(i))
		}
	}
	for i := rng.IntN(5); i >= 0; i-- {
		k := http.CanonicalHeaderKey(hdrNames[rng.IntN(len(hdrNames))])
		if rng.IntN(4) == 0 {
			k = anyName(rng)
		}
		switch rng.IntN(8) {
		case 0:
			h[k] = nil
		case 1:
			h[k] = []string{}
		default:
			for j := rng.IntN(3); j >= 0; j-- {
				h[k] = append(h[k], genVal(rng))
			}
		}
	}
	return h
}

func genVal(rng *randT) string {
	switch rng.IntN(16) {
	case 0:
		// surrounding space, long values and any octets are the caller's affair
		return pick(rng, " lead", "trail ", "\tboth ", " ", "a\tb", "\xff\xfe", "日本", "a  b", "\"q\\\"uoted\"", "%0d%0a", "&amp;", "x\x7f")
	case 1:
		return strings.Repeat(pick(rng, "l", "ab, ", "x=y; "), 1+rng.IntN(2000))
	}
	return pick(rng, "", "v", "a, b", "1", "0", "text/plain", "W/\"x\"", "é", "x=y; z", "42", "/p") + strconv.Itoa(rng.IntN(10))
}

// langVal is a Content-Language; it is to be kept as it is written.
func langVal(rng *randT) string {
	var sb strings.Builder
	sb.WriteString(pick(rng, "", "", " ", "\t "))
	for i := rng.IntN(3); i >= 0; i-- {
		sb.WriteString(pick(rng, "en", "DE", "fr-CA", "zh-Hant-TW", "en_US", "*", "x-klingon", "i-default", "sr-Latn", "C", "pt-br", "mi"))
		if i > 0 {
			sb.WriteString(pick(rng, ", ", ",", " ,  "))
		}
	}
	sb.WriteString(pick(rng, "", "", " ", "\r\n"))
	return sb.String()
}

// etagVal is made of the octets an entity tag may have, up to many of them.
func etagVal(rng *randT) string {
	switch rng.IntN(4) {
	case 0:
		return pick(rng, "abc", "", "x-1", "W/", "/", "a,b", "*", "%22", "--gzip", "\\", "A\\b", "'", "a b c"[:1])
	case 1:
		return fmt.Sprintf("%x", content(rng.IntN(80), rng.Uint64()|1, false))
	}
	b := make([]byte, rng.IntN(30))
	for i := range b {
		for b[i] < 0x21 || b[i] == '"' || b[i] == 0x7f {
			b[i] = byte(rng.IntN(256))
		}
	}
	return string(b)
}

var mediaTypes = []string{"text/plain", "text/plain; charset=utf-8", "TEXT/HTML; Charset=\"UTF-8\"", "application/json", "multipart/form-data; boundary=xyz", "a/b;c=d;e=\"f g\"", "foo", "text/plain;", " text/plain ", "image/svg+xml",
	"", " ", "/", "text/", ";", "text/plain; charset", "text/plain; =x", "a b/c", "text/plain; charset=\"unterminated", "text//plain", "t\x00/x", "text/plain; a=b; a=c", "é/x"}

// bop applies one random builder call to builder and model; it returns a
// complaint when the call itself misbehaves.
func (r *Run) bop(rng *randT, b *response.Builder, m *bmodel, callerHdrs *[]http.Header, errs []error) (string, string) {
	refuse := func(what string, f func()) (string, string) {
		if msg, _ := guard(f); msg == "" {
			return what, what + " was not refused by a panic"
		}
		r.Count("refused_calls", 1)
		return what, ""
	}
	ret := func(what string, got *response.Builder) (string, string) {
		if got != b {
			return what, what + " did not return its builder"
		}
		return what, ""
	}
	switch rng.IntN(31) {
	case 27, 28:
		// values added to a header that has some already
		ks := sortedKeys(b.Headers())
		if len(ks) == 0 {
			return "Headers()", ""
		}
		k := ks[rng.IntN(len(ks))]
		ck := http.CanonicalHeaderKey(k)
		n := 1 + rng.IntN(5)
		direct := rng.IntN(3) == 0
		for i := 0; i < n; i++ {
			v := genVal(rng)
			if direct {
				b.Headers()[k] = append(b.Headers()[k], v)
				m.h()[k] = append(m.h()[k], v)
			} else {
				b.WithHeader(ck, v, true)
				m.h()[ck] = append(m.h()[ck], v)
			}
		}
		return fmt.Sprintf("WithHeader(%q) %d times", k, n), ""
	case 29, 30:
		// the documented licence again: values edited in place
		for _, k := range sortedKeys(b.Headers()) {
			if vs := b.Headers()[k]; len(vs) > 0 && rng.IntN(2) == 0 {
				i, v := rng.IntN(len(vs)), genVal(rng)
				vs[i] = v
				m.h()[k][i] = v
			}
		}
		return "Headers()[k][i]=v", ""
	case 0, 1:
		c := pick(rng, 200, 201, 204, 299, 304, 404, 418, 500, 599, 600, 999, 200+rng.IntN(800))
		got := b.WithStatus(c)
		m.code = c
		return ret("WithStatus", got)
	case 2:
		c := pick(rng, 0, -1, 1, 100, 199, 1000, 1<<31, -200, 99999, 101)
		return refuse(fmt.Sprintf("WithStatus(%d)", c), func() { b.WithStatus(c) })
	case 3:
		h := genHdr(rng)
		*callerHdrs = append(*callerHdrs, h)
		got := b.WithHeaders(h)
		m.hdrs = h.Clone()
		return ret("WithHeaders", got)
	case 4, 5, 6:
		k, v, app := opName(rng), genVal(rng), rng.IntN(2) == 0
		got := b.WithHeader(k, v, app)
		if app {
			m.h().Add(k, v)
		} else {
			m.h().Set(k, v)
		}
		return ret("WithHeader", got)
	case 7:
		return refuse("WithHeader with an empty name", func() { b.WithHeader("", "x", rng.IntN(2) == 0) })
	case 8, 9:
		k := opName(rng)
		got := b.WithoutHeader(k)
		m.h().Del(k)
		return ret("WithoutHeader", got)
	case 10:
		return refuse("WithoutHeader with an empty name", func() { b.WithoutHeader("") })
	case 11, 12:
		t := mediaTypes[rng.IntN(len(mediaTypes))]
		mt, ps, err := mime.ParseMediaType(t)
		want := ""
		if err == nil {
			want = mime.FormatMediaType(mt, ps)
		}
		if want == "" {
			return refuse(fmt.Sprintf("WithContentType(%q)", t), func() { b.WithContentType(t) })
		}
		got := b.WithContentType(t)
		m.h().Set("Content-Type", want)
		return ret("WithContentType", got)
	case 13:
		v := langVal(rng)
		got := b.WithContentLanguage(v)
		m.h().Set("Content-Language", strings.TrimSpace(v))
		return ret("WithContentLanguage", got)
	case 14:
		v := pick(rng, "gzip", " br ", "identity\t", "GZIP", "x-gzip", "deflate, gzip", "aws-chunked,gzip", "", "identity", "zstd", "*", "gzip ;q=1")
		got := b.WithContentEncoding(v)
		m.h().Set("Content-Encoding", strings.TrimSpace(v))
		return ret("WithContentEncoding", got)
	case 15:
		v, strong := etagVal(rng), rng.IntN(2) == 0
		got := b.WithETag(v, strong)
		w := `"` + v + `"`
		if !strong {
			w = "W/" + w
		}
		m.h().Set("Etag", w)
		return ret("WithETag", got)
	case 16:
		if rng.IntN(4) == 0 {
			if rng.IntN(2) == 0 {
				return refuse("WithDigest without algorithm", func() { b.WithDigest("", []byte{1}) })
			}
			return refuse("WithDigest without sum", func() { b.WithDigest("sha-256", nil) })
		}
		a, sum := pick(rng, "sha-256", "MD5", "SHA-512", "sha", "id-sha-256", "UNIXsum", "crc32c", "x"), content(pick(rng, 1+rng.IntN(40), 16, 20, 32, 64, 1+rng.IntN(300)), rng.Uint64()|1, false)
		got := b.WithDigest(a, sum)
		m.h().Add("Digest", a+"="+base64.StdEncoding.EncodeToString(sum))
		return ret("WithDigest", got)
	case 17, 18, 19:
		mb := r.mkBody(rng, bodyKinds[rng.IntN(len(bodyKinds)-1)], genLen(rng, 0), nil)
		// sometimes a body that has been read in part
		pos := 0
		if rng.IntN(3) == 0 && len(mb.data) > 0 {
			pos = rng.IntN(len(mb.data))
			io.ReadFull(mb.b, make([]byte, pos))
		}
		got := b.WithBody(mb.b)
		m.data, m.has, m.known = mb.data[pos:], true, mb.kind != "buffered"
		return ret("WithBody", got)
	case 20:
		return refuse("WithBody(nil)", func() { b.WithBody(nil) })
	case 21:
		v := genJSON(rng, 2)
		pretty := rng.IntN(2) == 0
		var got *response.Builder
		if pretty {
			got = b.WithPrettyJSON(v)
		} else {
			got = b.WithJSON(v)
		}
		m.h().Set("Content-Type", "application/json")
		raw, err := bodyBytes(b.Body())
		if err != nil {
			return "WithJSON", err.Error()
		}
		var back any
		if err := decodeOne(raw, &back, false); err != nil || !reflect.DeepEqual(back, v) {
			return "WithJSON", fmt.Sprintf("JSON body %q does not decode to the value given (%v)", tailOf(raw), err)
		}
		if pretty {
			if s := checkPretty(raw, false); s != "" {
				return "WithPrettyJSON", s
			}
		}
		m.data, m.has, m.known = raw, true, true
		return ret("WithJSON", got)
	case 22:
		v := wrapperspb.String(strconv.Itoa(rng.IntN(1000)))
		var got *response.Builder
		if rng.IntN(2) == 0 {
			got = b.WithProto(v)
			m.h().Set("Content-Type", "application/vnd.google.protobuf")
		} else {
			got = b.WithProtoText(v, nil)
			m.h().Set("Content-Type", "text/plain; charset=utf-8")
		}
		raw, err := bodyBytes(b.Body())
		if err != nil || !bytes.Contains(raw, []byte(v.Value)) {
			return "WithProto", fmt.Sprintf("protobuf body %q lacks the value (%v)", raw, err)
		}
		m.data, m.has, m.known = raw, true, true
		return ret("WithProto", got)
	case 23:
		e := errs[rng.IntN(len(errs))]
		got := b.WithError(e)
		m.err = e
		return ret("WithError", got)
	case 24:
		// the documented licence to edit the map in place
		k, v := http.CanonicalHeaderKey(opName(rng)), genVal(rng)
		b.Headers()[k] = []string{v}
		m.h()[k] = []string{v}
		return "Headers()[k]=v", ""
	case 25:
		loc := pick(rng, "/x", " https://h/p?a=b&c ", "\t/y\n", "/<z>")
		code := 300 + rng.IntN(100)
		got := b.RedirectPage(code, loc)
		m.code, m.err = code, nil
		raw, err := bodyBytes(b.Body())
		if err != nil {
			return "RedirectPage", err.Error()
		}
		if m.gen != nil {
			g := m.gen.(*testGen)
			m.hdrs = http.Header{"Location": {strings.TrimSpace(loc)}, "X-Gen": {strconv.Itoa(g.id)}, "Content-Type": {"text/x-gen"}}
			if string(raw) != fmt.Sprintf("gen%d redirect %d %s", g.id, code, strings.TrimSpace(loc)) {
				return "RedirectPage", fmt.Sprintf("page %q is not the one of the builder's generator", raw)
			}
		} else {
			if b.Headers().Get("Location") != strings.TrimSpace(loc) || b.Headers().Get("Content-Length") != strconv.Itoa(len(raw)) {
				return "RedirectPage", fmt.Sprintf("headers %v for location %q and a page of %d bytes", b.Headers(), loc, len(raw))
			}
			m.hdrs = b.Headers().Clone()
		}
		m.data, m.has, m.known = raw, true, true
		return ret("RedirectPage", got)
	default:
		e := errs[1+rng.IntN(len(errs)-1)]
		code := 200 + rng.IntN(800)
		got := b.ErrorPage(code, e)
		m.code, m.err = code, e
		raw, err := bodyBytes(b.Body())
		if err != nil {
			return "ErrorPage", err.Error()
		}
		if m.gen != nil {
			g := m.gen.(*testGen)
			m.hdrs = nil
			if g.id%2 != 0 {
				m.hdrs = http.Header{"X-Gen": {strconv.Itoa(g.id)}}
			}
			if string(raw) != fmt.Sprintf("gen%d error %d", g.id, code) {
				return "ErrorPage", fmt.Sprintf("page %q is not the one of the builder's generator", raw)
			}
		} else {
			if b.Headers().Get("Content-Length") != strconv.Itoa(len(raw)) {
				return "ErrorPage", fmt.Sprintf("headers %v for a page of %d bytes", b.Headers(), len(raw))
			}
			m.hdrs = b.Headers().Clone()
		}
		m.data, m.has, m.known = raw, true, true
		return ret("ErrorPage", got)
	}
}

type txtErr struct{ s string }

func (e *txtErr) Error() string { return e.s }

var testErrs = []error{nil, &txtErr{"secret one"}, errors.New("secret two"), fmt.Errorf("secret three: %w", io.ErrUnexpectedEOF)}

func (r *Run) checkBuilder(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		b := response.NewBuilder()
		m := &bmodel{}
		var hist []string
		var hs []http.Header
		deep := rng.IntN(2) == 0 // whether the body is looked at before Build
		bad := func(f string, a ...any) {
			r.Violate([]string{"R01"}, kind, idx, fmt.Sprintf(f, a...), append([]string(nil), hist...))
		}
		for build := 0; build < 1+rng.IntN(3); build++ {
			if rng.IntN(3) == 0 {
				m.gen = &testGen{id: rng.IntN(100)}
				b.WithPageGenerator(m.gen)
				hist = append(hist, "WithPageGenerator")
			}
			for k := rng.IntN(12); k >= 0; k-- {
				step()
				what, bad1 := "", ""
				msg, _ := guard(func() { what, bad1 = r.bop(rng, b, m, &hs, testErrs) })
				hist = append(hist, what)
				r.Count("builder_calls", 1)
				if msg != "" {
					bad("builder call: %s", msg)
					return
				}
				if bad1 != "" {
					bad("%s", bad1)
					return
				}
				if s := m.check(b, deep); s != "" {
					bad("after %s: %s", what, s)
					return
				}
			}
			if !m.has {
				if msg, _ := guard(func() { b.Build() }); msg == "" {
					bad("Build without a body was not refused by a panic")
					return
				}
				r.Count("refused_calls", 1)
				if s := m.check(b, true); s != "" {
					bad("after refused Build: %s", s)
					return
				}
				continue
			}
			var x *response.Response
			if msg, _ := guard(func() { x = b.Build() }); msg != "" {
				bad("Build: %s", msg)
				return
			}
			hist = append(hist, "Build")
			rm := m.build()
			if s := rm.check(x, true); s != "" {
				bad("after Build: %s", s)
				return
			}
			if s := m.check(b, true); s != "" {
				bad("builder after Build: %s", s)
				return
			}
			r.Count("responses_built", 1)
			x.Body().Close()
			r.Eval(hash64(fmt.Sprint(hist), rm.code, fmt.Sprint(rm.hdrs), len(rm.data)), len(hist) > 2)
		}
		if len(hist) < 10 {
			r.Sample(hist)
		}
	})
}

// ---- R02: isolation ----

type world struct {
	bs  []*response.Builder
	bm  []*bmodel
	xs  []*response.Response
	xm  []*rmodel
	hs  []http.Header
	ws  []*fakeW
	wsn []http.Header
}

func (w *world) verify(deep bool) string {
	for i := range w.bs {
		if s := w.bm[i].check(w.bs[i], deep); s != "" {
			return fmt.Sprintf("builder %d: %s", i, s)
		}
	}
	for i := range w.xs {
		if s := w.xm[i].check(w.xs[i], deep); s != "" {
			return fmt.Sprintf("response %d: %s", i, s)
		}
	}
	for i := range w.ws {
		if s := hdrEqual(w.ws[i].hdr, w.wsn[i]); s != "" {
			return fmt.Sprintf("served writer %d: %s", i, s)
		}
	}
	return ""
}

func (r *Run) checkIsolation(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		w := &world{bs: []*response.Builder{response.NewBuilder()}, bm: []*bmodel{{}}}
		var hist []string
		deep := rng.IntN(2) == 0 // whether bodies are looked at after every step
		bad := func(f string, a ...any) {
			r.Violate([]string{"R02"}, kind, idx, fmt.Sprintf(f, a...), append([]string(nil), hist...))
		}
		for k := 0; k < 6+rng.IntN(24); k++ {
			step()
			what := ""
			i := rng.IntN(len(w.bs))
			b, m := w.bs[i], w.bm[i]
			x := rng.IntN(20)
			msg, _ := guard(func() {
				switch {
				case x < 7:
					var bad1 string
					what, bad1 = r.bop(rng, b, m, &w.hs, testErrs)
					what = fmt.Sprintf("b%d.%s", i, what)
					if bad1 != "" {
						r.Violate([]string{"R01"}, kind, idx, bad1, hist)
					}
				case x == 7 && rng.IntN(3) == 0:
					m.gen = &testGen{id: rng.IntN(100)}
					b.WithPageGenerator(m.gen)
					what = fmt.Sprintf("b%d.WithPageGenerator", i)
				case x < 10:
					if !m.has {
						return
					}
					what = fmt.Sprintf("b%d.Build -> x%d", i, len(w.xs))
					w.xs = append(w.xs, b.Build())
					w.xm = append(w.xm, m.build())
				case x < 12:
					if len(w.bs) >= 5 {
						return
					}
					what = fmt.Sprintf("b%d.Copy -> b%d", i, len(w.bs))
					c, err := b.Copy()
					if err != nil {
						bad("builder Copy: %v", err)
						return
					}
					w.bs, w.bm = append(w.bs, c), append(w.bm, m.clone())
				case x < 14:
					if len(w.xs) == 0 || len(w.xs) >= 8 {
						return
					}
					j := rng.IntN(len(w.xs))
					what = fmt.Sprintf("x%d.Copy -> x%d", j, len(w.xs))
					c, err := w.xs[j].Copy()
					if err != nil {
						bad("response Copy: %v", err)
						return
					}
					cm := *w.xm[j]
					cm.hdrs = cm.hdrs.Clone()
					w.xs, w.xm = append(w.xs, c), append(w.xm, &cm)
				case x < 16:
					if len(w.xs) == 0 {
						return
					}
					j := rng.IntN(len(w.xs))
					if w.xm[j].used {
						return
					}
					what = fmt.Sprintf("x%d.Serve", j)
					f := newFakeW()
					f.hdr.Set("X-Outer", "1")
					if rng.IntN(3) == 0 {
						f.limit, f.mode = rng.IntN(len(w.xm[j].data)+2), pick(rng, "fail", "late")
					}
					err := w.xs[j].Serve(f.anyWrap(rng, rng.IntN(16)))
					if err == nil && !bytes.Equal(f.got, w.xm[j].data[w.xm[j].pos:]) {
						r.Violate([]string{"R02", "R03"}, kind, idx, fmt.Sprintf("%s sent %d bytes of %d", what, len(f.got), len(w.xm[j].data)-w.xm[j].pos), hist)
					}
					w.xm[j].used = true
					w.ws, w.wsn = append(w.ws, f), append(w.wsn, f.hdr.Clone())
				case x == 16:
					if len(w.xs) == 0 {
						return
					}
					j := rng.IntN(len(w.xs))
					if w.xm[j].used {
						return
					}
					what = fmt.Sprintf("consume x%d", j)
					k, _ := io.ReadFull(w.xs[j].Body(), make([]byte, rng.IntN(40)))
					w.xm[j].pos += k
					if rng.IntN(3) == 0 {
						w.xs[j].Body().Close()
						w.xm[j].used = true
					}
				case x == 17:
					// the caller plays with the map handed in earlier
					if len(w.hs) == 0 {
						return
					}
					h := w.hs[rng.IntN(len(w.hs))]
					if h == nil {
						return
					}
					what = "mutate caller's header map"
					for k, v := range h {
						for q := range v {
							v[q] = "mutated"
						}
						h[k] = append(v, "appended")
						if len(v) > 0 && cap(v) > len(v) {
							v[:len(v)+1][len(v)] = "behind"
						}
					}
					h["X-Late"] = []string{"late"}
					delete(h, "Etag")
				case x < 20:
					// outer layers play with the header map of a writer that was served
					if len(w.ws) == 0 {
						return
					}
					j := rng.IntN(len(w.ws))
					what = fmt.Sprintf("mutate header map of served writer %d", j)
					h := w.ws[j].hdr
					for k, v := range h {
						for q := range v {
							v[q] = "mutated-w"
						}
						h[k] = append(v, "appended-w")
					}
					delete(h, "Content-Type")
					w.wsn[j] = h.Clone()
				}
			})
			if what == "" {
				continue
			}
			hist = append(hist, what)
			r.Count("steps", 1)
			if msg != "" {
				bad("%s: %s", what, msg)
				return
			}
			if s := w.verify(deep); s != "" {
				bad("after %s: %s", what, s)
				return
			}
			r.Count("snapshots_verified", int64(len(w.bs)+len(w.xs)+len(w.ws)))
		}
		if s := w.verify(true); s != "" {
			bad("at the end: %s", s)
			return
		}
		r.Eval(hash64(fmt.Sprint(hist)), len(w.bs)+len(w.xs) > 1)
		r.Max("live_objects", int64(len(w.bs)+len(w.xs)+len(w.ws)))
		if len(hist) < 14 {
			r.Sample(hist)
		}
		for i, x := range w.xs {
			if !w.xm[i].used {
				x.Body().Close()
			}
		}
	})
}

// concurrent serving of copies of one response
func (r *Run) checkConcServe(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		mb := r.mkBody(rng, bodyKinds[idx%len(bodyKinds)], pick(rng, 0, 10, 5000, 70000), nil)
		defer mb.done()
		if mb.s != nil {
			mb.s.lite = true
			mb.s.budget = 1 << 40
		}
		b := response.NewBuilder().WithStatus(200).WithHeader("X-M", "1", true).WithHeader("X-M", "2", true).WithHeader("Vary", "a", false)
		b.WithBody(mb.b)
		x := b.Build()
		want := x.Headers().Clone()
		gs := 2 + rng.IntN(6)
		xs := []*response.Response{x}
		for len(xs) < gs {
			c, err := xs[rng.IntN(len(xs))].Copy()
			if err != nil {
				r.Bad(kind, idx, "Copy: %v", err)
				return
			}
			xs = append(xs, c)
		}
		probs := make([]string, gs)
		panics := par(gs, func(g int) {
			f := newFakeW()
			w := response.NewWriter(f.wrap(g%16), httptest.NewRequest("GET", "/", nil))
			if err := xs[g].Serve(w); err != nil {
				probs[g] = fmt.Sprintf("Serve: %v", err)
				return
			}
			if !bytes.Equal(f.got, mb.data) {
				probs[g] = fmt.Sprintf("copy %d sent %d bytes of %d or wrong ones: %s", g, len(f.got), len(mb.data), diff(f.got, mb.data))
				return
			}
			for k, v := range f.hdr {
				for q := range v {
					v[q] = "mutated"
				}
				f.hdr[k] = append(v, "x")
			}
			if s := hdrEqual(xs[g].Headers(), want); s != "" {
				probs[g] = "after serving: " + s
			}
		})
		probs = append(probs, panics...)
		for _, p := range probs {
			if p != "" {
				r.Violate([]string{"R02"}, kind, idx, fmt.Sprintf("%d copies over a %s body served at once: %s", gs, mb.kind, p), nil)
				return
			}
		}
		if mb.s != nil && mb.s.closes != 1 {
			r.Violate([]string{"R02", "R04"}, kind, idx, fmt.Sprintf("reader closed %d times after all copies were served", mb.s.closes), nil)
		}
		r.Count("concurrent_serves", int64(gs))
		r.Eval(hash64(kind, idx), true)
	})
	// unrelated builders used by different goroutines
	r.Cases(kind+"-builders", n, func(rng *randT, idx int) {
		proto := response.NewBuilder().WithHeaders(http.Header{"X-A": {"1", "2"}, "Etag": {"x"}})
		pm := &bmodel{hdrs: http.Header{"X-A": {"1", "2"}, "Etag": {"x"}}}
		gs := 2 + rng.IntN(4)
		bs := make([]*response.Builder, gs)
		for g := range bs {
			c, err := proto.Copy()
			if err != nil {
				r.Bad(kind, idx, "Copy: %v", err)
				return
			}
			bs[g] = c
		}
		seeds := make([]uint64, gs)
		for i := range seeds {
			seeds[i] = rng.Uint64()
		}
		probs := make([]string, gs)
		par(gs, func(g int) {
			lr := newRand(seeds[g])
			m := pm.clone()
			var hs []http.Header
			for k := 0; k < 12; k++ {
				if _, s := r.bop(lr, bs[g], m, &hs, testErrs); s != "" {
					probs[g] = s
					return
				}
				if s := m.check(bs[g], true); s != "" {
					probs[g] = s
					return
				}
			}
		})
		for _, p := range probs {
			if p != "" {
				r.Violate([]string{"R02"}, kind, idx, "builders copied from one and used at once: "+p, nil)
				return
			}
		}
		if s := pm.check(proto, true); s != "" {
			r.Violate([]string{"R02"}, kind, idx, "the original builder changed: "+s, nil)
		}
		r.Eval(hash64(kind, "b", idx), true)
	})
}

// ---- R10: pages ----

func genLocation(rng *randT) string {
	parts := []string{"/", "a", "<", ">", "\"", "'", "&", "&amp;", "&lt;", "&#34;", "\"><script>alert(1)</script>", "' onmouseover='x", "https://example.com/", "?a=b&c=d", "#f", "é", "日本", " ", "\t", "javascript:x", "%22", "\\", "`", "{{.}}", "<!--", "-->", "]]>", "\x00", "\x7f", "\xff", "\u2028", "=", ";", "&quot", "&lt"}
	var sb strings.Builder
	if rng.IntN(2) == 0 {
		sb.WriteString(pick(rng, "/", "//", "///", "////a", "\\/", "/\\", "./", "../", "../../a", "?", "#", "http:", "http:/", "http:///x", "https://u:p@h:80/", "HTTP://H/", "mailto:", "data:,", ":", "@", "%", "%2f%2F", "/a//b/../c/./d", "/%7e?q=%20", "//h/p", "*", "a:b"))
	}
	for i := rng.IntN(6); i >= 0; i-- {
		sb.WriteString(parts[rng.IntN(len(parts))])
	}
	if rng.IntN(20) == 0 {
		sb.WriteString(strings.Repeat("<b>&", 500+rng.IntN(3000)))
	}
	return sb.String()
}

func buildPage(b *response.Builder) (*response.Response, []byte, error) {
	x := b.Build()
	raw, err := bodyBytes(x.Body())
	return x, raw, err
}

func (r *Run) pageCommon(kind string, idx int, x *response.Response, raw []byte, code int) bool {
	if x.Status() != code {
		r.Bad(kind, idx, "page for status %d carries status %d", code, x.Status())
		return false
	}
	if cl := x.Headers()["Content-Length"]; len(cl) != 1 || cl[0] != strconv.Itoa(len(raw)) {
		r.Bad(kind, idx, "Content-Length %q for a page of %d bytes", cl, len(raw))
		return false
	}
	if bytes.Contains(raw, []byte("OLDMARK")) || strings.Contains(fmt.Sprint(x.Headers(), x.Err()), "OLDMARK") {
		r.Bad(kind, idx, "something set before the page survived in it: %.300q %.300v, error %v", raw, x.Headers(), x.Err())
		return false
	}
	for _, k := range []string{"X-Old", "Etag"} {
		if _, ok := x.Headers()[k]; ok {
			r.Bad(kind, idx, "header %s set before the page survived", k)
			return false
		}
	}
	return true
}

func dirtyBuilder(rng *randT) *response.Builder {
	b := response.NewBuilder()
	switch rng.IntN(4) {
	case 0:
		if rng.IntN(2) == 0 {
			b.WithStatus(200 + rng.IntN(800))
		}
		switch rng.IntN(3) {
		case 0:
			h := http.Header{"X-Old": {"1"}}
			for _, k := range []string{"Location", "Content-Type", "Content-Length", "Cache-Control", "Push", "Content-Encoding", "Etag", "Set-Cookie"} {
				if rng.IntN(2) == 0 {
					h[k] = []string{"OLDMARK", "OLDMARK2"}
				}
			}
			b.WithHeaders(h)
		case 1:
			for i := rng.IntN(4); i >= 0; i-- {
				b.WithHeader(pick(rng, "Location", "Content-Type", "Content-Length", "Cache-Control", "X-Old", "Etag"), "OLDMARK", rng.IntN(2) == 0)
			}
		}
		switch rng.IntN(4) {
		case 0:
			b.WithJSON("OLDMARK")
		case 1:
			b.WithBody(body.Empty())
		case 2:
			b.WithBody(body.FromString("OLDMARK"))
		}
		if rng.IntN(2) == 0 {
			b.WithError(errors.New("OLDMARK"))
		}
		return b
	case 1:
		// another page before this one
		if rng.IntN(2) == 0 {
			b.RedirectPage(300+rng.IntN(100), "/OLDMARK")
		} else {
			b.ErrorPage(200+rng.IntN(800), errors.New("OLDMARK"))
			b.WithHeader("X-Old", "OLDMARK", true)
		}
		if rng.IntN(4) == 0 {
			b.Build()
		}
		return b
	case 2:
		b.WithStatus(299).WithHeader("X-Old", "1", false).WithHeader("Etag", "x", false).WithBody(body.FromString("old")).WithError(errors.New("old"))
	}
	return b
}

func (r *Run) checkPages() {
	const sentinel = "zqSENTINELqz"
	tmplFor := func(code int) []string {
		b := response.NewBuilder().RedirectPage(code, sentinel)
		_, raw, _ := buildPage(b)
		return strings.Split(string(raw), sentinel)
	}
	redirect := func(kind string, idx int, rng *randT, code int, loc string) {
		parts := tmplFor(code)
		trimmed := strings.TrimSpace(loc)
		b := dirtyBuilder(rng)
		if trimmed == "" {
			if msg, _ := guard(func() { b.RedirectPage(code, loc) }); msg == "" {
				r.Bad(kind, idx, "blank redirect target %q was not refused by a panic", loc)
			}
			r.Count("refused_calls", 1)
			return
		}
		var x *response.Response
		var raw []byte
		var err error
		if msg, _ := guard(func() { x, raw, err = buildPage(b.RedirectPage(code, loc)) }); msg != "" || err != nil {
			r.Bad(kind, idx, "RedirectPage(%d, %q): %s %v", code, loc, msg, err)
			return
		}
		r.Count("redirect_pages", 1)
		r.Eval(hash64(code, loc), true)
		if !r.pageCommon(kind, idx, x, raw, code) {
			return
		}
		if l := x.Headers()["Location"]; len(l) != 1 || l[0] != trimmed {
			r.Bad(kind, idx, "Location %q for target %q", l, loc)
			return
		}
		if x.Err() != nil {
			r.Bad(kind, idx, "redirect response carries error %v", x.Err())
		}
		if len(parts) < 2 {
			r.Bad(kind, idx, "the page does not name its target")
			return
		}
		rest := string(raw)
		if !strings.HasPrefix(rest, parts[0]) {
			r.Bad(kind, idx, "page for %q does not begin like a page: %.200q", loc, rest)
			return
		}
		rest = rest[len(parts[0]):]
		for i := 1; i < len(parts); i++ {
			// the inserted text ends where the template goes on
			j := 0
			for j < len(rest) && !strings.HasPrefix(rest[j:], parts[i]) {
				j++
			}
			if i == len(parts)-1 && j < len(rest) && len(rest)-j != len(parts[i]) {
				r.Bad(kind, idx, "page for %q has markup of its own: %.300q", loc, rest)
				return
			}
			e := rest[:j]
			if strings.ContainsAny(e, "<>\"'") {
				r.Bad(kind, idx, "target %q is not HTML-escaped in the page: %.200q", loc, e)
				return
			}
			if got := html.UnescapeString(e); got != trimmed {
				r.Bad(kind, idx, "the page names %.200q instead of %.200q", got, trimmed)
				return
			}
			if j == len(rest) && parts[i] != "" {
				r.Bad(kind, idx, "page for %q ends early", loc)
				return
			}
			rest = rest[j+len(parts[i]):]
		}
		if ct, _, _ := mime.ParseMediaType(x.Headers().Get("Content-Type")); ct != "text/html" {
			r.Bad(kind, idx, "redirect page has Content-Type %q", x.Headers().Get("Content-Type"))
		}
		x.Body().Close()
	}
	r.Cases("redirect", r.N(20000, 200000), func(rng *randT, idx int) {
		step()
		redirect("redirect", idx, rng, 300+rng.IntN(100), genLocation(rng))
	})
	r.Cases("redirect-codes", 1, func(rng *randT, _ int) {
		for code := -5; code < 1100; code++ {
			if code >= 300 && code <= 399 {
				redirect("redirect-codes", code, rng, code, "/a<b")
				continue
			}
			c := code
			if msg, _ := guard(func() { response.NewBuilder().RedirectPage(c, "/x") }); msg == "" {
				r.Bad("redirect-codes", code, "redirect status %d was not refused by a panic", code)
			}
			r.Count("refused_calls", 1)
		}
		for _, l := range []string{"", " ", "\t\r\n ", "\v", "\u00a0", "\u2003"} {
			redirect("redirect-codes", 0, rng, 302, l)
		}
	})
	r.Cases("error-codes", 1, func(rng *randT, _ int) {
		for code := -5; code < 1100; code++ {
			c := code
			if code < 200 || code > 999 {
				if msg, _ := guard(func() { response.NewBuilder().ErrorPage(c, errInjRead) }); msg == "" {
					r.Bad("error-codes", code, "error status %d was not refused by a panic", code)
				}
				r.Count("refused_calls", 1)
				continue
			}
			if msg, _ := guard(func() { response.NewBuilder().ErrorPage(c, nil) }); msg == "" {
				r.Bad("error-codes", code, "nil error was not refused by a panic")
			}
			var ref []byte
			var refH http.Header
			zoo := errZoo(fmt.Sprintf("MARK%dX", code))
			for k := 0; k < 10+len(zoo); k++ {
				marker := fmt.Sprintf("MARK%dX%d", code, k)
				errs := []error{errors.New(marker), &txtErr{marker}, fmt.Errorf("%s: %w", marker, io.EOF), &txtErr{"<" + marker + ">\r\nX-Inject: 1"}, &codeErr{marker}, &txtErr{strings.Repeat(marker, 500)},
					markErr(rng, marker), markErr(rng, marker), markErr(rng, marker), markErr(rng, marker)}
				e := append(errs, zoo...)[k]
				var x *response.Response
				var raw []byte
				var err error
				if msg, _ := guard(func() { x, raw, err = buildPage(dirtyBuilder(rng).ErrorPage(code, e)) }); msg != "" || err != nil {
					r.Bad("error-codes", code, "ErrorPage: %s %v", msg, err)
					return
				}
				r.Count("error_pages", 1)
				r.Eval(hash64("err", code, k), true)
				if !r.pageCommon("error-codes", code, x, raw, code) {
					return
				}
				if got := x.Err(); reflect.TypeOf(got) != reflect.TypeOf(e) || reflect.TypeOf(e).Comparable() && got != e {
					r.Bad("error-codes", code, "the response's error is %v instead of %v", x.Err(), e)
				}
				if bytes.Contains(raw, []byte("MARK")) || strings.Contains(fmt.Sprint(x.Headers()), "MARK") {
					r.Bad("error-codes", code, "text of the error appears in the page or its headers: %q %v", raw, x.Headers())
					return
				}
				if k == 0 {
					ref, refH = raw, x.Headers().Clone()
				} else if !bytes.Equal(ref, raw) || hdrEqual(x.Headers(), refH) != "" {
					r.Bad("error-codes", code, "the error page depends on the error: %q / %q", ref, raw)
					return
				}
				x.Body().Close()
			}
		}
	})
	r.Cases("generator", r.N(3000, 30000), func(rng *randT, idx int) {
		g := &testGen{id: rng.IntN(1000)}
		b := dirtyBuilder(rng).WithPageGenerator(g)
		if rng.IntN(2) == 0 {
			c, err := b.Copy()
			if err != nil {
				r.Violate([]string{"R02"}, "generator", idx, err.Error(), nil)
				return
			}
			b = c
		}
		for round := 0; round < 2; round++ {
			code, loc := 300+rng.IntN(100), genLocation(rng)
			if strings.TrimSpace(loc) == "" {
				loc = "/"
			}
			n := len(g.calls)
			e := testErrs[1+rng.IntN(3)]
			isErr := rng.IntN(2) == 0
			if isErr {
				code = 200 + rng.IntN(800)
				switch rng.IntN(4) {
				case 3:
					e = &url.Error{Op: "Get", URL: "http://h/" + strconv.Itoa(idx), Err: famous[rng.IntN(len(famous))]}
				case 0:
					e = famous[rng.IntN(len(famous))]
				case 1:
					e = markErr(rng, "MARK")
				}
			}
			var x *response.Response
			var raw []byte
			var err error
			msg, _ := guard(func() {
				if isErr {
					x, raw, err = buildPage(b.ErrorPage(code, e))
				} else {
					x, raw, err = buildPage(b.RedirectPage(code, loc))
				}
			})
			if msg != "" || err != nil {
				r.Bad("generator", idx, "%s %v", msg, err)
				return
			}
			want := fmt.Sprintf("gen%d redirect %d %s", g.id, code, strings.TrimSpace(loc))
			call := fmt.Sprintf("redirect %d %s", code, strings.TrimSpace(loc))
			if isErr {
				want, call = fmt.Sprintf("gen%d error %d", g.id, code), fmt.Sprintf("error %d %v", code, e)
			}
			if string(raw) != want || len(g.calls) != n+1 || g.calls[n] != call {
				r.Bad("generator", idx, "the builder's own generator was not used: page %q, calls %q", raw, g.calls[n:])
				return
			}
			if x.Err() != map[bool]error{true: e, false: nil}[isErr] {
				r.Bad("generator", idx, "response error is %v", x.Err())
			}
			if !r.pageCommon("generator", idx, x, raw, code) {
				return
			}
			r.Count("generator_pages", 1)
			r.Eval(hash64("gen", want), true)
			x.Body().Close()
		}
	})
}

// markErr is an error whose text contains the marker and that says more
// about itself than its text.
func markErr(rng *randT, marker string) error {
	f := famous[rng.IntN(len(famous))]
	switch rng.IntN(7) {
	case 0:
		return fmt.Errorf("%s: %w", marker, f)
	case 1:
		return errors.Join(errors.New(marker), f)
	case 2:
		return &fs.PathError{Op: "open", Path: "/" + marker, Err: f}
	case 3:
		return &net.OpError{Op: "dial", Net: marker, Err: f}
	case 4:
		return &url.Error{Op: "Get", URL: "http://" + marker, Err: f}
	case 5:
		return statusErr{marker, pick(rng, 200, 400, 404, 500, 503)}
	default:
		return &net.DNSError{Err: marker, Name: marker, IsTimeout: rng.IntN(2) == 0, IsTemporary: rng.IntN(2) == 0, IsNotFound: rng.IntN(2) == 0}
	}
}

// statusErr has every method by which packages commonly tell more.
type statusErr struct {
	s    string
	code int
}

func (e statusErr) Error() string                                { return e.s }
func (e statusErr) Timeout() bool                                { return true }
func (e statusErr) Temporary() bool                              { return true }
func (e statusErr) StatusCode() int                              { return e.code }
func (e statusErr) Code() int                                    { return e.code }
func (e statusErr) HTTPStatus() int                              { return e.code }
func (e statusErr) Status() int                                  { return e.code }
func (e statusErr) Public() string                               { return e.s }
func (e statusErr) Message() string                              { return e.s }
func (e statusErr) UserMessage() string                          { return e.s }
func (e statusErr) Title() string                                { return e.s }
func (e statusErr) MarshalText() ([]byte, error)                 { return []byte(e.s), nil }
func (e statusErr) MarshalJSON() ([]byte, error)                 { return json.Marshal(e.s) }
func (e statusErr) Header() http.Header                          { return http.Header{"X-Err": {e.s}} }
func (e statusErr) Headers() http.Header                         { return http.Header{"X-Err": {e.s}} }
func (e statusErr) ServeHTTP(http.ResponseWriter, *http.Request) {}

type codeErr struct{ s string }

func (e *codeErr) Error() string      { return e.s }
func (e *codeErr) String() string     { return e.s }
func (e *codeErr) StatusText() string { return e.s }

func init() {
	checks["R01"] = func(r *Run) {
		r.Rule("A case is a random sequence of builder calls (valid and invalid ones) mirrored on a reference model; status, headers, error, generator and body bytes of builder and built response are compared after every call. Distinct by sequence and resulting response; non-trivial with more than two calls.")
		r.Assume("Header names are canonicalized by net/http; Content-Type values are compared after parsing.")
		r.checkBuilder("build", r.N(25000, 250000))
	}
	checks["R02"] = func(r *Run) {
		r.Rule("A case keeps several builders, responses, caller header maps and served writers alive; after each step on one of them all others are compared with their models. Distinct by step sequence; non-trivial with at least two live objects.")
		r.Assume("The map returned by Headers() of a builder is not used after Build, and a response's own Headers() are not modified by the caller (documented).")
		if raceEnabled {
			r.checkIsolation("isolate", r.N(600, 6000))
		} else {
			r.checkIsolation("isolate", r.N(15000, 150000))
		}
		r.checkConcServe("serve", r.N(300, 3000))
	}
	checks["R10"] = func(r *Run) {
		r.Rule("Redirect pages for generated hostile targets and all statuses, error pages for every status and six errors each, pages of own generators; each page is split along the template obtained with a harmless target and every inserted piece must unescape to the target. Distinct by status and target or error.")
		r.checkPages()
	}
}
