package main

import (
	"bytes"
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strconv"

	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

// R03 at the interface to net/http: what the server's writer is told, with
// header fields that net/http or a client library would interpret, and thus
// hide, on a real connection.

var tellingHdrs = []http.Header{
	{"Trailer": {"X-T"}}, {"Trailer": {"X-T", "X-U, X-V"}}, {"Connection": {"close"}}, {"Connection": {"keep-alive"}}, {"Content-Encoding": {"gzip"}}, {"Content-Encoding": {"identity"}},
	{"Cache-Control": {"no-store"}}, {"Cache-Control": {"no-transform", "max-age=0"}}, {"Content-Range": {"bytes 0-1/9"}}, {"Accept-Ranges": {"bytes"}}, {"Accept-Ranges": {"none"}}, {"Content-Type": {"text/event-stream"}},
	{"Content-Type": {"multipart/byteranges; boundary=x"}}, {"X-Accel-Buffering": {"no"}}, {"Content-Type": {"application/json"}}, {"Content-Type": {"text/html; charset=utf-8"}}, {"Vary": {"*"}}, {"Etag": {`"x"`}}, {"Retry-After": {"1"}},
	{"Server": {"x"}}, {"Date": {"Mon, 02 Jan 2006 15:04:05 GMT"}}, {"Www-Authenticate": {"Basic realm=x", "Bearer"}}, {"Set-Cookie": {"a=1", "b=2", "a=1"}}, {"Content-Disposition": {"attachment"}}, {"Keep-Alive": {"timeout=5"}},
	{"Location": {"/elsewhere"}}, {"X-Content-Type-Options": {"nosniff"}}, {"Expires": {"0"}}, {"Refresh": {"0"}}, {"Alt-Svc": {"clear"}}, {"Upgrade": {"h2c"}}, {"Link": {"</a>; rel=preload", "</b>; rel=preload"}}, {"Content-Md5": {"x"}},
}

// addTelling adds some of these to a response's headers.
func addTelling(rng *randT, h http.Header, wire bool) {
	for i := rng.IntN(4); i > 0; i-- {
		for k, v := range tellingHdrs[rng.IntN(len(tellingHdrs))] {
			switch k {
			case "Connection", "Upgrade", "Keep-Alive", "Date":
				if wire {
					continue
				}
			}
			h[k] = append([]string(nil), v...)
		}
	}
}

// addSpellings adds fields whose names are not in canonical form, sometimes in
// two spellings of one name, and fields without a value.
func addSpellings(rng *randT, h http.Header) {
	if rng.IntN(4) == 0 {
		k := pick(rng, "x-low", "X-LOW", "x-Low")
		for i := rng.IntN(3); i >= 0; i-- {
			h[k] = append(h[k], "low"+strconv.Itoa(rng.IntN(5)))
		}
		if rng.IntN(2) == 0 {
			h["X-Low"] = []string{"high" + strconv.Itoa(rng.IntN(5)), "low1"}
		}
	}
	if rng.IntN(4) == 0 {
		h[pick(rng, "X-None", "Date", "Vary", "Etag", "Link")] = pick(rng, nil, []string{})
	}
}

// fieldsDiffer compares header fields; names are compared without regard to
// case, values in order within one spelling of a name.
func fieldsDiffer(got, exp http.Header) string {
	type field struct {
		vals  []string
		forms int
	}
	fold := func(h http.Header) map[string]*field {
		m := map[string]*field{}
		for _, k := range sortedKeys(h) {
			if len(h[k]) == 0 {
				continue
			}
			c := http.CanonicalHeaderKey(k)
			if m[c] == nil {
				m[c] = &field{}
			}
			m[c].forms++
			m[c].vals = append(m[c].vals, h[k]...)
		}
		return m
	}
	g, e := fold(got), fold(exp)
	var names []string
	for k := range e {
		names = append(names, k)
	}
	for k := range g {
		if e[k] == nil {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		var gv, ev []string
		if g[k] != nil {
			gv = append(gv, g[k].vals...)
		}
		if e[k] != nil {
			ev = append(ev, e[k].vals...)
			if e[k].forms > 1 {
				sort.Strings(gv)
				sort.Strings(ev)
			}
		}
		if !reflect.DeepEqual(gv, ev) {
			return fmt.Sprintf("the header %s is %.300q, want %.300q", k, gv, ev)
		}
	}
	return ""
}

func (r *Run) serveExact(kind string, n int) {
	installHook()
	r.Cases(kind, n, func(rng *randT, idx int) {
		a := hact{Kind: "ok", Body: bodyKinds[rng.IntN(len(bodyKinds)-1)], Code: pick(rng, 200, 200, 201, 206, 301, 404, 416, 500, 999, 200+rng.IntN(800)), FailAt: -1, Hdr: genWireHdr(rng), Copy: rng.IntN(6) == 0}
		if a.Code == 204 || a.Code == 304 {
			a.Code = 200
		}
		a.Len = pick(rng, 0, 1, 10, 300, 2048, rng.IntN(3000), rng.IntN(3000))
		if rng.IntN(20) == 0 {
			a.Len = pick(rng, 8193, 32769, 65536, 131073)
		}
		addTelling(rng, a.Hdr, false)
		delete(a.Hdr, "Transfer-Encoding")
		if rng.IntN(4) == 0 {
			a.Hdr["Content-Length"] = []string{strconv.Itoa(a.Len)}
		}
		addSpellings(rng, a.Hdr)
		if rng.IntN(6) == 0 {
			a.Push = make([]error, 1+rng.IntN(3))
		}
		outer := http.Header{}
		for i := rng.IntN(6); i > 0; i-- {
			outer[pick(rng, pick(rng, outerKeys...), anyName(rng))] = []string{"outer" + strconv.Itoa(i), "o2"}
		}
		if rng.IntN(4) == 0 {
			addTelling(rng, outer, false)
		}
		p := r.prepare(rng, a)
		defer p.done()
		fw := newFakeW()
		for k, v := range outer {
			fw.hdr[k] = append([]string(nil), v...)
		}
		mask := rng.IntN(32)
		method := pick(rng, "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS")
		q := anyReq(rng, method)
		var w http.ResponseWriter = fw.anyWrap(rng, mask)
		if rng.IntN(3) == 0 {
			w = response.NewWriter(w, q)
		}
		how := pick(rng, "adaptor", "adaptor", "serve")
		var err error
		msg, _ := guard(func() {
			if how == "serve" {
				err = p.resp.Serve(w)
			} else {
				handler.Adaptor{Inner: handler.HandlerFunc(p.handle)}.ServeHTTP(w, q)
			}
		})
		hooks := takeHooks()
		step()
		desc := fmt.Sprintf("%s %s by %s, caps %05b, headers %.400v, outer %.200v", method, a, how, mask, p.hdrs, outer)
		r.Count("served", 1)
		r.Eval(hash64(method, a.String(), fmt.Sprint(p.hdrs), fmt.Sprint(outer), mask, how), true)
		bad := func(format string, x ...any) {
			r.Violate([]string{"R03"}, kind, idx, desc+": "+fmt.Sprintf(format, x...), nil)
		}
		if msg != "" || err != nil || len(hooks) > 0 {
			bad("serving failed: %s %v %v", msg, err, hooks)
			return
		}
		var finals []event
		for _, e := range fw.log {
			if e.K == "status" && e.Code >= 200 {
				finals = append(finals, e)
			}
		}
		if len(finals) != 1 || finals[0].Code != a.Code {
			bad("the final statuses sent are %v", finals)
			return
		}
		if !bytes.Equal(fw.got, p.mb.data) {
			bad("%d body bytes sent, want %d: %s", len(fw.got), len(p.mb.data), diff(fw.got, p.mb.data))
			return
		}
		exp := p.hdrs.Clone()
		delete(exp, "Push")
		r.Count("header_fields_compared", int64(len(exp)))
		for k, v := range outer {
			if _, ok := exp[k]; !ok {
				exp[k] = v
				r.Count("outer_fields_kept", 1)
			}
		}
		got := finals[0].Hdr
		if msg := fieldsDiffer(got, exp); msg != "" {
			bad("%s when the status is sent", msg)
			return
		}
		if fn := fw.hdr; !reflect.DeepEqual(fn, exp) {
			for k := range fn {
				if _, ok := exp[k]; !ok {
					bad("the header %s: %.300q was added after the status", k, fn[k])
					return
				}
			}
		}
	})
}
