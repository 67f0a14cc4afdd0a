package main

// Sources far too long to be stored: content is a function of the offset, so
// bodies can be positioned, copied, asked and read anywhere up to the largest
// offset there is, and forward-only streams can run past four gigabytes.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/big"
	"net"
	"net/http"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

const vastPeriod = 1048573 // prime: no shift by a power of two maps the content on itself

var vastPattern = func() []byte {
	p := content(vastPeriod, 0x5eed, false)
	return append(p, p...)
}()

// vastFill writes the content from offset off on.
func vastFill(p []byte, off int64) {
	for len(p) > 0 {
		i := int(off % vastPeriod)
		n := copy(p, vastPattern[i:i+vastPeriod])
		p = p[n:]
		off += int64(n)
	}
}

// vastWrong returns the index of the first byte that is not the content's, or -1.
func vastWrong(p []byte, off int64) int {
	for k := 0; k < len(p); {
		i := int((off + int64(k)) % vastPeriod)
		n := min(len(p)-k, vastPeriod)
		if !bytes.Equal(p[k:k+n], vastPattern[i:i+n]) {
			for j := range p[k : k+n] {
				if p[k+j] != vastPattern[i+j] {
					return k + j
				}
			}
		}
		k += n
	}
	return -1
}

type vastSrc struct {
	len     int64
	pos     int64
	frag    int // most bytes per Read, 0 all
	eofData bool
	failAt  int64 // a read touching this offset fails once, -1 never
	failed  int
	closes  int
	moved   int // Read or Seek calls of a random-access reader after adoption
	adopted bool
	asked   int64 // most bytes ever asked for beyond a declared length
	decl    int64
}

func (s *vastSrc) size(n int, off int64) (int, error) {
	left := s.len - off
	if left <= 0 {
		return 0, io.EOF
	}
	if int64(n) > left {
		n = int(left)
	}
	if s.failAt >= 0 && s.failed == 0 && off <= s.failAt && s.failAt < off+int64(n) {
		s.failed++
		return int(s.failAt - off), errInjRead
	}
	return n, nil
}

type vR struct{ s *vastSrc }
type vSeek struct{ s *vastSrc }
type vAt struct{ s *vastSrc }
type vStat struct{ s *vastSrc }

func (v vR) Read(p []byte) (int, error) {
	s := v.s
	s.moved++
	if s.frag > 0 && len(p) > s.frag {
		p = p[:s.frag]
	}
	if s.decl >= 0 && s.pos+int64(len(p)) > s.decl {
		s.asked = max(s.asked, s.pos+int64(len(p))-s.decl)
	}
	n, err := s.size(len(p), s.pos)
	vastFill(p[:n], s.pos)
	s.pos += int64(n)
	if err == nil && s.eofData && s.pos == s.len {
		err = io.EOF
	}
	return n, err
}
func (v vR) Close() error { v.s.closes++; return nil }
func (v vSeek) Seek(off int64, whence int) (int64, error) {
	s := v.s
	s.moved++
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.len
	}
	if off < 0 {
		return -1, errors.New("negative")
	}
	s.pos = off
	return off, nil
}
func (v vAt) ReadAt(p []byte, off int64) (int, error) {
	n, err := v.s.size(len(p), off)
	vastFill(p[:n], off)
	if err == nil && n < len(p) || err == nil && v.s.eofData && off+int64(n) == v.s.len {
		err = io.EOF
	}
	return n, err
}
func (v vStat) Stat() (fs.FileInfo, error) { return vInfo(v.s.len), nil }

type vInfo int64

func (i vInfo) Name() string       { return "vast" }
func (i vInfo) Size() int64        { return int64(i) }
func (i vInfo) Mode() fs.FileMode  { return 0o444 }
func (i vInfo) ModTime() time.Time { return time.Time{} }
func (i vInfo) IsDir() bool        { return false }
func (i vInfo) Sys() any           { return nil }

// vastReader gives one of eight kinds of reader over s.
func vastReader(s *vastSrc, kind int) (r io.Reader, name string, ra, seekable, needLen bool) {
	switch kind {
	case 0:
		return struct {
			vR
			vAt
			vStat
		}{vR{s}, vAt{s}, vStat{s}}, "ReaderAt+Stat", true, true, false
	case 1:
		return struct {
			vR
			vAt
			vSeek
		}{vR{s}, vAt{s}, vSeek{s}}, "ReaderAt+Seek", true, true, false
	case 2:
		return struct {
			vR
			vAt
			vSeek
			vStat
		}{vR{s}, vAt{s}, vSeek{s}, vStat{s}}, "ReaderAt+Seek+Stat", true, true, false
	case 3:
		return struct {
			vR
			vSeek
		}{vR{s}, vSeek{s}}, "Seek", false, true, false
	case 4:
		return struct {
			vR
			vSeek
			vStat
		}{vR{s}, vSeek{s}, vStat{s}}, "Seek+Stat", false, true, false
	case 5:
		return io.NewSectionReader(vAt{s}, 0, s.len), "*io.SectionReader", true, true, false
	case 6:
		return struct {
			vR
			vAt
		}{vR{s}, vAt{s}}, "ReaderAt", true, true, true
	default:
		return vR{s}, "forward-only", false, false, true
	}
}

func vastLen(rng *randT) int64 {
	l := pick[int64](rng, 1<<31-1, 1<<31, 1<<31+5, 1<<32-1, 1<<32, 1<<32+70000, 3<<31, 1<<33+7, 1<<40+3, 1<<53+1, 1<<62, math.MaxInt64-1<<20, math.MaxInt64)
	if rng.IntN(3) == 0 {
		l = 1<<30 + rng.Int64N(1<<pick(rng, 31, 33, 41, 60))
	}
	return l
}

type vbody struct {
	b    body.Body
	cur  int64
	open bool
}

// vastMem is a slice longer than 31 bits can count. Few of its pages are ever
// touched: only the surroundings of telling offsets are not zero.
var vastMem = sync.OnceValue(func() []byte {
	p, err := syscall.Mmap(-1, 0, 1<<31+300000, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	syscall.Madvise(p, 15) // MADV_NOHUGEPAGE
	for _, o := range []int64{0, 1<<31 - 1<<17, 1 << 30, int64(len(p)) - 1<<17} {
		vastFill(p[o:o+1<<17], o)
	}
	return p
})

// vastCases drives a family of bodies over a vast source.
func (r *Run) vastCases(kind string, n int) {
	if raceEnabled {
		return
	}
	type reading interface {
		io.Seeker
		io.ReaderAt
	}
	r.Cases(kind, n, func(rng *randT, idx int) {
		s := &vastSrc{len: vastLen(rng), failAt: -1, decl: -1, eofData: rng.IntN(2) == 0, frag: pick(rng, 0, 0, 1000, 65537)}
		rd, name, ra, seekable, needLen := vastReader(s, idx%8)
		// no copies of these, and one worker only, should the library ever
		// choose to copy the bytes
		memory := idx%72 == 8 && idx < 72*30
		L := s.len
		var b body.Body
		var err error
		if memory {
			name, seekable = "in memory", true
			b = body.FromBytes(vastMem())
			L = int64(len(vastMem()))
			s.len = L
		} else if needLen || rng.IntN(3) == 0 {
			L = pick(rng, s.len, s.len, s.len-1, min(s.len, 1<<31+1), s.len/2)
			if name != "*io.SectionReader" {
				s.decl = L
			}
			b, err = body.FromReaderAndLength(rd, L)
		} else {
			b, err = body.FromReader(rd)
		}
		desc := fmt.Sprintf("%s of %d bytes, length %d", name, s.len, L)
		if err != nil {
			r.Violate([]string{"B13"}, kind, idx, desc+": "+err.Error(), nil)
			return
		}
		s.adopted, s.moved = true, 0
		fam := []*vbody{{b: b, open: true}}
		var log []string
		bad := ""
		tags := []string(nil)
		fail := func(t []string, f string, a ...any) {
			if bad == "" {
				bad, tags = fmt.Sprintf(f, a...), t
			}
		}
		// spot is an offset near something telling
		spot := func() int64 {
			o := pick[int64](rng, 0, 1<<31, 1<<32, 3<<31, 1<<33, L, L-70000, L/2, 1<<31-65536, 1<<40, vastPeriod<<12)
			o += int64(rng.IntN(9) - 4)
			if rng.IntN(3) == 0 && L > 0 {
				o = rng.Int64N(L)
			}
			return min(max(o, 0), L)
		}
		cpos := func(o int64, what string, p []byte, t ...string) {
			k := -1
			if !memory {
				k = vastWrong(p, o)
			} else if len(p) > 0 && !bytes.Equal(p, vastMem()[o:o+int64(len(p))]) {
				k = 0
			}
			if k >= 0 {
				fail(t, "%s at %d: byte %d is not the source's", what, o, o+int64(k))
			}
		}
		moved := int64(0)
		steps := 6 + rng.IntN(24)
		msg, _ := guard(func() {
			for k := 0; k < steps && bad == ""; k++ {
				v := fam[rng.IntN(len(fam))]
				if !v.open {
					continue
				}
				switch c := rng.IntN(12); {
				case c < 4:
					p := make([]byte, pick(rng, 0, 1, 100, 4096, 65536, 65537, 200000))
					m, err := v.b.Read(p)
					log = append(log, fmt.Sprintf("Read(%d)@%d=%d,%v", len(p), v.cur, m, err))
					if m < 0 || m > len(p) || int64(m) > L-v.cur {
						fail([]string{"B01"}, "Read of %d bytes at %d of %d returned %d", len(p), v.cur, L, m)
						break
					}
					cpos(v.cur, "Read", p[:m], "B01", "B02", "B07")
					v.cur += int64(m)
					moved += int64(m)
					switch {
					case err == io.EOF && v.cur != L:
						fail([]string{"B01", "B07", "B02"}, "end-of-stream at %d of %d", v.cur, L)
					case err == nil && m == 0 && len(p) > 0:
						fail([]string{"B01", "B07", "B02"}, "an empty Read at %d of %d", v.cur, L)
					case err != nil && err != io.EOF:
						fail([]string{"B01", "B07", "B02"}, "Read at %d of %d failed: %v", v.cur, L, err)
					}
				case c < 7 && seekable:
					wh := rng.IntN(3)
					to := spot()
					if rng.IntN(8) == 0 {
						to = pick[int64](rng, -1, -1<<31, -1<<33, math.MinInt64, L+1, math.MaxInt64)
					}
					from := []int64{0, v.cur, L}[wh]
					d := new(big.Int).Sub(big.NewInt(to), big.NewInt(from))
					if !d.IsInt64() || !new(big.Int).Add(d, big.NewInt(from)).IsInt64() {
						continue
					}
					q, err := v.b.(io.Seeker).Seek(d.Int64(), wh)
					log = append(log, fmt.Sprintf("Seek(%d,%d)@%d=%d,%v", d.Int64(), wh, v.cur, q, err))
					if to < 0 {
						if q != -1 || err == nil {
							fail([]string{"B07"}, "Seek(%d, %d) from %d returned %d, %v", d.Int64(), wh, v.cur, q, err)
						}
					} else {
						if q != min(to, L) || err != nil {
							fail([]string{"B07"}, "Seek(%d, %d) from %d of %d returned %d, %v, want %d", d.Int64(), wh, v.cur, L, q, err, min(to, L))
						}
						v.cur = min(to, L)
					}
				case c < 9 && seekable:
					o := spot()
					if rng.IntN(8) == 0 {
						o = pick[int64](rng, L+1, L, math.MaxInt64, -1, -1<<32, math.MinInt64)
						if o == math.MinInt64 && L == math.MaxInt64 { // L+1
							o = -1
						}
					}
					p := make([]byte, pick(rng, 1, 100, 4096, 65537))
					m, err := v.b.(io.ReaderAt).ReadAt(p, o)
					log = append(log, fmt.Sprintf("ReadAt(%d,%d)=%d,%v", len(p), o, m, err))
					if o < 0 {
						if m != 0 || err == nil || errors.Is(err, io.EOF) {
							fail([]string{"B08"}, "ReadAt(%d) returned %d, %v", o, m, err)
						}
						break
					}
					want := min(int64(len(p)), max(L-o, 0))
					if int64(m) != want || m < len(p) && err != io.EOF || err != nil && (err != io.EOF || o < L-int64(m)) {
						fail([]string{"B08"}, "ReadAt(%d bytes, %d) of %d returned %d, %v", len(p), o, L, m, err)
						break
					}
					cpos(o, "ReadAt", p[:m], "B08", "B02")
				case c < 10 && memory && rng.IntN(2) == 0:
					w := &vastW{hdr: http.Header{}, limit: -1}
					want := L - v.cur
					if o := spot(); rng.IntN(2) == 0 && o >= v.cur && o < L {
						w.limit = o - v.cur
						want = w.limit
					}
					m, err := v.b.(io.WriterTo).WriteTo(w)
					log = append(log, fmt.Sprintf("WriteTo(limit %d)@%d=%d,%v", w.limit, v.cur, m, err))
					if m != want || w.n != want || (err != nil) != (w.limit >= 0) {
						fail([]string{"B09"}, "WriteTo at %d of %d to a writer that fails at %d returned %d, %v; it accepted %d", v.cur, L, w.limit, m, err, w.n)
					}
					v.cur += m
				case c < 10 && len(fam) < 6 && !memory:
					nb, err := v.b.Copy()
					if err != nil {
						fail([]string{"B02"}, "Copy failed: %v", err)
						break
					}
					log = append(log, fmt.Sprintf("Copy@%d", v.cur))
					if _, ok := nb.(reading); ok != seekable {
						fail([]string{"B02", "B13"}, "interfaces of the copy: Seek and ReadAt %v, want %v", ok, seekable)
						break
					}
					fam = append(fam, &vbody{b: nb, cur: v.cur, open: true})
				case c == 10 && len(fam) > 1:
					log = append(log, "Close")
					if err := v.b.Close(); err != nil {
						fail([]string{"B04"}, "Close failed: %v", err)
					}
					v.open = false
					any := false
					for _, w := range fam {
						any = any || w.open
					}
					if !any {
						steps = k
					}
				}
				for i, v := range fam {
					want := L - v.cur
					if !v.open {
						want = 0
					}
					if got := v.b.BytesRemaining(); got != want {
						fail([]string{"B03", "B02", "B07"}, "BytesRemaining of body %d at %d of %d is %d", i, v.cur, L, got)
					}
				}
			}
		})
		if msg != "" {
			fail([]string{"B01", "B02", "B03", "B07", "B08"}, "panic: %s", msg)
		}
		if ra && name != "*io.SectionReader" && s.moved > 0 {
			fail([]string{"B14"}, "%d calls moved the reader's own cursor", s.moved)
		}
		if s.asked > 0 {
			fail([]string{"B14"}, "the reader was asked for %d bytes beyond the declared length", s.asked)
		}
		if bad == "" {
			for _, v := range fam {
				if v.open {
					v.b.Close()
				}
			}
			if s.closes != 1 && !memory && name != "*io.SectionReader" {
				fail([]string{"B04"}, "the reader was closed %d times", s.closes)
			}
		}
		r.Count("vast_histories", 1)
		r.Count("vast_bytes", moved)
		r.Max("vast_source_bytes", L)
		r.Eval(hash64(kind, desc, log), len(log) > 1)
		if bad != "" {
			if len(log) > 12 {
				log = log[len(log)-12:]
			}
			r.Violate(tags, kind, idx, fmt.Sprintf("%s: %s; last calls %v", desc, bad, log), nil)
		}
	})
}

// vastStreams reads forward-only sources past four gigabytes, a copy close
// behind, and looks at the counts and at the end.
func (r *Run) vastStreams(kind string, n int) {
	if raceEnabled {
		return
	}
	r.Cases(kind, n, func(rng *randT, idx int) {
		s := &vastSrc{len: pick[int64](rng, 1<<32+12345, 1<<32+1<<20, 1<<32+65536), failAt: -1, decl: -1, eofData: rng.IntN(2) == 0}
		var b body.Body
		var err error
		if idx%2 == 0 {
			b, err = body.FromReader(vR{s})
		} else {
			s.decl = s.len - int64(rng.IntN(2))*100
			b, err = body.FromReaderAndLength(vR{s}, s.decl)
		}
		if err != nil {
			r.Bad(kind, idx, "%v", err)
			return
		}
		end := s.len
		if s.decl >= 0 {
			end = s.decl
		}
		fam := []*vbody{{b: b, open: true}}
		if cp, err := b.Copy(); err == nil {
			fam = append(fam, &vbody{b: cp, open: true})
		}
		bad := ""
		var tags []string
		fail := func(t []string, f string, a ...any) {
			if bad == "" {
				bad, tags = fmt.Sprintf(f, a...), t
			}
		}
		buf := make([]byte, 1<<20)
		ended := 0
		for bad == "" && ended < len(fam) {
			ended = 0
			for _, v := range fam {
				p := buf[:len(buf)-rng.IntN(1000)]
				step()
				m, err := v.b.Read(p)
				if m < 0 || m > len(p) {
					fail([]string{"B01"}, "Read returned %d", m)
					break
				}
				if k := vastWrong(p[:m], v.cur); k >= 0 {
					fail([]string{"B01", "B02"}, "the byte at %d is not the source's", v.cur+int64(k))
				}
				v.cur += int64(m)
				switch {
				case err == io.EOF:
					ended++
					if v.cur != end {
						fail([]string{"B01", "B02"}, "end-of-stream at %d of %d", v.cur, end)
					}
				case err != nil:
					fail([]string{"B01", "B02"}, "Read at %d failed: %v", v.cur, err)
				case m == 0 || v.cur > end:
					fail([]string{"B01", "B02"}, "Read returned nothing, or went beyond the end, at %d of %d", v.cur, end)
				}
				if got := v.b.BytesRemaining(); got != end-v.cur && !(got == -1 && s.decl < 0 && v.cur < end) {
					fail([]string{"B03"}, "BytesRemaining at %d of %d is %d", v.cur, end, got)
				}
			}
		}
		for _, v := range fam {
			if err := v.b.Close(); err != nil {
				fail([]string{"B04"}, "Close failed: %v", err)
			}
		}
		if s.asked > 0 {
			fail([]string{"B14"}, "the reader was asked for %d bytes beyond the declared length", s.asked)
		}
		r.Count("vast_stream_bytes", fam[0].cur)
		r.Eval(hash64(kind, idx, s.len, s.decl), true)
		if bad != "" {
			r.Violate(tags, kind, idx, fmt.Sprintf("forward-only stream of %d bytes, declared %d: %s", s.len, s.decl, bad), nil)
		}
	})
}

// idleSrc has len bytes that cost nothing to read (whatever the buffer held).
type idleSrc struct {
	len, pos int64
	closes   int
}

func (s *idleSrc) Read(p []byte) (int, error) {
	if s.pos >= s.len {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), s.len-s.pos))
	s.pos += int64(n)
	return n, nil
}
func (s *idleSrc) ReadAt(p []byte, off int64) (int, error) {
	if off >= s.len {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), s.len-off))
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (s *idleSrc) Stat() (fs.FileInfo, error) { return vInfo(s.len), nil }
func (s *idleSrc) Close() error               { s.closes++; return nil }

// vastW counts what it is given.
type vastW struct {
	hdr    http.Header
	status int
	n      int64
	limit  int64 // fails there; <0 never
	buf    []byte
}

func (w *vastW) Header() http.Header  { return w.hdr }
func (w *vastW) WriteHeader(code int) { w.status = code }
func (w *vastW) Write(p []byte) (int, error) {
	step()
	if w.limit >= 0 && w.n+int64(len(p)) > w.limit {
		n := int(w.limit - w.n)
		w.n = w.limit
		return n, errInjWrite
	}
	w.n += int64(len(p))
	return len(p), nil
}

type vastFancyW struct{ *vastW }

func (w vastFancyW) Flush()                   {}
func (w vastFancyW) CloseNotify() <-chan bool { return nil }
func (w vastFancyW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return nil, nil, http.ErrNotSupported
}
func (w vastFancyW) ReadFrom(r io.Reader) (int64, error) {
	return io.CopyBuffer(struct{ io.Writer }{w.vastW}, struct{ io.Reader }{r}, make([]byte, 1<<20))
}

// vastServes: responses of more bytes than 32 bits can count, through Serve
// or the adaptor, to writers that take all of it or fail far into it.
func (r *Run) vastServes(kind string, n int) {
	if raceEnabled {
		return
	}
	r.Cases(kind, n, func(rng *randT, idx int) {
		L := pick[int64](rng, 1<<31+5, 1<<32+77, 1<<32+1<<31+9)
		src := &idleSrc{len: L}
		b, err := body.FromReader(src)
		if err != nil {
			r.Bad(kind, idx, "%v", err)
			return
		}
		w := &vastW{hdr: http.Header{}, limit: -1}
		if rng.IntN(3) == 0 {
			w.limit = L - int64(rng.IntN(1000)) - 1
		}
		want := L
		if w.limit >= 0 {
			want = w.limit
		}
		q := anyReq(rng, "GET")
		var rw http.ResponseWriter = w
		fancy := idx/2%2 == 0
		if fancy {
			rw = vastFancyW{w}
		}
		code := 620 + rng.IntN(300)
		desc := fmt.Sprintf("a body of %d bytes, the writer fails at %d, bulk copies: %v", L, w.limit, fancy)
		installHook()
		takeHooks()
		before := snapMetrics()
		resp := response.NewBuilder().WithStatus(code).WithBody(b).Build()
		if got := resp.Headers().Get("Content-Length"); got != strconv.FormatInt(L, 10) {
			r.Violate([]string{"R01", "R03"}, kind, idx, fmt.Sprintf("%s: Content-Length %q", desc, got), nil)
			return
		}
		if idx%2 == 0 {
			handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response { return *resp })}.ServeHTTP(rw, q)
			hooks := takeHooks()
			fails := 0
			if w.limit >= 0 {
				fails = 1
			}
			if len(hooks) != fails {
				r.Violate([]string{"H02", "H03"}, kind, idx, fmt.Sprintf("%s: %d hook calls", desc, len(hooks)), nil)
			}
			c := strconv.Itoa(code)
			if s := metricsDelta(before, snapMetrics(), map[string]int{c: 1}, map[string]float64{c: float64(want)}, fails); s != "" {
				r.Violate([]string{"H03"}, kind, idx, desc+": "+s, nil)
			}
		} else {
			ww := response.NewWriter(rw, q)
			err := resp.Serve(ww)
			if (err != nil) != (w.limit >= 0) {
				r.Violate([]string{"R04", "R07"}, kind, idx, fmt.Sprintf("%s: Serve returned %v", desc, err), nil)
			}
			if got := ww.BytesWritten(); got != want {
				r.Violate([]string{"R07"}, kind, idx, fmt.Sprintf("%s: BytesWritten is %d, the writer accepted %d", desc, got, want), nil)
			}
			if ww.SawError() != (w.limit >= 0) {
				r.Violate([]string{"R07"}, kind, idx, fmt.Sprintf("%s: SawError is %v", desc, ww.SawError()), nil)
			}
		}
		if w.n != want {
			r.Violate([]string{"R03", "R04", "R07"}, kind, idx, fmt.Sprintf("%s: the writer got %d bytes", desc, w.n), nil)
		}
		if src.closes != 1 {
			r.Violate([]string{"R04"}, kind, idx, fmt.Sprintf("%s: the reader was closed %d times", desc, src.closes), nil)
		}
		r.Count("vast_bytes_served", w.n)
		r.Eval(hash64(kind, desc, code), true)
	})
}

// vastLengths: the Content-Length of bodies of any length.
func (r *Run) vastLengths(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		s := &vastSrc{len: vastLen(rng), failAt: -1, decl: -1}
		rd, name, ra, seekable, needLen := vastReader(s, idx%8)
		L := s.len
		var b body.Body
		var err error
		if needLen || rng.IntN(3) == 0 {
			L = pick(rng, s.len, s.len-1, min(s.len, 1<<31+1), s.len/2)
			b, err = body.FromReaderAndLength(rd, L)
		} else {
			b, err = body.FromReader(rd)
		}
		if err != nil {
			r.Violate([]string{"B13"}, kind, idx, fmt.Sprintf("%s of %d bytes: %v", name, s.len, err), nil)
			return
		}
		left := L
		if seekable && rng.IntN(2) == 0 {
			o := min(L, pick[int64](rng, 1, 1<<31, 1<<32+1, L-1))
			if q, err := b.(io.Seeker).Seek(o, io.SeekStart); err == nil && q == o {
				left = L - o
			}
		} else if rng.IntN(2) == 0 {
			m, _ := b.Read(make([]byte, 1+rng.IntN(1000)))
			left -= int64(m)
		}
		_ = ra
		resp := response.NewBuilder().WithBody(b).Build()
		r.Eval(hash64(kind, name, L, left), true)
		r.Count("vast_lengths", 1)
		if got := resp.Headers()["Content-Length"]; len(got) != 1 || got[0] != strconv.FormatInt(left, 10) {
			r.Violate([]string{"R01"}, kind, idx, fmt.Sprintf("%s, %d of %d bytes left: Content-Length %q", name, left, L, got), nil)
		}
		resp.Body().Close()
	})
}

func init() {
	for _, id := range []string{"B01", "B02", "B03", "B04", "B07", "B08", "B09", "B14"} {
		also(id, func(r *Run) {
			r.Rule("Vast: bodies over sources of up to 2^63-1 bytes whose content is a function of the offset, positioned around 2^31, 2^32, 2^40 and the end.")
			r.vastCases("vast", r.N(6000, 60000))
		})
	}
	for _, id := range []string{"B01", "B02", "B03"} {
		also(id, func(r *Run) { r.vastStreams("vast-stream", r.N(2, 8)) })
	}
	also("R01", func(r *Run) { r.vastLengths("vast-length", r.N(3000, 30000)) })
	for _, id := range []string{"R04", "R07", "H03"} {
		also(id, func(r *Run) { r.vastServes("vast-serve", r.N(8, 64)) })
	}
}
