package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"
	"testing/iotest"

	"github.com/chronos-tachyon/morehttp/body"
)

// op is one call of a history. Body is taken modulo the number of bodies that
// exist when the op runs, so histories stay meaningful when ops are removed.
type op struct {
	K      string `json:"op"` // read drain rem seek readat writeto copy close unwrap closeall
	Body   int    `json:"b,omitempty"`
	N      int    `json:"n,omitempty"`
	Off    int64  `json:"off,omitempty"`
	Whence int    `json:"whence,omitempty"`
	Dst    string `json:"dst,omitempty"` // writeto: "plain", "from", "fail", "short", "shorterr"
}

// bcase is a complete body history.
type bcase struct {
	Ctor string  `json:"ctor"` // bytes string empty closed reader std:<name>
	Spec srcSpec `json:"spec"`
	Ops  []op    `json:"ops"`
}

type deviation struct {
	opIndex int
	op      string
	tags    []string
	detail  string
}

type mbody struct {
	b      body.Body
	cur    int64
	open   bool
	eof    bool
	sticky error
	zero   int
}

type env struct {
	c        *bcase
	s        *src
	rd       io.Reader
	data     []byte
	L        int64 // length the library can know at construction; -1 unknown
	end      int64 // bytes deliverable when nothing fails
	fend     int64 // forward-only: position of the terminal failure, or -1
	fendSoft bool  // failure position coincides with a known end: EOF or error
	forward  bool
	truth    bool
	memory   bool
	std      bool
	bodies   []*mbody
	reached  bool // end or terminal failure was reported to somebody
	stats    map[string]int64
	cleanup  []func()
	given    []byte // the caller's slice, with what lies behind it
	idx      int
	moved    int64
	trace    []byte
}

func (e *env) dev(o string, tags []string, format string, a ...any) *deviation {
	return &deviation{opIndex: e.idx, op: o, tags: tags, detail: fmt.Sprintf(format, a...)}
}

// stdReaders are real readers of the standard library.
// known: the library can learn the length; ra: random access or seekable.
var stdReaders = map[string]struct {
	known, ra bool
	mk        func(e *env, data []byte) io.Reader
}{
	"strings": {true, true, func(e *env, d []byte) io.Reader { return strings.NewReader(string(d)) }},
	"bytes":   {true, true, func(e *env, d []byte) io.Reader { return bytes.NewReader(d) }},
	"buffer":  {false, false, func(e *env, d []byte) io.Reader { return bytes.NewBuffer(append([]byte(nil), d...)) }},
	"section": {true, true, func(e *env, d []byte) io.Reader {
		return io.NewSectionReader(bytes.NewReader(append([]byte("xyz"), d...)), 3, int64(len(d)))
	}},
	"bufio":   {false, false, func(e *env, d []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(d), 16) }},
	"onebyte": {false, false, func(e *env, d []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(d)) }},
	"half":    {false, false, func(e *env, d []byte) io.Reader { return iotest.HalfReader(bytes.NewReader(d)) }},
	"dataerr": {false, false, func(e *env, d []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(d)) }},
	"limit": {false, false, func(e *env, d []byte) io.Reader {
		return io.LimitReader(bytes.NewReader(append(append([]byte(nil), d...), "tail"...)), int64(len(d)))
	}},
	"limit-long": {false, false, func(e *env, d []byte) io.Reader {
		return io.LimitReader(bytes.NewReader(d), int64(len(d))+1000)
	}},
	"multi": {false, false, func(e *env, d []byte) io.Reader {
		return io.MultiReader(bytes.NewReader(d[:len(d)/2]), strings.NewReader(""), bytes.NewReader(d[len(d)/2:]))
	}},
	"gzip": {false, false, func(e *env, d []byte) io.Reader {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write(d)
		w.Close()
		r, err := gzip.NewReader(&b)
		if err != nil {
			panic(err)
		}
		return r
	}},
	"pipe": {false, false, func(e *env, d []byte) io.Reader {
		r, w := io.Pipe()
		go func() {
			for i := 0; i < len(d); i += 1000 {
				j := i + 1000
				if j > len(d) {
					j = len(d)
				}
				if _, err := w.Write(d[i:j]); err != nil {
					return
				}
			}
			w.Close()
		}()
		e.cleanup = append(e.cleanup, func() { r.Close() })
		return r
	}},
	"file": {true, true, func(e *env, d []byte) io.Reader {
		name := filepath.Join(os.TempDir(), fmt.Sprintf("src-%d-%d", os.Getpid(), e.c.Spec.Seed%100000))
		if err := os.WriteFile(name, d, 0o600); err != nil {
			panic(err)
		}
		f, err := os.Open(name)
		if err != nil {
			panic(err)
		}
		e.cleanup = append(e.cleanup, func() { f.Close(); os.Remove(name) })
		return f
	}},
	"mapfs": {true, true, func(e *env, d []byte) io.Reader {
		f, err := (fstest.MapFS{"a": {Data: d}}).Open("a")
		if err != nil {
			panic(err)
		}
		return f
	}},
	"zip": {true, false, func(e *env, d []byte) io.Reader {
		var b bytes.Buffer
		zw := zip.NewWriter(&b)
		w, _ := zw.Create("a")
		w.Write(d)
		zw.Close()
		zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		if err != nil {
			panic(err)
		}
		f, err := zr.Open("a")
		if err != nil {
			panic(err)
		}
		return f
	}},
	// a body is a reader like any other where a length is given
	"body-bytes": {true, true, func(e *env, d []byte) io.Reader { return body.FromBytes(d) }},
	"body-at": {true, true, func(e *env, d []byte) io.Reader {
		return mustBody(body.FromReader(bytes.NewReader(d)))
	}},
	"body-seek": {true, true, func(e *env, d []byte) io.Reader {
		return mustBody(body.FromReader(struct{ io.ReadSeeker }{bytes.NewReader(d)}))
	}},
	"body-forward": {false, false, func(e *env, d []byte) io.Reader {
		return mustBody(body.FromReader(iotest.HalfReader(bytes.NewReader(d))))
	}},
	"body-copy": {false, false, func(e *env, d []byte) io.Reader {
		b := mustBody(body.FromReader(iotest.HalfReader(bytes.NewReader(d))))
		e.cleanup = append(e.cleanup, func() { b.Close() })
		c, err := b.Copy()
		return mustBody(c, err)
	}},
}

func mustBody(b body.Body, err error) body.Body {
	if err != nil {
		panic(err)
	}
	return b
}

var stdNames = func() []string {
	var n []string
	for k := range stdReaders {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}()

func (e *env) build() *deviation {
	c := e.c
	sp := c.Spec
	e.fend = -1
	e.truth = true
	var b body.Body
	var err error
	tags := []string{"B13", "B01"}
	msg, _ := guard(func() {
		switch {
		case c.Ctor == "bytes":
			e.data = content(sp.Len, sp.Seed, sp.Word)
			e.given = append(append(make([]byte, 0, len(e.data)+64), e.data...), spare[:64]...)
			b = body.FromBytes(e.given[:len(e.data)])
			e.memory = true
		case c.Ctor == "string":
			e.data = content(sp.Len, sp.Seed, sp.Word)
			b = body.FromString(string(e.data))
			e.memory = true
		case c.Ctor == "empty":
			b = body.Empty()
			e.memory = true
		case c.Ctor == "closed":
			b = body.AlreadyClosed()
			e.memory = true
		case c.Ctor == "reader":
			e.s = newSrc(sp)
			e.data = e.s.data
			e.rd = e.s.reader()
		case strings.HasPrefix(c.Ctor, "std:"):
			e.data = content(sp.Len, sp.Seed, sp.Word)
			e.rd = stdReaders[c.Ctor[4:]].mk(e, e.data)
			e.std = true
		}
		if e.rd != nil {
			if sp.UseLen {
				b, err = body.FromReaderAndLength(e.rd, sp.Declared)
			} else {
				b, err = body.FromReader(e.rd)
			}
		}
	})
	if msg != "" {
		return e.dev("construct", tags, "constructor: %s", msg)
	}
	if err != nil {
		return e.dev("construct", tags, "constructor failed: %v", err)
	}
	if b == nil {
		return e.dev("construct", tags, "constructor returned no body")
	}
	n := int64(len(e.data))
	e.L = n
	if e.rd != nil {
		stat := sp.Stat && sp.Close
		seek, at := sp.Seek, sp.At
		if e.std {
			k := stdReaders[c.Ctor[4:]]
			stat, seek, at = k.known, k.ra, k.ra
		}
		switch {
		case sp.UseLen && sp.Declared >= 0:
			e.L = sp.Declared
		case stat || seek:
		default:
			e.L = -1
		}
		e.forward = !(e.L >= 0 && (at || seek))
	}
	e.end = n
	if e.L >= 0 && e.L < n {
		e.end = e.L
	}
	e.truth = e.L <= n
	if e.s != nil {
		e.s.inCtor = false
		if e.forward && sp.FailAt >= 0 && sp.FailN != 0 {
			f := int64(sp.FailAt)
			switch {
			case f < e.end:
				e.fend = f
			case f == e.end:
				if e.L == e.end {
					e.fendSoft = true
				} else {
					e.fend = f
				}
			}
		}
	}
	e.bodies = []*mbody{{b: b, open: c.Ctor != "closed"}}
	return nil
}

func (e *env) isInj(err error) bool {
	return e.s != nil && (errors.Is(err, e.s.readErr()) || errors.Is(err, e.s.seekErr()))
}

// isEnd says whether an error means end-of-stream; a failure that merely wraps
// io.EOF is a failure.
func (e *env) isEnd(err error) bool {
	return err == io.EOF || errors.Is(err, io.EOF) && !e.isInj(err)
}

func (e *env) raised() int64 {
	if e.s == nil {
		return 0
	}
	return e.s.raised
}

func (e *env) calls() int {
	if e.s == nil {
		return 0
	}
	return e.s.calls
}

// stop is where this family's stream ends: position and whether by failure.
func (e *env) stop() (int64, bool) {
	if e.fend >= 0 {
		return e.fend, true
	}
	return e.end, false
}

func (e *env) readTags() []string {
	if e.faulty() {
		return []string{"B06"}
	}
	return []string{"B01"}
}

func (e *env) faulty() bool {
	return e.s != nil && (e.c.Spec.FailAt >= 0 && e.c.Spec.FailN != 0 || e.c.Spec.FailSeek > 0)
}

func (e *env) read(m *mbody, n int) *deviation {
	p := make([]byte, n)
	for i := range p {
		p[i] = 0xEE
	}
	// the buffer is the caller's to reuse
	defer wipe(p)
	r0, c0 := e.raised(), e.calls()
	var cnt int
	var err error
	if msg, v := guard(func() { cnt, err = m.b.Read(p) }); msg != "" {
		_ = v
		if !m.open {
			return e.dev("read", []string{"B05"}, "Read on closed body: %s", msg)
		}
		return e.dev("read", e.readTags(), "Read(%d) at %d: %s", n, m.cur, msg)
	}
	e.stats["reads"]++
	if !m.open {
		if cnt != 0 || !errors.Is(err, fs.ErrClosed) {
			return e.dev("read", []string{"B05"}, "Read on closed body returned (%d, %v)", cnt, err)
		}
		if e.calls() != c0 {
			return e.dev("read", []string{"B05", "B04"}, "Read on closed body reached the reader")
		}
		return nil
	}
	if cnt < 0 || cnt > n {
		return e.dev("read", e.readTags(), "Read(%d) returned count %d", n, cnt)
	}
	stop, byFail := e.stop()
	if m.cur+int64(cnt) > stop {
		return e.dev("read", e.readTags(), "Read(%d) at %d returned %d bytes, beyond the end %d", n, m.cur, cnt, stop)
	}
	if !bytes.Equal(p[:cnt], e.data[m.cur:m.cur+int64(cnt)]) {
		return e.dev("read", e.readTags(), "Read(%d) at %d returned wrong bytes: %s", n, m.cur, diff(p[:cnt], e.data[m.cur:m.cur+int64(cnt)]))
	}
	m.cur += int64(cnt)
	e.moved += int64(cnt)
	e.stats["bytes"] += int64(cnt)
	rose := e.raised() > r0
	switch {
	case err == nil:
		if rose && !e.forward && cnt < n {
			return e.dev("read", []string{"B06"}, "Read(%d) returned (%d, nil) although the reader failed during the call", n, cnt)
		}
		if n > 0 && cnt == 0 {
			if m.zero++; m.zero > 200 {
				return e.dev("read", e.readTags(), "200 consecutive empty reads without error at position %d of %d", m.cur, stop)
			}
		}
	case e.isEnd(err):
		if byFail {
			return e.dev("read", []string{"B06"}, "Read(%d) reported end-of-stream at %d where the reader failed (error %v expected)", n, m.cur, e.s.readErr())
		}
		if m.cur != e.end {
			return e.dev("read", e.readTags(), "Read(%d) reported end-of-stream at position %d of %d", n, m.cur, e.end)
		}
		m.eof = true
		e.reached = true
		e.stats["eofs"]++
	case errors.Is(err, io.ErrUnexpectedEOF) && !e.truth && m.cur == e.end:
		m.eof = true
		e.reached = true
	case e.isInj(err):
		e.stats["errors"]++
		ok := false
		switch {
		case byFail:
			ok = m.cur == stop
			e.reached = true
		case e.fendSoft && m.cur == e.end:
			ok = true
			e.reached = true
		case !e.forward:
			ok = rose || (m.sticky != nil && errors.Is(err, m.sticky) && cnt == 0)
		}
		if !ok {
			return e.dev("read", e.readTags(), "Read(%d) at %d returned %v although the reader did not fail there", n, m.cur, err)
		}
		m.sticky = e.unwrapInj(err)
	default:
		return e.dev("read", e.readTags(), "Read(%d) at %d returned unexpected error %v", n, m.cur, err)
	}
	if cnt > 0 || err != nil {
		m.zero = 0
	}
	return nil
}

func (e *env) unwrapInj(err error) error {
	if errors.Is(err, e.s.seekErr()) && !errors.Is(err, e.s.readErr()) {
		return e.s.seekErr()
	}
	return e.s.readErr()
}

func diff(got, want []byte) string {
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			lo := i
			hi := i + 8
			g, w := got[lo:min(hi, len(got))], want[lo:min(hi, len(want))]
			return fmt.Sprintf("first difference at +%d: got % x want % x", i, g, w)
		}
	}
	return fmt.Sprintf("lengths %d, %d", len(got), len(want))
}

func (e *env) drain(m *mbody, n int) *deviation {
	if !m.open {
		return e.read(m, n)
	}
	if n < 1 {
		n = 1
	}
	stop, _ := e.stop()
	for i := int64(0); ; i++ {
		before := m.sticky
		m.eof = false
		if d := e.read(m, n); d != nil {
			return d
		}
		if m.eof {
			return nil
		}
		if m.sticky != nil && (m.sticky != before || e.fend >= 0 || e.fendSoft || i > 0) {
			// an error was reported (or keeps being reported)
			return nil
		}
		if i > (4*stop+1000)*int64(e.emptyStreak()+1) {
			return e.dev("drain", e.readTags(), "end-of-stream not reported after %d reads", i)
		}
	}
}

// emptyStreak is how many reads in a row the source answers with nothing.
func (e *env) emptyStreak() int {
	if e.s == nil {
		return 0
	}
	return max(0, -e.s.spec.Empty)
}

func (e *env) rem(m *mbody) *deviation {
	var v int64
	c0 := e.calls()
	if msg, _ := guard(func() { v = m.b.BytesRemaining() }); msg != "" {
		return e.dev("rem", []string{"B03"}, "BytesRemaining: %s", msg)
	}
	e.stats["remaining"]++
	if !m.open {
		if v != 0 {
			return e.dev("rem", []string{"B05", "B03"}, "BytesRemaining of closed body is %d", v)
		}
		if e.calls() != c0 {
			return e.dev("rem", []string{"B05", "B04"}, "BytesRemaining on closed body reached the reader")
		}
		return nil
	}
	if v < -1 {
		return e.dev("rem", []string{"B03"}, "BytesRemaining is %d", v)
	}
	stop, byFail := e.stop()
	if v == -1 {
		if e.forward && e.L < 0 && !e.reached {
			return nil
		}
		return e.dev("rem", []string{"B03"}, "BytesRemaining is unknown (-1) at %d of %d although the length is known", m.cur, e.end)
	}
	if m.eof && v != 0 {
		return e.dev("rem", []string{"B03"}, "BytesRemaining is %d after end-of-stream", v)
	}
	ok := v == stop-m.cur
	if !ok && byFail && e.L >= 0 {
		ok = v == e.end-m.cur || v == e.L-m.cur
	}
	if !ok && !e.truth {
		ok = v == e.L-m.cur
	}
	if !ok && m.sticky != nil && v == 0 {
		ok = true
	}
	if !ok {
		return e.dev("rem", []string{"B03"}, "BytesRemaining is %d at position %d, but %d bytes remain", v, m.cur, stop-m.cur)
	}
	return nil
}

// satAdd adds an offset to a base that is not negative; a target that no
// int64 can hold lies beyond every end.
func satAdd(base, off int64) int64 {
	if off > math.MaxInt64-base {
		return math.MaxInt64
	}
	return base + off
}

func (e *env) seekRefused(m *mbody, off int64, whence int) bool {
	switch whence {
	case io.SeekStart:
		return off < 0
	case io.SeekCurrent:
		return satAdd(m.cur, off) < 0
	case io.SeekEnd:
		return satAdd(e.end, off) < 0
	}
	return true
}

func (e *env) seek(m *mbody, off int64, whence int) *deviation {
	sk, ok := m.b.(io.Seeker)
	if !ok {
		return nil
	}
	var pos int64
	var err error
	// a refused Seek leaves what an empty Read reports at the end as it was
	probe := func() (n int, err error) {
		if msg, _ := guard(func() { n, err = m.b.Read(nil) }); msg != "" {
			err = errors.New(msg)
		}
		return
	}
	atEnd := m.open && m.eof && e.seekRefused(m, off, whence)
	var z0, z1 error
	if atEnd {
		_, z0 = probe()
	}
	r0, c0 := e.raised(), e.calls()
	if msg, _ := guard(func() { pos, err = sk.Seek(off, whence) }); msg != "" {
		return e.dev("seek", []string{"B07"}, "Seek(%d, %d) at %d: %s", off, whence, m.cur, msg)
	}
	e.stats["seeks"]++
	if !m.open {
		if pos != -1 || !errors.Is(err, fs.ErrClosed) {
			return e.dev("seek", []string{"B05"}, "Seek on closed body returned (%d, %v)", pos, err)
		}
		if e.calls() != c0 {
			return e.dev("seek", []string{"B05", "B04"}, "Seek on closed body reached the reader")
		}
		return nil
	}
	if e.raised() > r0 && err != nil && e.isInj(err) {
		return nil // the implementation chose to reposition the reader and that failed
	}
	if atEnd {
		if _, z1 = probe(); z1 != z0 {
			return e.dev("seek", []string{"B07"}, "Seek(%d, %d) was refused with %v at end-of-stream: an empty Read reported %v before and %v after it", off, whence, err, z0, z1)
		}
		e.stats["refused_seeks_at_end"]++
	}
	base := int64(0)
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = m.cur
	case io.SeekEnd:
		base = e.end
	default:
		var x body.UnknownWhenceSeekError
		if pos != -1 || !errors.As(err, &x) || x.Whence != whence {
			return e.dev("seek", []string{"B07"}, "Seek(%d, whence %d) returned (%d, %v)", off, whence, pos, err)
		}
		return nil
	}
	t := satAdd(base, off)
	if t < 0 {
		good := pos == -1 && err != nil
		if good && whence == io.SeekStart {
			var x body.NegativeStartOffsetSeekError
			good = errors.As(err, &x) && x.Offset == off
		} else if good {
			var x body.NegativeComputedOffsetSeekError
			good = errors.As(err, &x) && x.Offset == t
		}
		if !good {
			return e.dev("seek", []string{"B07"}, "Seek(%d, %d) at %d to negative target %d returned (%d, %v)", off, whence, m.cur, t, pos, err)
		}
		return nil
	}
	if t > e.end {
		t = e.end
	}
	if err != nil || pos != t {
		return e.dev("seek", []string{"B07"}, "Seek(%d, %d) at %d of %d returned (%d, %v), want (%d, nil)", off, whence, m.cur, e.end, pos, err, t)
	}
	m.cur = t
	m.eof = false
	m.sticky = nil
	m.zero = 0
	return nil
}

func (e *env) readAt(m *mbody, n int, off int64) *deviation {
	ra, ok := m.b.(io.ReaderAt)
	if !ok {
		return nil
	}
	p := make([]byte, n)
	for i := range p {
		p[i] = 0xEE
	}
	defer wipe(p)
	var cnt int
	var err error
	r0, c0 := e.raised(), e.calls()
	tags := []string{"B08"}
	if msg, _ := guard(func() { cnt, err = ra.ReadAt(p, off) }); msg != "" {
		return e.dev("readat", tags, "ReadAt(%d, %d): %s", n, off, msg)
	}
	e.stats["readats"]++
	if !m.open {
		if cnt != 0 || !errors.Is(err, fs.ErrClosed) {
			return e.dev("readat", []string{"B05"}, "ReadAt on closed body returned (%d, %v)", cnt, err)
		}
		if e.calls() != c0 {
			return e.dev("readat", []string{"B05", "B04"}, "ReadAt on closed body reached the reader")
		}
		return nil
	}
	if off < 0 {
		if cnt != 0 || err == nil || errors.Is(err, io.EOF) {
			return e.dev("readat", tags, "ReadAt(%d, %d) returned (%d, %v)", n, off, cnt, err)
		}
		return nil
	}
	rose := e.raised() > r0
	if e.faulty() {
		tags = []string{"B08", "B06"}
	}
	if cnt < 0 || cnt > n {
		return e.dev("readat", tags, "ReadAt(%d, %d) returned count %d", n, off, cnt)
	}
	if cnt > 0 {
		if off+int64(cnt) > e.end {
			return e.dev("readat", tags, "ReadAt(%d, %d) returned %d bytes, beyond the end %d", n, off, cnt, e.end)
		}
		if !bytes.Equal(p[:cnt], e.data[off:off+int64(cnt)]) {
			return e.dev("readat", tags, "ReadAt(%d, %d) returned wrong bytes: %s", n, off, diff(p[:cnt], e.data[off:off+int64(cnt)]))
		}
	}
	e.moved += int64(cnt)
	e.stats["bytes"] += int64(cnt)
	switch {
	case err == nil:
		if cnt < n {
			return e.dev("readat", tags, "ReadAt(%d, %d) returned (%d, nil): fewer bytes without an error", n, off, cnt)
		}
	case e.isEnd(err) || (errors.Is(err, io.ErrUnexpectedEOF) && !e.truth):
		if off+int64(cnt) < e.end {
			return e.dev("readat", tags, "ReadAt(%d, %d) returned (%d, EOF) but the data ends at %d", n, off, cnt, e.end)
		}
	case e.isInj(err):
		if !rose {
			return e.dev("readat", tags, "ReadAt(%d, %d) returned %v although the reader did not fail", n, off, err)
		}
		e.stats["errors"]++
	default:
		return e.dev("readat", tags, "ReadAt(%d, %d) returned unexpected error %v", n, off, err)
	}
	if err != nil && cnt < n && e.isEnd(err) && rose {
		return e.dev("readat", []string{"B06"}, "ReadAt(%d, %d) turned a reader failure into end-of-stream", n, off)
	}
	return nil
}

// dst is the destination of a transfer.
type dst struct {
	got   []byte
	limit int // -1: unlimited
	mode  string
	err   error // what it fails with
	calls int
	late  bool // it took everything and failed all the same
}

func (d *dst) Write(p []byte) (int, error) {
	d.calls++
	if d.mode == "late" && d.limit >= 0 && len(p) > 0 && len(d.got)+len(p) >= d.limit {
		d.got = append(d.got, p...)
		d.late = true
		return len(p), d.err
	}
	if d.limit < 0 || len(d.got)+len(p) <= d.limit {
		d.got = append(d.got, p...)
		return len(p), nil
	}
	n := d.limit - len(d.got)
	d.got = append(d.got, p[:n]...)
	if d.mode == "short" {
		return n, nil
	}
	return n, d.err
}

type dstFrom struct{ *dst }

func (d dstFrom) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 777)
	for {
		k, err := r.Read(buf)
		d.got = append(d.got, buf[:k]...)
		n += int64(k)
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
		if n > 1<<28 {
			return n, errors.New("unbounded")
		}
	}
}

func (e *env) writeTo(m *mbody, kind string, limit int) *deviation {
	wt, hasWT := m.b.(io.WriterTo)
	d := &dst{limit: -1, mode: kind, err: errOf(errInjWrite, (limit+e.c.Spec.Len*7)%nErrKinds)}
	var w io.Writer = d
	if kind == "from" {
		w = dstFrom{d}
	}
	if kind == "fail" || kind == "short" {
		if hasWT {
			d.limit = limit
		}
	}
	if kind == "late" && (hasWT || !e.faulty()) {
		d.limit = limit
	}
	var n int64
	var err error
	r0, c0 := e.raised(), e.calls()
	tags := []string{"B09"}
	direct := hasWT && kind != "from" && limit%2 == 0
	if msg, _ := guard(func() {
		if direct {
			n, err = wt.WriteTo(w)
		} else {
			n, err = io.Copy(w, m.b)
		}
	}); msg != "" {
		return e.dev("writeto", tags, "transfer at %d: %s", m.cur, msg)
	}
	e.stats["transfers"]++
	if !m.open {
		if n != 0 || !errors.Is(err, fs.ErrClosed) || len(d.got) != 0 {
			return e.dev("writeto", []string{"B05"}, "transfer of closed body returned (%d, %v), %d bytes written", n, err, len(d.got))
		}
		if e.calls() != c0 {
			return e.dev("writeto", []string{"B05", "B04"}, "transfer of closed body reached the reader")
		}
		return nil
	}
	stop, byFail := e.stop()
	if e.faulty() {
		tags = []string{"B09", "B06"}
	}
	if n != int64(len(d.got)) {
		return e.dev("writeto", tags, "transfer at %d returned count %d but the destination accepted %d bytes", m.cur, n, len(d.got))
	}
	if m.cur+n > stop || !bytes.Equal(d.got, e.data[m.cur:min(m.cur+n, int64(len(e.data)))]) {
		return e.dev("writeto", tags, "transfer at %d of %d wrote %d wrong bytes: %s", m.cur, stop, n, diff(d.got, e.data[m.cur:min(m.cur+n, int64(len(e.data)))]))
	}
	remain := stop - m.cur
	m.cur += n
	e.moved += n
	e.stats["bytes"] += n
	rose := e.raised() > r0
	failed := d.limit >= 0 && remain > int64(d.limit)
	if kind == "late" {
		failed = d.late
	}
	switch {
	case failed:
		if err == nil {
			return e.dev("writeto", tags, "destination accepted %d of %d bytes, yet the transfer returned no error", n, remain)
		}
		if kind != "short" && !errors.Is(err, d.err) {
			return e.dev("writeto", tags, "destination failed with %v, transfer returned %v", d.err, err)
		}
		e.stats["partial_transfers"]++
	case err == nil:
		if byFail {
			return e.dev("writeto", []string{"B06"}, "transfer ended without error at %d where the reader failed", m.cur)
		}
		if m.cur != e.end {
			return e.dev("writeto", tags, "transfer returned (%d, nil) but stopped at %d of %d", n, m.cur, e.end)
		}
		m.eof = true
		e.reached = true
	case e.isInj(err):
		e.stats["errors"]++
		ok := byFail && m.cur == stop || e.fendSoft && m.cur == e.end ||
			!e.forward && (rose || m.sticky != nil && n == 0)
		if !ok {
			return e.dev("writeto", tags, "transfer returned %v although the reader did not fail there", err)
		}
		if e.forward {
			e.reached = true
		}
		m.sticky = e.unwrapInj(err)
	case errors.Is(err, io.ErrUnexpectedEOF) && !e.truth:
		m.eof = true
		e.reached = true
	default:
		return e.dev("writeto", tags, "transfer of %d bytes at %d returned (%d, %v)", remain, m.cur-n, n, err)
	}
	return nil
}

func ifaces(b body.Body) string {
	s := ""
	if _, ok := b.(io.ReaderAt); ok {
		s += "A"
	}
	if _, ok := b.(io.Seeker); ok {
		s += "S"
	}
	if _, ok := b.(io.WriterTo); ok {
		s += "W"
	}
	return s
}

func (e *env) copy(m *mbody) *deviation {
	if len(e.bodies) >= 48 {
		return nil
	}
	var nb body.Body
	var err error
	c0 := e.calls()
	if msg, _ := guard(func() { nb, err = m.b.Copy() }); msg != "" {
		return e.dev("copy", []string{"B02"}, "Copy: %s", msg)
	}
	e.stats["copies"]++
	if err != nil || nb == nil {
		t := []string{"B02"}
		if !m.open {
			t = []string{"B05"}
		}
		return e.dev("copy", t, "Copy returned (%v, %v)", nb, err)
	}
	if m.open && ifaces(nb) != ifaces(m.b) {
		return e.dev("copy", []string{"B02"}, "copy offers interfaces %q, original %q", ifaces(nb), ifaces(m.b))
	}
	if !m.open && e.calls() != c0 {
		return e.dev("copy", []string{"B05", "B04"}, "Copy of closed body reached the reader")
	}
	e.bodies = append(e.bodies, &mbody{b: nb, cur: m.cur, open: m.open, eof: m.eof, sticky: m.sticky})
	return nil
}

func (e *env) close(m *mbody) *deviation {
	var err error
	before, c0 := int64(0), e.calls()
	if e.s != nil {
		before = e.s.closes
	}
	if msg, _ := guard(func() { err = m.b.Close() }); msg != "" {
		return e.dev("close", []string{"B04"}, "Close: %s", msg)
	}
	e.stats["closes"]++
	if !m.open {
		if !errors.Is(err, fs.ErrClosed) {
			return e.dev("close", []string{"B05"}, "second Close returned %v", err)
		}
		if e.calls() != c0 || e.s != nil && e.s.closes != before {
			return e.dev("close", []string{"B05", "B04"}, "second Close reached the reader")
		}
		return nil
	}
	m.open = false
	others := 0
	for _, o := range e.bodies {
		if o.open {
			others++
		}
	}
	want := int64(0)
	var wantErr error
	if e.s != nil && e.c.Spec.Close && others == 0 {
		want = 1
		if e.c.Spec.CloseErr {
			wantErr = e.s.closeErr()
		}
	}
	if e.s != nil && e.s.closes != want {
		return e.dev("close", []string{"B04"}, "after closing a body with %d others open the reader has been closed %d times, want %d", others, e.s.closes, want)
	}
	if wantErr == nil && err != nil || wantErr != nil && !errors.Is(err, wantErr) {
		return e.dev("close", []string{"B04"}, "Close with %d other bodies open returned %v, want %v", others, err, wantErr)
	}
	return nil
}

func (e *env) unwrap(m *mbody) *deviation {
	var r io.Reader
	if msg, _ := guard(func() { r = m.b.Unwrap() }); msg != "" {
		return e.dev("unwrap", []string{"B05"}, "Unwrap: %s", msg)
	}
	e.stats["unwraps"]++
	if !m.open || e.memory {
		if r != nil {
			return e.dev("unwrap", []string{"B05"}, "Unwrap returned a reader (open=%v, in-memory=%v)", m.open, e.memory)
		}
		return nil
	}
	if r != e.rd {
		return e.dev("unwrap", []string{"B05"}, "Unwrap did not return the adopted reader")
	}
	return nil
}

func (e *env) do(o op) *deviation {
	step()
	if o.K == "closeall" {
		order := o.N
		for i := range e.bodies {
			m := e.bodies[(i+order)%len(e.bodies)]
			if m.open {
				if d := e.close(m); d != nil {
					return d
				}
			}
		}
		return e.srcCheck()
	}
	i := o.Body % len(e.bodies)
	if i < 0 {
		i = -i
	}
	m := e.bodies[i]
	var d *deviation
	switch o.K {
	case "read":
		d = e.read(m, o.N)
	case "drain":
		d = e.drain(m, o.N)
	case "rem":
		d = e.rem(m)
	case "seek":
		if e.truth || o.Whence == io.SeekStart && o.Off <= e.end || o.Whence == io.SeekCurrent && satAdd(m.cur, o.Off) <= e.end {
			d = e.seek(m, o.Off, o.Whence)
		}
	case "readat":
		if e.truth || o.Off <= e.end {
			d = e.readAt(m, o.N, o.Off)
		}
	case "writeto":
		d = e.writeTo(m, o.Dst, o.N)
	case "copy":
		d = e.copy(m)
	case "close":
		d = e.close(m)
	case "unwrap":
		d = e.unwrap(m)
	}
	e.trace = append(e.trace, o.K[0], byte(m.cur), byte(m.cur>>8), byte(m.cur>>16))
	if d != nil {
		return d
	}
	return e.srcCheck()
}

var spare = bytes.Repeat([]byte{0x3C}, 64)

func wipe(p []byte) {
	for i := range p {
		p[i] = 0x77
	}
}

func (e *env) srcCheck() *deviation {
	if e.s == nil {
		return nil
	}
	if len(e.s.afterClose) > 0 {
		return e.dev("source", []string{"B04"}, "the reader was used after it had been closed: %v", e.s.afterClose)
	}
	if len(e.s.contract) > 0 {
		return e.dev("source", []string{"B14"}, "%s", e.s.contract[0])
	}
	open := 0
	for _, m := range e.bodies {
		if m.open {
			open++
		}
	}
	if open > 0 && e.s.closes > 0 {
		return e.dev("source", []string{"B04"}, "the reader was closed while %d bodies are open", open)
	}
	return nil
}

// runCase executes a history; the deviation is nil when every monitor agreed.
func runCase(c *bcase, stats map[string]int64) (e *env, d *deviation) {
	e = &env{c: c, stats: stats, idx: -1}
	defer func() {
		for _, f := range e.cleanup {
			f()
		}
	}()
	if d = e.build(); d != nil {
		return
	}
	for i, o := range c.Ops {
		e.idx = i
		if d = e.do(o); d != nil {
			return
		}
	}
	if e.given != nil && (!bytes.Equal(e.given[:len(e.data)], e.data) || !bytes.Equal(e.given[len(e.data):], spare)) {
		d = e.dev("alter", []string{"B01", "B02"}, "the caller's slice was altered: %s", diff(e.given, append(append([]byte(nil), e.data...), spare...)))
	}
	return
}

// shrink removes everything from a failing history that is not needed for it
// to fail, so that the remaining operations say which guarantee is involved.
func shrink(c *bcase, d *deviation) (*bcase, *deviation) {
	st := map[string]int64{}
	best, bestD := c, d
	budget := 3000
	try := func(cand *bcase) bool {
		if budget <= 0 {
			return false
		}
		// a large source costs as much as many small ones
		cost := 1 + cand.Spec.Len/65536
		if cand.Spec.Frag > 0 {
			cost += cand.Spec.Len / cand.Spec.Frag / 2000
		}
		budget -= cost
		_, dd := runCase(cand, st)
		if dd != nil {
			best, bestD = cand, dd
			return true
		}
		return false
	}
	cut := func() {
		if bestD.opIndex >= 0 && bestD.opIndex+1 < len(best.Ops) {
			nc := *best
			nc.Ops = append([]op(nil), best.Ops[:bestD.opIndex+1]...)
			try(&nc)
		}
	}
	cut()
	for changed := true; changed && budget > 0; {
		changed = false
		for size := len(best.Ops) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Ops); {
				nc := *best
				nc.Ops = append(append([]op(nil), best.Ops[:i]...), best.Ops[i+size:]...)
				if try(&nc) {
					changed = true
					cut()
				} else {
					i += size
				}
			}
		}
		// simplify the reader
		mods := []func(s *srcSpec){
			func(s *srcSpec) { s.FailAt, s.FailN = -1, 0 }, func(s *srcSpec) { s.FailSeek = 0 },
			func(s *srcSpec) { s.Frag = 0 }, func(s *srcSpec) { s.Empty = 0 }, func(s *srcSpec) { s.EOFData = false },
			func(s *srcSpec) { s.ErrK = 0 }, func(s *srcSpec) { s.Scratch = false }, func(s *srcSpec) { s.CloseErr = false }, func(s *srcSpec) { s.UseLen = false; s.Declared = -1 },
			func(s *srcSpec) { s.FailData = false },
			func(s *srcSpec) { s.Len /= 2 }, func(s *srcSpec) { s.Len = s.Len * 3 / 4 }, func(s *srcSpec) { s.Len-- },
		}
		for _, f := range mods {
			nc := *best
			f(&nc.Spec)
			if nc.Spec != best.Spec && nc.Spec.Len >= 0 && try(&nc) {
				changed = true
			}
		}
		for i := range best.Ops {
			o := best.Ops[i]
			var cands []op
			if o.K == "drain" {
				x := o
				x.K = "read"
				cands = append(cands, x)
			}
			if o.Body != 0 {
				x := o
				x.Body = 0
				cands = append(cands, x)
				if n := 1; o.Body != n {
					y := o
					y.Body = n
					cands = append(cands, y)
				}
			}
			if o.N > 1 {
				x := o
				x.N = o.N / 2
				cands = append(cands, x)
				x.N = 1
				cands = append(cands, x)
			}
			if o.K == "writeto" && o.Dst != "plain" {
				x := o
				x.Dst = "plain"
				cands = append(cands, x)
			}
			for _, x := range cands {
				if x == best.Ops[i] {
					continue
				}
				nc := *best
				nc.Ops = append([]op(nil), best.Ops...)
				nc.Ops[i] = x
				if try(&nc) {
					changed = true
					break
				}
			}
		}
		if len(best.Ops) > 0 {
			cut()
		}
	}
	return best, bestD
}

// attribute names the properties a minimal failing history speaks about.
func attribute(c *bcase, d *deviation) []string {
	tags := map[string]bool{}
	for _, t := range d.tags {
		tags[t] = true
	}
	last := d.opIndex
	for i, o := range c.Ops {
		if i > last {
			break
		}
		dev := i == last
		switch o.K {
		case "copy":
			if d.op != "close" && d.op != "source" {
				tags["B02"] = true
			}
		case "seek":
			if !dev {
				tags["B07"] = true
			}
		case "readat":
			if !dev {
				tags["B08"] = true
			}
		case "writeto":
			if !dev {
				tags["B09"] = true
			}
		case "close":
			if !dev {
				tags["B05"] = true
			}
		}
	}
	if c.Spec.FailAt >= 0 && c.Spec.FailN != 0 || c.Spec.FailSeek > 0 {
		tags["B06"] = true
	}
	var out []string
	for t := range tags {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}
