package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"time"
)

// srcReader is a source handed to the library.
type srcReader interface {
	Read(p []byte) (int, error)
}

// srcSpec describes an instrumented reader.
type srcSpec struct {
	Len      int    `json:"len"`               // bytes the reader really has
	Stat     bool   `json:"stat"`              // implements fs.File's Stat (with Close)
	Seek     bool   `json:"seek"`              //
	At       bool   `json:"at"`                //
	Close    bool   `json:"close"`             //
	Frag     int    `json:"frag"`              // 0 full, 1 one byte, 2 random, k>2: at most k bytes
	Empty    int    `json:"empty"`             // every Empty-th Read returns (0, nil); 0 never; -n: n in a row before each that does not
	EOFData  bool   `json:"eofdata"`           // end-of-stream comes with the last bytes
	Scratch  bool   `json:"scratch"`           // uses the rest of the buffer as scratch space
	FailAt   int    `json:"failat"`            // byte position at which the reader fails, -1 never
	FailN    int    `json:"failn"`             // number of failures there; <0: for ever
	FailData bool   `json:"faildata"`          // the failure comes with the bytes before it
	FailPan  bool   `json:"failpan,omitempty"` // the reader panics instead of failing
	FailSeek int    `json:"failseek"`          // the n-th Seek after construction fails; 0 never
	CloseErr bool   `json:"closeerr"`          // Close fails
	ErrK     int    `json:"errk,omitempty"`    // shape of the failures (errOf)
	StatErr  bool   `json:"staterr"`
	StatOff  int    `json:"statoff,omitempty"` // Stat is that much off, where a length is declared
	SeekErr  int    `json:"seekerr"`           // n-th Seek during construction fails; 0 never
	Seed     uint64 `json:"seed"`
	Word     bool   `json:"word,omitempty"`  // content is 4-byte counters; fragments are multiples of 4
	More     bool   `json:"more,omitempty"`  // has further methods (capX)
	Start    int    `json:"start,omitempty"` // where the cursor of a random-access or seekable reader stands at first
	Declared int64  `json:"declared"`        // FromReaderAndLength; <0: FromReader (-1) or given negative
	UseLen   bool   `json:"uselen"`          // call FromReaderAndLength
}

// injected errors: one value per kind so identity can be checked.
type injErr struct{ what string }

func (e *injErr) Error() string { return "injected " + e.what }

var (
	errInjRead  = &injErr{"read failure"}
	errInjSeek  = &injErr{"seek failure"}
	errInjClose = &injErr{"close failure"}
	errInjStat  = &injErr{"stat failure"}
	errInjWrite = &injErr{"write failure"}
	errInjPush  = &injErr{"push failure"}
	errInjConst = &injErr{"constructor seek failure"}
)

type budgetPanic struct{ calls int }

func (b budgetPanic) String() string {
	return fmt.Sprintf("reader called %d times without end", b.calls)
}

// src is the instrumented reader core. It is deliberately unsynchronized: the
// library has to serialize its uses (positional reads excepted, which only
// read immutable fields in lite mode).
type src struct {
	spec srcSpec
	data []byte
	rng  *rand.Rand

	pos        int64
	reads      int64
	ats        int64
	seeks      int64
	stats      int64
	closes     int64
	inCtor     bool
	ctorReads  int64
	failsLeft  int
	raised     int64 // failures raised so far
	afterClose []string
	bytesOut   int64
	seekN      int // seeks after construction
	ctorSeekN  int
	calls      int
	budget     int
	lite       bool // concurrent mode: no bookkeeping in ReadAt
	stallEvery int  // concurrent mode: sleep now and then
	atRaised   bool

	ended      bool // a Read reported end-of-stream or a failure
	seekFailed bool // the last Seek failed
	contract   []string
	mon        *useMon
	onRead     func()
}

func content(n int, seed uint64, word bool) []byte {
	b := make([]byte, n)
	if word {
		for i := 0; i+4 <= n; i += 4 {
			w := uint32(i / 4)
			b[i], b[i+1], b[i+2], b[i+3] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
		}
		return b
	}
	x := seed*6364136223846793005 + 1442695040888963407
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 32)
	}
	return b
}

func newSrc(spec srcSpec) *src {
	s := &src{spec: spec, data: content(spec.Len, spec.Seed, spec.Word), rng: rand.New(rand.NewPCG(spec.Seed, 7)), inCtor: true}
	s.failsLeft = spec.FailN
	if !spec.forwardOnly() {
		s.pos = int64(spec.Start)
	}
	s.budget = 100*spec.Len + 400000
	if spec.FailAt < 0 {
		s.failsLeft = 0
	}
	return s
}

func (s *src) reader() srcReader {
	if s.spec.More {
		return s.wrapX(s.spec.Stat, s.spec.Seek, s.spec.At, s.spec.Close)
	}
	return s.wrap(s.spec.Stat, s.spec.Seek, s.spec.At, s.spec.Close)
}

func (s *src) call(name string) {
	if s.closes > 0 {
		s.afterClose = append(s.afterClose, name)
	}
	s.calls++
	if s.calls > s.budget {
		panic(budgetPanic{s.calls})
	}
}

func (s *src) fragment(n int) int {
	switch {
	case s.spec.Frag == 0 || n <= 1:
		return n
	case s.spec.Word:
		m := 4 * (1 + s.rng.IntN(s.spec.Frag))
		if m > n {
			m = n
		}
		return m
	case s.spec.Frag == 1:
		return 1
	case s.spec.Frag == 2:
		return 1 + s.rng.IntN(n)
	case s.spec.Frag < n:
		return s.spec.Frag
	}
	return n
}

func (s *src) scribble(p []byte) {
	if s.spec.Scratch {
		for i := range p {
			p[i] = 0xA5
		}
	}
}

func (s *src) shouldFail(from, to int64) bool {
	f := int64(s.spec.FailAt)
	return s.failsLeft != 0 && f >= 0 && from <= f && f < to
}

func (s *src) raise() error {
	if s.failsLeft > 0 {
		s.failsLeft--
	}
	s.raised++
	if s.spec.FailPan {
		panic(s.readErr())
	}
	return s.readErr()
}

func (s *src) stall() {
	if s.stallEvery > 0 && s.rng.IntN(s.stallEvery) == 0 {
		time.Sleep(time.Duration(s.rng.IntN(60)) * time.Microsecond)
	}
}

type capR struct{ s *src }

// capX adds the methods by which readers of the standard library and others
// tell what they hold or offer a faster way to it. All are about what is left
// from the cursor on, as those of bytes.Reader and bytes.Buffer are.
type capX struct{ capR }

func (c capX) left() []byte                    { return c.s.data[min(c.s.pos, int64(len(c.s.data))):] }
func (c capX) Len() int                        { return len(c.left()) }
func (c capX) Size() int64                     { return int64(len(c.s.data)) }
func (c capX) Length() int64                   { return int64(c.Len()) }
func (c capX) BytesRemaining() int64           { return int64(c.Len()) }
func (c capX) Remaining() int64                { return int64(c.Len()) }
func (c capX) Buffered() int                   { return c.Len() }
func (c capX) Available() int                  { return c.Len() }
func (c capX) Name() string                    { return "src" }
func (c capX) ContentLength() int64            { return int64(c.Len()) }
func (c capX) EOF() bool                       { return c.Len() == 0 }
func (c capX) Bytes() []byte                   { c.s.reads++; return c.left() }
func (c capX) String() string                  { c.s.reads++; return string(c.left()) }
func (c capX) Unwrap() io.Reader               { return c.capR }
func (c capX) Underlying() io.Reader           { return c.capR }
func (c capX) UnderlyingReader() any           { return c.capR }
func (c capX) SetReadDeadline(time.Time) error { return nil }
func (c capX) Reset(io.Reader)                 { c.s.blame("Reset was called"); c.s.pos = 0 }
func (c capX) Rewind() error                   { c.s.blame("Rewind was called"); c.s.pos = 0; return nil }
func (c capX) Discard(n int) (int, error) {
	n = min(n, c.Len())
	c.s.pos += int64(n)
	c.s.reads++
	return n, nil
}
func (c capX) Next(n int) []byte {
	b := c.left()[:min(n, c.Len())]
	c.s.pos += int64(len(b))
	c.s.reads++
	return b
}
func (c capX) Peek(n int) ([]byte, error) {
	if n > c.Len() {
		return c.left(), io.EOF
	}
	return c.left()[:n], nil
}
func (c capX) ReadByte() (byte, error) {
	var p [1]byte
	for range 100 {
		if n, err := c.Read(p[:]); n == 1 {
			return p[0], nil
		} else if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}
func (c capX) UnreadByte() error {
	c.s.pos--
	return nil
}
func (c capX) WriteTo(w io.Writer) (int64, error) {
	var total int64
	p := make([]byte, 512)
	for {
		n, err := c.Read(p)
		m, werr := w.Write(p[:n])
		total += int64(m)
		switch {
		case werr != nil:
			return total, werr
		case err == io.EOF:
			return total, nil
		case err != nil:
			return total, err
		}
	}
}

type capStat struct{ s *src }
type capSeek struct{ s *src }
type capAt struct{ s *src }
type capClose struct{ s *src }

func (c capR) Read(p []byte) (_ int, err error) {
	s := c.s
	s.mon.enter(useExcl, "Read")
	defer s.mon.leave(useExcl)
	s.call("Read")
	if s.inCtor {
		s.ctorReads++
	}
	s.reads++
	s.stall()
	if s.onRead != nil {
		s.onRead()
	}
	if watchContract {
		s.checkRead(len(p))
		defer func() {
			if err != nil {
				s.ended = true
			}
		}()
	}
	if k := int64(s.spec.Empty); k > 0 && s.reads%k == 0 || k < 0 && s.reads%(1-k) != 0 {
		return 0, nil
	}
	n := s.fragment(len(p))
	end := int64(len(s.data))
	if s.pos > end {
		return 0, io.EOF
	}
	// failure position may be == end: failure instead of end-of-stream
	if f := int64(s.spec.FailAt); s.failsLeft != 0 && f >= 0 && f >= s.pos && f <= end {
		if s.pos == f && len(p) > 0 {
			return 0, s.raise()
		}
		if s.pos+int64(n) >= f && s.pos < f {
			n = int(f - s.pos)
			copy(p, s.data[s.pos:f])
			s.scribble(p[n:])
			s.pos += int64(n)
			s.bytesOut += int64(n)
			if s.spec.FailData {
				return n, s.raise()
			}
			return n, nil
		}
	}
	if int64(n) > end-s.pos {
		n = int(end - s.pos)
	}
	copy(p[:n], s.data[s.pos:])
	s.scribble(p[n:])
	s.pos += int64(n)
	s.bytesOut += int64(n)
	if s.pos == end && len(p) > 0 && (n == 0 || (s.spec.EOFData)) {
		return n, io.EOF
	}
	return n, nil
}

func (c capAt) ReadAt(p []byte, off int64) (int, error) {
	s := c.s
	s.mon.enter(useShared, "ReadAt")
	defer s.mon.leave(useShared)
	if watchContract {
		s.checkReadAt(len(p), off)
	}
	if s.onRead != nil {
		s.onRead()
	}
	if s.lite {
		return s.readAtLite(p, off)
	}
	s.call("ReadAt")
	s.ats++
	if off < 0 {
		return 0, errors.New("reader: negative offset")
	}
	end := int64(len(s.data))
	if off >= end {
		if off == end && len(p) == 0 {
			return 0, nil
		}
		if s.failsLeft != 0 && int64(s.spec.FailAt) == end && len(p) > 0 {
			return 0, s.raise()
		}
		return 0, io.EOF
	}
	want := int64(len(p))
	if s.shouldFail(off, off+want) {
		n := int(int64(s.spec.FailAt) - off)
		if !s.spec.FailData {
			// still legal: fewer bytes than available before the failure
			if n > 0 && s.rng.IntN(2) == 0 {
				n = s.rng.IntN(n + 1)
			}
		}
		copy(p[:n], s.data[off:])
		s.scribble(p[n:])
		return n, s.raise()
	}
	n := copy(p, s.data[off:])
	s.scribble(p[n:])
	if n < len(p) {
		return n, io.EOF
	}
	if off+int64(n) == end && s.spec.EOFData && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

func (s *src) readAtLite(p []byte, off int64) (int, error) {
	end := int64(len(s.data))
	if off < 0 {
		return 0, errors.New("reader: negative offset")
	}
	if s.stallEvery > 0 && (off/4)%int64(s.stallEvery) == 0 {
		time.Sleep(20 * time.Microsecond)
	}
	if off > end {
		return 0, io.EOF
	}
	n := copy(p, s.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (c capSeek) Seek(off int64, whence int) (_ int64, err error) {
	s := c.s
	s.mon.enter(useExcl, "Seek")
	defer s.mon.leave(useExcl)
	s.call("Seek")
	s.seeks++
	if watchContract {
		s.checkSeek()
		defer func() { s.seekFailed = err != nil }()
	}
	if s.inCtor {
		s.ctorSeekN++
		if s.spec.SeekErr == s.ctorSeekN {
			return 0, errInjConst
		}
	} else {
		s.seekN++
		if s.spec.FailSeek == s.seekN {
			s.raised++
			return 0, s.seekErr()
		}
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	default:
		return 0, errors.New("reader: bad whence")
	}
	if off < 0 {
		return 0, errors.New("reader: negative position")
	}
	s.pos = off
	s.stall()
	return off, nil
}

func (c capClose) Close() error {
	s := c.s
	s.mon.enter(useClosing, "Close")
	defer s.mon.leave(useClosing)
	if s.closes > 0 {
		s.afterClose = append(s.afterClose, "Close")
	}
	s.closes++
	s.stall()
	if s.spec.CloseErr {
		return s.closeErr()
	}
	return nil
}

type fakeInfo struct {
	size int64
	mode fs.FileMode
}

func (fakeInfo) Name() string        { return "src" }
func (f fakeInfo) Size() int64       { return f.size }
func (f fakeInfo) Mode() fs.FileMode { return 0o444 | f.mode }
func (fakeInfo) ModTime() time.Time  { return time.Time{} }
func (fakeInfo) IsDir() bool         { return false }
func (fakeInfo) Sys() any            { return nil }

func (c capStat) Stat() (fs.FileInfo, error) {
	s := c.s
	s.call("Stat")
	s.stats++
	if s.spec.StatErr {
		return nil, errInjStat
	}
	// what sort of file it is makes no difference
	mode := []fs.FileMode{0, 0, 0o7777 &^ 0o444, fs.ModeAppend, fs.ModeTemporary, fs.ModeExclusive, fs.ModeSticky | fs.ModeSetgid, fs.ModeIrregular}[s.spec.Seed%8]
	return fakeInfo{max(0, int64(len(s.data)+s.spec.StatOff)), mode}, nil
}
