package main

import (
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/chronos-tachyon/morehttp/body"
)

// B14: how the library treats the reader it was given, seen from the reader.

// watchContract makes the instrumented readers judge the calls they get.
var watchContract bool

// randomAccess: bodies over such a reader read it by position.
func (sp *srcSpec) randomAccess() bool {
	return sp.At && (sp.Stat || sp.Seek || sp.UseLen && sp.Declared >= 0)
}

func (sp *srcSpec) forwardOnly() bool { return !sp.randomAccess() && !sp.Seek }

func (s *src) blame(format string, a ...any) {
	if len(s.contract) < 3 {
		s.contract = append(s.contract, fmt.Sprintf(format, a...))
	}
}

func (s *src) checkRead(n int) {
	sp := &s.spec
	switch {
	case s.inCtor:
		return
	case sp.randomAccess():
		s.blame("Read was called on a random-access reader: its own cursor moves")
	case sp.forwardOnly() && s.ended:
		s.blame("a forward-only reader was read again after it had reported its end or a failure")
	case s.seekFailed:
		s.blame("the reader was read although positioning it had failed")
	}
	if sp.UseLen && sp.Declared >= 0 && s.pos+int64(n) > sp.Declared {
		s.blame("Read asked for bytes %d to %d of a reader declared to have %d", s.pos, s.pos+int64(n), sp.Declared)
	}
}

func (s *src) checkReadAt(n int, off int64) {
	sp := &s.spec
	if sp.UseLen && sp.Declared >= 0 && off+int64(n) > sp.Declared {
		s.blame("ReadAt asked for bytes %d to %d of a reader declared to have %d", off, off+int64(n), sp.Declared)
	}
}

func (s *src) checkSeek() {
	if !s.inCtor && s.spec.randomAccess() {
		s.blame("Seek was called on a random-access reader: its own cursor moves")
	}
}

// useMon notices calls of one reader that overlap in time. A nil monitor does
// nothing: its atomics would order the goroutines and hide races.
type useMon struct {
	busy  [3]atomic.Int32
	calls atomic.Int64
	mu    sync.Mutex
	bad   []string
}

const (
	useExcl = iota
	useShared
	useClosing
)

func (m *useMon) enter(c int, what string) {
	if m == nil {
		return
	}
	m.calls.Add(1)
	n := m.busy[c].Add(1)
	e, sh, cl := m.busy[useExcl].Load(), m.busy[useShared].Load(), m.busy[useClosing].Load()
	if c != useShared && n > 1 || cl > 0 && e+sh > 0 {
		m.mu.Lock()
		if len(m.bad) < 4 {
			m.bad = append(m.bad, fmt.Sprintf("%s began while the reader was busy (%d Read or Seek, %d ReadAt, %d Close under way)", what, e, sh, cl))
		}
		m.mu.Unlock()
	}
}

func (m *useMon) leave(c int) {
	if m != nil {
		m.busy[c].Add(-1)
	}
}

// sourceUse: many goroutines use a family of bodies over a slow reader that
// watches for overlapping calls.
func (r *Run) sourceUse(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		src := pick(rng, "readerat", "readerat-decl", "seeker", "seeker", "buffered", "buffered", "buffered-decl")
		c := mkConcMon(rng, src, pick(rng, 20, 200, 2000, 40000), pick(rng, 1, 1, 2, 4))
		gs := 2 + rng.IntN(7)
		shared := []body.Body{c.b}
		for i := rng.IntN(4); i > 0; i-- {
			d, err := c.b.Copy()
			if err != nil {
				r.Violate([]string{"B02"}, kind, idx, fmt.Sprintf("Copy: %v", err), nil)
				return
			}
			shared = append(shared, d)
		}
		seeds := make([]uint64, gs)
		for i := range seeds {
			seeds[i] = rng.Uint64()
		}
		ops := make([]int64, gs)
		panics := par(gs, func(g int) {
			lr := newRand(seeds[g])
			b := shared[g%len(shared)]
			var mine []body.Body
			buf := make([]byte, pick(lr, 4, 40, 400, 70000))
			for k := 0; k < 12; k++ {
				ops[g]++
				switch lr.IntN(8) {
				case 0:
					if d, err := b.Copy(); err == nil {
						mine = append(mine, d)
					}
				case 1:
					if len(mine) > 0 {
						mine[0].Close()
						mine = mine[1:]
					}
				case 2:
					if s, ok := b.(io.Seeker); ok {
						s.Seek(int64(4*lr.IntN(len(c.data)/4)), io.SeekStart)
					}
				case 3:
					if a, ok := b.(io.ReaderAt); ok {
						a.ReadAt(buf, int64(4*lr.IntN(len(c.data)/4)))
					}
				case 4:
					if len(mine) > 0 {
						mine[len(mine)-1].Read(buf)
						break
					}
					fallthrough
				default:
					b.Read(buf)
				}
				if lr.IntN(4) == 0 {
					runtime.Gosched()
				}
			}
			for _, d := range mine {
				d.Close()
			}
			if g >= len(shared) && lr.IntN(2) == 0 || lr.IntN(3) == 0 {
				b.Close()
			}
		})
		for _, b := range shared {
			b.Close()
		}
		m := c.s.mon
		r.Count("reader_calls_watched", m.calls.Load())
		total := int64(0)
		for _, x := range ops {
			total += x
		}
		r.Count("operations", total)
		r.Count("kind_"+src, 1)
		r.Eval(hash64(kind, seeds), m.calls.Load() > 1)
		if len(m.bad) > 0 {
			r.Violate([]string{"B14", "B10"}, kind, idx, fmt.Sprintf("%s body, %d bodies, %d goroutines: %s", src, len(shared), gs, m.bad[0]), nil)
			return
		}
		if len(c.s.contract) > 0 {
			r.Violate([]string{"B14"}, kind, idx, fmt.Sprintf("%s body, %d goroutines: %s", src, gs, c.s.contract[0]), nil)
			return
		}
		if len(panics) > 0 {
			r.Violate([]string{"B10"}, kind, idx, fmt.Sprintf("%s body, %d goroutines: %s", src, gs, panics[0]), nil)
		}
	})
}

// mkConcMon is mkConc with a watching reader that has more bytes than it is
// declared to have.
func mkConcMon(rng *randT, kind string, words int, stall int) *concSource {
	c := &concSource{kind: kind, done: func() {}}
	sp := srcSpec{Len: 4 * words, Word: true, FailAt: -1, Declared: -1, Seed: rng.Uint64() >> 12, Close: true, Frag: pick(rng, 0, 0, 3, 50, 4000)}
	if words > 1000 {
		sp.Frag = pick(rng, 0, 4000)
	}
	sp.EOFData = rng.IntN(2) == 0
	decl := int64(4 * words)
	switch kind {
	case "readerat":
		sp.At, sp.Seek, sp.Stat = true, rng.IntN(2) == 0, true
	case "readerat-decl":
		sp.At, sp.UseLen, sp.Declared = true, true, decl
		sp.Len += 4 * rng.IntN(100)
	case "seeker":
		sp.Seek, sp.Stat = true, rng.IntN(2) == 0
		if rng.IntN(3) == 0 {
			sp.UseLen, sp.Declared = true, decl
			sp.Len += 4 * rng.IntN(100)
		}
	case "buffered-decl":
		sp.UseLen, sp.Declared = true, decl
		sp.Len += pick(rng, 0, 4, 400, 300000)
	}
	c.s = newSrc(sp)
	c.s.budget = 1 << 40
	c.s.stallEvery = stall
	c.s.lite = true
	c.s.mon = &useMon{}
	c.data = c.s.data
	var err error
	if sp.UseLen {
		c.b, err = body.FromReaderAndLength(c.s.reader(), sp.Declared)
	} else {
		c.b, err = body.FromReader(c.s.reader())
	}
	c.s.inCtor = false
	if err != nil {
		panic(fmt.Sprintf("cannot adopt: %v", err))
	}
	return c
}

// sharedStream: the owner of a stream hands its first n bytes to a body and
// reads the rest itself.
func (r *Run) sharedStream(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		var parts []int
		total := 0
		for i := 1 + rng.IntN(6); i > 0; i-- {
			x := genLen(rng, .2)
			parts = append(parts, x)
			total += x
		}
		sp := srcSpec{Len: total, FailAt: -1, Declared: -1, Seed: rng.Uint64()>>12 | 1, Frag: pick(rng, 0, 0, 1, 2, 1000), EOFData: rng.IntN(2) == 0}
		if total > 5000 {
			sp.Frag = pick(rng, 0, 2, 5000)
		}
		s := newSrc(sp)
		rd := s.reader()
		pos := 0
		for i, p := range parts {
			b, err := body.FromReaderAndLength(rd, int64(p))
			if err != nil {
				r.Violate([]string{"B13"}, kind, idx, fmt.Sprintf("message %d of %d bytes: %v", i, p, err), nil)
				return
			}
			cp, err := b.Copy()
			if err != nil {
				r.Violate([]string{"B02"}, kind, idx, err.Error(), nil)
				return
			}
			buf := make([]byte, genSize(rng, p)+1)
			k := 0
			for {
				m, err := b.Read(buf)
				k += m
				step()
				if err != nil || k > p {
					break
				}
			}
			got, err := io.ReadAll(cp)
			b.Close()
			cp.Close()
			if err != nil || k != p || string(got) != string(s.data[pos:pos+p]) {
				r.Violate([]string{"B14", "B01"}, kind, idx, fmt.Sprintf("messages of %v bytes on one stream: body %d delivers %d bytes (%v), its copy %d", parts, i, k, err, len(got)), nil)
				return
			}
			pos += p
			if s.pos != int64(pos) {
				r.Violate([]string{"B14"}, kind, idx, fmt.Sprintf("messages of %v bytes on one stream: after the body of message %d the stream stands at %d instead of %d", parts, i, s.pos, pos), nil)
				return
			}
			r.Count("messages_framed", 1)
		}
		r.Eval(hash64(kind, fmt.Sprint(parts), sp.Frag), len(parts) > 1)
	})
}

func init() {
	checks["B14"] = func(r *Run) {
		watchContract = true
		r.Rule("Sequential: the body histories of B01-B09 over instrumented readers that judge every call they receive (bytes asked for against the declared length, reads after the end or a failure, reads after a failed Seek, use of a random-access reader's own cursor), and framed messages taken one after another from one stream. Concurrent: 2-8 goroutines over up to four bodies and their copies on a slow reader that counts the calls under way. Non-trivial: the reader was called at least twice.")
		r.Assume(bodyAssume + " A reader without Seek and without a usable ReadAt is forward-only.")
		al := []op{{K: "read", N: 2}, {K: "read", N: 9}, {K: "read", N: 0}, {K: "copy"}, {K: "read", Body: 1, N: 3}, {K: "seek", Off: 1}, {K: "readat", N: 4, Off: 1}, {K: "writeto", Dst: "plain"}, {K: "close"}}
		tail := []op{{K: "drain", N: 2}, {K: "read", N: 1}, {K: "drain", Body: 1, N: 3}, {K: "read", Body: 1, N: 2}, {K: "closeall"}}
		for v := 0; v < 4; v++ {
			v := v
			cf := capConfigs(5, func(s *srcSpec) {
				s.Frag, s.EOFData = []int{0, 1, 2, 0}[v], v&1 == 1
			})
			for d := 0; d <= 5; d++ {
				d := d
				cf = append(cf, capConfigs(5, func(s *srcSpec) {
					s.UseLen, s.Declared = true, int64(d)
					s.Frag, s.EOFData = []int{0, 2, 1, 0}[v], v&2 == 2
				})...)
			}
			r.enumerate(fmt.Sprintf("enum-v%d", v), cf, al, r.N(2, 3), tail)
		}
		for at := 0; at <= 4; at++ {
			at := at
			r.enumerate(fmt.Sprintf("enum-fail%d", at), kindConfigs(4, func(s *srcSpec) { s.FailAt, s.FailN, s.FailData = at, pick(newRand(uint64(at)), -1, 1, 2), at&1 == 1 })[2:], al, r.N(2, 4), tail)
		}
		r.bodyCases("small", r.N(40000, 400000), &profile{declared: .5, maxOps: 20, w: w(10, 3, 1, 4, 4, 3, 3, 2, 1), finalize: true})
		r.bodyCases("faulty", r.N(20000, 200000), &profile{declared: .3, fault: 1, seekFault: .3, maxOps: 16, w: w(10, 3, 1, 4, 3, 3, 3, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2000, 20000), &profile{declared: .5, fault: .3, big: 1, maxOps: 12, w: w(10, 2, 1, 3, 2, 2, 3, 1, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{declared: .5, huge: true, maxOps: 10, w: w(10, 2, 1, 3, 2, 2, 3, 1, 0), finalize: true})
		if !raceEnabled {
			r.sharedStream("framed", r.N(4000, 40000))
		}
		r.sourceUse("source-use", r.N(3000, 30000))
	}
}
