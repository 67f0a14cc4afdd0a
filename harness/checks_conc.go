package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chronos-tachyon/morehttp/body"
)

const concRule = "Concurrent cases: goroutines call one family of bodies at once; the harness shares no lock, channel or atomic with them between start and join, so that it hides no race. Recorded per goroutine with one monotonic clock and checked offline. Non-trivial: at least two calls of different goroutines overlapped in time."

var clock0 = time.Now()

func now() int64 { return int64(time.Since(clock0)) }

// par runs n goroutines from a common start and joins them; panics of the
// library are returned.
func par(n int, f func(g int)) (panics []string) {
	msgs := make([]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			msgs[g], _ = guard(func() { f(g) })
		}(g)
	}
	close(start)
	wg.Wait()
	for _, m := range msgs {
		if m != "" {
			panics = append(panics, m)
		}
	}
	return
}

// concSource makes a body for concurrent use. words: length in 4-byte words.
type concSource struct {
	b    body.Body
	s    *src
	data []byte
	kind string
	fwd  bool
	unk  bool
	done func()
}

var concKinds = []string{"bytes", "readerat", "readerat-decl", "seeker", "buffered", "buffered-decl", "std-file", "empty"}

func mkConc(rng *randT, kind string, words int, stall int) *concSource {
	c := &concSource{kind: kind, done: func() {}}
	sp := srcSpec{Len: 4 * words, Word: true, FailAt: -1, Declared: -1, Seed: rng.Uint64() >> 12, Close: true, Frag: pick(rng, 0, 0, 1, 3, 50)}
	sp.EOFData = rng.IntN(2) == 0
	sp.More, sp.Start = rng.IntN(4) == 0, pick(rng, 0, 0, 4, 4*words)
	if words > 300 {
		// keep the number of reader calls bounded
		stall = min(stall, 1) * words / 20
		sp.Frag = pick(rng, 0, 0, words/100, words/10)
	}
	var err error
	switch kind {
	case "empty":
		c.b, c.data = body.Empty(), nil
		return c
	case "bytes":
		c.data = content(4*words, 0, true)
		c.b = body.FromBytes(c.data)
		return c
	case "std-file":
		e := &env{c: &bcase{Spec: sp}}
		c.data = content(4*words, 0, true)
		c.b, err = body.FromReader(stdReaders["file"].mk(e, c.data))
		c.done = func() {
			for _, f := range e.cleanup {
				f()
			}
		}
	case "readerat":
		sp.At, sp.Seek, sp.Stat = true, rng.IntN(2) == 0, true
	case "readerat-decl":
		sp.At, sp.UseLen, sp.Declared = true, true, int64(4*words)
	case "seeker":
		sp.Seek, sp.Stat = true, rng.IntN(2) == 0
	case "buffered":
		c.fwd, c.unk = true, true
	case "buffered-decl":
		sp.UseLen, sp.Declared = true, int64(4*words)
		c.fwd = true
	}
	if kind != "std-file" {
		c.s = newSrc(sp)
		c.s.lite = true
		c.s.budget = 1 << 40
		c.s.stallEvery = stall
		c.data = c.s.data
		if sp.UseLen {
			c.b, err = body.FromReaderAndLength(c.s.reader(), sp.Declared)
		} else {
			c.b, err = body.FromReader(c.s.reader())
		}
		c.s.inCtor = false
	}
	if err != nil {
		panic(fmt.Sprintf("cannot adopt: %v", err))
	}
	return c
}

type chunk struct {
	g        int
	t0, t1   int64
	first, n int // words
	raw      []byte
	err      error
}

func wordAt(b []byte, i int) int {
	return int(b[i])<<24 | int(b[i+1])<<16 | int(b[i+2])<<8 | int(b[i+3])
}

// locate turns the bytes of a read into a word interval; bad when they are
// not consecutive bytes of the stream.
func (c *chunk) locate() string {
	if len(c.raw) == 0 {
		c.first, c.n = -1, 0
		return ""
	}
	if len(c.raw)%4 != 0 {
		return "unaligned"
	}
	c.first, c.n = wordAt(c.raw, 0), len(c.raw)/4
	for i := 1; i < c.n; i++ {
		if wordAt(c.raw, 4*i) != c.first+i {
			return fmt.Sprintf("bytes of one Read are not consecutive: word %d follows word %d", wordAt(c.raw, 4*i), wordAt(c.raw, 4*i-4))
		}
	}
	return ""
}

func overlaps(cs []chunk) (n int, sig uint64) {
	sort.Slice(cs, func(i, j int) bool { return cs[i].t0 < cs[j].t0 })
	var order []byte
	var maxEnd int64
	maxG := -1
	for _, c := range cs {
		if maxG >= 0 && c.t0 < maxEnd && c.g != maxG {
			n++
		}
		if c.t1 > maxEnd {
			maxEnd, maxG = c.t1, c.g
		}
		order = append(order, byte(c.g))
	}
	return n, hash64(order)
}

// partition: concurrent Reads of one body partition the stream.
func (r *Run) concPartition(kind string, n int, tags []string) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		words := pick(rng, 10, 100, 1000, 20000, 60000)
		src := concKinds[idx%len(concKinds)]
		c := mkConc(rng, src, words, pick(rng, 0, 0, 3, 10))
		defer c.done()
		gs := 2 + rng.IntN(7)
		size := 4 * (1 + words/500 + rng.IntN(1+words/(4*gs)))
		yield := rng.IntN(3)
		res := make([][]chunk, gs)
		rems := make([][]int64, gs)
		withRem := rng.IntN(2) == 0
		panics := par(gs, func(g int) {
			buf := make([]byte, size)
			for k := 0; k < 400000; k++ {
				t0 := now()
				m, err := c.b.Read(buf)
				t1 := now()
				res[g] = append(res[g], chunk{g: g, t0: t0, t1: t1, raw: append([]byte(nil), buf[:m]...), err: err})
				if err != nil {
					return
				}
				if withRem {
					rems[g] = append(rems[g], c.b.BytesRemaining())
				}
				if yield == 1 {
					runtime.Gosched()
				}
			}
		})
		total := len(c.data) / 4
		bad := func(f string, a ...any) {
			r.Violate(tags, kind, idx, fmt.Sprintf("%s body, %d goroutines, %d words, reads of %d bytes: ", src, gs, total, size)+fmt.Sprintf(f, a...), nil)
		}
		if len(panics) > 0 {
			bad("%s", panics[0])
			return
		}
		var all []chunk
		for g := range res {
			last := int64(len(c.data))
			for _, v := range rems[g] {
				if v == -1 && c.unk {
					continue
				}
				if v < 0 || v > last || v%4 != 0 {
					bad("BytesRemaining went from %d to %d while the body was only read", last, v)
					return
				}
				last = v
			}
			for i := range res[g] {
				ch := &res[g][i]
				if ch.err != nil && ch.err != io.EOF {
					bad("Read failed: %v", ch.err)
					return
				}
				switch s := ch.locate(); s {
				case "":
				case "unaligned":
					r.Count("unaligned_reads", 1)
					return
				default:
					bad("%s", s)
					return
				}
			}
			all = append(all, res[g]...)
		}
		r.Count("reads", int64(len(all)))
		ov, sig := overlaps(all)
		r.Count("overlapping_calls", int64(ov))
		r.Eval(hash64(kind, sig), ov > 0)
		// exactly once
		seen := make([]int8, total)
		for i := range all {
			for w := all[i].first; w < all[i].first+all[i].n; w++ {
				if w < 0 || w >= total {
					bad("word %d does not exist", w)
					return
				}
				seen[w]++
			}
		}
		for w, k := range seen {
			if k != 1 {
				bad("word %d was delivered %d times", w, k)
				return
			}
		}
		// real-time order: a read that returned before another began has the earlier bytes
		byEnd := append([]chunk(nil), all...)
		sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].t1 < byEnd[j].t1 })
		j, maxSeen := 0, -1
		for i := range all { // sorted by t0
			for j < len(byEnd) && byEnd[j].t1 < all[i].t0 {
				if e := byEnd[j].first + byEnd[j].n - 1; byEnd[j].n > 0 && e > maxSeen {
					maxSeen = e
				}
				if byEnd[j].err == io.EOF && all[i].n > 0 {
					bad("a Read that began after another had returned end-of-stream delivered word %d", all[i].first)
					return
				}
				j++
			}
			if all[i].n > 0 && all[i].first <= maxSeen {
				bad("a Read delivered word %d after an earlier Read had already delivered word %d", all[i].first, maxSeen)
				return
			}
		}
	})
}

// copies: copies made while others read; every copy delivers a whole suffix.
func (r *Run) concCopies(kind string, n int, tags []string) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		words := pick(rng, 10, 100, 1000, 20000, 50000)
		src := concKinds[idx%(len(concKinds)-1)]
		c := mkConc(rng, src, words, pick(rng, 0, 0, 3, 10))
		defer c.done()
		gs := 2 + rng.IntN(7)
		size := 4 * (1 + words/100 + rng.IntN(1+words/4))
		seeds := make([]uint64, gs)
		for i := range seeds {
			seeds[i] = rng.Uint64()
		}
		type cp struct {
			t0, t1 int64
			start  int
		}
		reads := make([][]chunk, gs)
		cps := make([][]cp, gs)
		problem := make([]string, gs)
		total := len(c.data) / 4
		closes := make([]int64, gs)
		panics := par(gs, func(g int) {
			lr := newRand(seeds[g])
			buf := make([]byte, size)
			for round := 0; round < 3; round++ {
				if lr.IntN(2) == 0 {
					t0 := now()
					m, err := c.b.Read(buf)
					reads[g] = append(reads[g], chunk{g: g, t0: t0, t1: now(), raw: append([]byte(nil), buf[:m]...), err: err})
				}
				t0 := now()
				d, err := c.b.Copy()
				t1 := now()
				if err != nil {
					problem[g] = fmt.Sprintf("Copy failed: %v", err)
					return
				}
				var got []byte
				stopEarly := lr.IntN(4) == 0
				for k := 0; k < 200000; k++ {
					m, err := d.Read(buf[:size-4*lr.IntN(size/8+1)])
					got = append(got, buf[:m]...)
					if err == io.EOF {
						break
					}
					if err != nil {
						problem[g] = fmt.Sprintf("Read of a copy failed: %v", err)
						return
					}
					if stopEarly && len(got) > total {
						break
					}
				}
				start := total
				if len(got) > 0 {
					if len(got) < 4 {
						problem[g] = fmt.Sprintf("a copy delivered only %d bytes", len(got))
						return
					}
					start = wordAt(got, 0)
				}
				if start > total || 4*start+len(got) > len(c.data) || !bytes.Equal(got, c.data[4*start:4*start+len(got)]) {
					problem[g] = fmt.Sprintf("a copy starting at word %d delivered wrong bytes: %s", start, diff(got, c.data[min(4*start, len(c.data)):]))
					return
				}
				if !stopEarly && 4*start+len(got) != len(c.data) {
					problem[g] = fmt.Sprintf("a copy starting at word %d ended at byte %d of %d", start, 4*start+len(got), len(c.data))
					return
				}
				cps[g] = append(cps[g], cp{t0, t1, start})
				if err := d.Close(); err != nil {
					problem[g] = fmt.Sprintf("Close of a copy failed: %v", err)
				}
				closes[g]++
			}
		})
		bad := func(f string, a ...any) {
			r.Violate(tags, kind, idx, fmt.Sprintf("%s body, %d goroutines, %d words: ", src, gs, total)+fmt.Sprintf(f, a...), nil)
		}
		if len(panics) > 0 {
			bad("%s", panics[0])
			return
		}
		var all []chunk
		for g := range reads {
			if problem[g] != "" {
				bad("%s", problem[g])
				return
			}
			for i := range reads[g] {
				if s := reads[g][i].locate(); s == "unaligned" {
					r.Count("unaligned_reads", 1)
					return
				} else if s != "" {
					bad("%s", s)
					return
				}
			}
			all = append(all, reads[g]...)
		}
		var iv []chunk
		for g := range cps {
			for _, p := range cps[g] {
				iv = append(iv, chunk{g: g, t0: p.t0, t1: p.t1})
				lo, hi := 0, 0
				for _, q := range all {
					if q.t1 < p.t0 {
						lo += q.n
					}
					if q.t0 <= p.t1 {
						hi += q.n
					}
				}
				if p.start < lo || p.start > hi {
					bad("a copy began at word %d although between %d and %d words had been read when it was made", p.start, lo, hi)
					return
				}
			}
		}
		ov, sig := overlaps(append(iv, all...))
		r.Count("reads", int64(len(all)))
		r.Count("copies", int64(len(iv)))
		r.Count("overlapping_calls", int64(ov))
		r.Eval(hash64(kind, sig), ov > 0)
		if c.s != nil && c.s.closes != 0 {
			bad("the reader was closed while the original was open")
			return
		}
		// the original still delivers the rest
		sum := 0
		for _, q := range all {
			sum += q.n
		}
		rest, err := io.ReadAll(c.b)
		if err != nil || !bytes.Equal(rest, c.data[4*sum:]) {
			bad("after %d words were read the original delivers %d bytes (%v), want %d", sum, len(rest), err, len(c.data)-4*sum)
			return
		}
		if err := c.b.Close(); err != nil {
			bad("Close: %v", err)
		}
		if c.s != nil && c.s.closes != 1 {
			bad("the reader was closed %d times after the last Close", c.s.closes)
		}
	})
}

// lifecycle: Copy, Read and Close race; the reader is closed once, last.
func (r *Run) concLifecycle(kind string, n int, tags []string) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		src := concKinds[1+idx%5]
		c := mkConc(rng, src, 50+rng.IntN(200), pick(rng, 0, 0, 2, 5))
		if c.s != nil {
			c.s.spec.CloseErr = rng.IntN(2) == 0
		}
		gs := 2 + rng.IntN(7)
		shared := []body.Body{c.b}
		for i := rng.IntN(4); i > 0; i-- {
			d, err := c.b.Copy()
			if err != nil {
				r.Violate(tags, kind, idx, fmt.Sprintf("Copy: %v", err), nil)
				return
			}
			shared = append(shared, d)
		}
		seeds := make([]uint64, gs)
		for i := range seeds {
			seeds[i] = rng.Uint64()
		}
		type res struct {
			what string
			own  bool
			body int
			err  error
		}
		out := make([][]res, gs)
		leftover := make([][]body.Body, gs)
		iv := make([][]chunk, gs)
		panics := par(gs, func(g int) {
			lr := newRand(seeds[g])
			var mine []body.Body
			buf := make([]byte, 64)
			for k := 0; k < 10; k++ {
				i := lr.IntN(len(shared))
				b := shared[i]
				t0 := now()
				switch lr.IntN(7) {
				case 0, 1:
					d, err := b.Copy()
					out[g] = append(out[g], res{what: "copy", err: err})
					if err == nil {
						mine = append(mine, d)
					}
				case 2:
					_, err := b.Read(buf)
					out[g] = append(out[g], res{what: "read", err: err})
				case 3:
					if len(mine) > 0 {
						_, err := mine[len(mine)-1].Read(buf)
						out[g] = append(out[g], res{what: "read", err: err})
					}
				case 4:
					if len(mine) > 0 {
						err := mine[0].Close()
						mine = mine[1:]
						out[g] = append(out[g], res{what: "close", own: true, err: err})
					}
				case 5:
					_ = b.Unwrap()
					_ = b.BytesRemaining()
				case 6:
					if lr.IntN(3) == 0 {
						err := b.Close()
						out[g] = append(out[g], res{what: "close", body: i + 1, err: err})
					}
				}
				iv[g] = append(iv[g], chunk{g: g, t0: t0, t1: now()})
			}
			leftover[g] = mine
		})
		bad := func(f string, a ...any) {
			r.Violate(tags, kind, idx, fmt.Sprintf("%s body, %d goroutines: ", src, gs)+fmt.Sprintf(f, a...), nil)
		}
		if len(panics) > 0 {
			bad("%s", panics[0])
			return
		}
		var all []chunk
		for _, v := range iv {
			all = append(all, v...)
		}
		ov, sig := overlaps(all)
		r.Count("overlapping_calls", int64(ov))
		r.Eval(hash64(kind, sig), ov > 0)
		closeErrs, sharedClosed := 0, map[int]int{}
		note := func(err error) {
			if errors.Is(err, errInjClose) {
				closeErrs++
			}
		}
		for g := range out {
			for _, x := range out[g] {
				switch x.what {
				case "copy":
					if x.err != nil {
						bad("Copy failed: %v", x.err)
						return
					}
				case "read":
					if x.err != nil && x.err != io.EOF && !errors.Is(x.err, fs.ErrClosed) {
						bad("Read failed: %v", x.err)
						return
					}
				case "close":
					note(x.err)
					if x.err != nil && !errors.Is(x.err, errInjClose) && !(errors.Is(x.err, fs.ErrClosed)) {
						bad("Close failed: %v", x.err)
						return
					}
					if x.body > 0 && (x.err == nil || errors.Is(x.err, errInjClose)) {
						sharedClosed[x.body]++
						if sharedClosed[x.body] > 1 {
							bad("two Close calls of the same body both succeeded")
							return
						}
					}
					r.Count("closes", 1)
				}
			}
		}
		// quiescent: everything left is closed one after another
		var rest []body.Body
		for i, b := range shared {
			if sharedClosed[i+1] == 0 {
				rest = append(rest, b)
			}
		}
		for _, m := range leftover {
			for _, b := range m {
				if b != nil {
					rest = append(rest, b)
				}
			}
		}
		if c.s != nil && c.s.closes > 1 {
			bad("the reader was closed %d times", c.s.closes)
			return
		}
		for _, b := range rest {
			was := c.s.closes
			err := b.Close()
			if errors.Is(err, fs.ErrClosed) {
				continue // copy of an already closed body
			}
			if was > 0 {
				bad("the reader had been closed although an open body was left")
				return
			}
			note(err)
			if err != nil && !errors.Is(err, errInjClose) {
				bad("Close failed: %v", err)
				return
			}
		}
		if c.s.closes != 1 {
			bad("the reader was closed %d times once every body was closed", c.s.closes)
			return
		}
		if want := map[bool]int{true: 1, false: 0}[c.s.spec.CloseErr]; closeErrs != want {
			bad("the reader's close error was returned %d times, want %d", closeErrs, want)
			return
		}
		if len(c.s.afterClose) > 0 {
			bad("the reader was used after it had been closed: %v", c.s.afterClose)
		}
	})
}

// ---- small mixed histories checked by porcupine ----

type linIn struct {
	op     string
	body   int
	n      int
	off    int64
	whence int
}
type linOut struct {
	n    int64
	data string
	err  string // "", eof, closed, neg, other:...
}
type linState struct {
	cur    int64
	open   bool
	eof    bool
	closed bool
}

func classify(err error) string {
	var a body.NegativeStartOffsetSeekError
	var b body.NegativeComputedOffsetSeekError
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "eof"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.As(err, &a), errors.As(err, &b):
		return "neg"
	}
	return "other:" + err.Error()
}

func linModel(data []byte, unknown bool) porcupine.Model {
	end := int64(len(data))
	return porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			m := map[int][]porcupine.Operation{}
			for _, o := range h {
				b := o.Input.(linIn).body
				m[b] = append(m[b], o)
			}
			var out [][]porcupine.Operation
			for _, v := range m {
				out = append(out, v)
			}
			return out
		},
		Init: func() any { return linState{open: true} },
		Step: func(st, in, out any) (bool, any) {
			s, i, o := st.(linState), in.(linIn), out.(linOut)
			if !s.open {
				switch i.op {
				case "rem":
					return o.n == 0, s
				case "copy":
					return o.err == "" && o.n == -2, s
				case "unwrap":
					return o.n == 0, s
				}
				return o.err == "closed" && o.data == "", s
			}
			switch i.op {
			case "read", "writeto":
				if s.cur+o.n > end || string(data[s.cur:s.cur+o.n]) != o.data || i.op == "read" && o.n > int64(i.n) {
					return false, s
				}
				s.cur += o.n
				if o.err == "eof" || i.op == "writeto" && o.err == "" {
					s.eof = true
					return s.cur == end, s
				}
				return o.err == "", s
			case "readat":
				if i.off > end {
					return o.n == 0 && o.err == "eof" || i.n == 0, s
				}
				if i.off+o.n > end || string(data[i.off:i.off+o.n]) != o.data || o.n > int64(i.n) {
					return false, s
				}
				if o.err == "eof" {
					return i.off+o.n == end, s
				}
				return o.err == "" && o.n == int64(i.n), s
			case "rem":
				if o.n == -1 {
					return unknown && !s.eof, s
				}
				return o.n == end-s.cur, s
			case "seek":
				t := i.off
				switch i.whence {
				case io.SeekCurrent:
					t += s.cur
				case io.SeekEnd:
					t += end
				}
				if t < 0 {
					return o.err == "neg" && o.n == -1, s
				}
				if t > end {
					t = end
				}
				s.cur, s.eof = t, false
				return o.err == "" && o.n == t, s
			case "copy":
				return o.err == "" && o.n == s.cur, s
			case "unwrap":
				return o.n == 1, s
			case "close":
				s.open = false
				return o.err == "", s
			}
			return false, s
		},
		DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
	}
}

func (r *Run) concLinear(kind string, n int, tags []string, ops []string) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		src := concKinds[idx%6]
		words := 1 + rng.IntN(15)
		c := mkConc(rng, src, words, pick(rng, 0, 2, 4))
		// content: distinct bytes, so that bytes name their position
		for i := range c.data {
			c.data[i] = byte(i + 1)
		}
		end := int64(len(c.data))
		bodies := []body.Body{c.b}
		for i := rng.IntN(3); i > 0; i-- {
			d, err := c.b.Copy()
			if err != nil {
				return
			}
			bodies = append(bodies, d)
		}
		gs := 2 + rng.IntN(3)
		per := 3 + rng.IntN(4)
		plan := make([][]linIn, gs)
		for g := range plan {
			for k := 0; k < per; k++ {
				i := linIn{op: ops[rng.IntN(len(ops))], body: rng.IntN(len(bodies)), n: rng.IntN(int(end) + 2)}
				if rng.IntN(2) == 0 {
					i.n = 1 + rng.IntN(3)
				}
				if i.op == "close" && rng.IntN(2) == 0 {
					i.op = "read"
				}
				i.whence = rng.IntN(3)
				i.off = int64(rng.IntN(int(end)+3)) - 1
				if i.whence == io.SeekEnd && i.op == "seek" {
					i.off = -i.off
				}
				if i.op == "seek" && i.whence == io.SeekCurrent {
					i.off -= end / 2
				}
				if i.op == "readat" && i.off < 0 {
					i.off = 0
				}
				plan[g] = append(plan[g], i)
			}
		}
		hist := make([][]porcupine.Operation, gs)
		panics := par(gs, func(g int) {
			for _, i := range plan[g] {
				b := bodies[i.body]
				var o linOut
				t0 := now()
				var t1 int64
				switch i.op {
				case "read":
					p := make([]byte, i.n)
					m, err := b.Read(p)
					t1 = now()
					o = linOut{int64(m), string(p[:m]), classify(err)}
				case "readat":
					x, ok := b.(io.ReaderAt)
					if !ok {
						continue
					}
					p := make([]byte, i.n)
					m, err := x.ReadAt(p, i.off)
					t1 = now()
					o = linOut{int64(m), string(p[:m]), classify(err)}
				case "seek":
					x, ok := b.(io.Seeker)
					if !ok {
						continue
					}
					m, err := x.Seek(i.off, i.whence)
					t1 = now()
					o = linOut{m, "", classify(err)}
				case "writeto":
					x, ok := b.(io.WriterTo)
					if !ok {
						continue
					}
					d := &dst{limit: -1}
					m, err := x.WriteTo(d)
					t1 = now()
					o = linOut{m, string(d.got), classify(err)}
				case "rem":
					m := b.BytesRemaining()
					t1 = now()
					o = linOut{n: m}
				case "unwrap":
					u := b.Unwrap()
					t1 = now()
					if u != nil {
						o.n = 1
					}
				case "copy":
					d, err := b.Copy()
					t1 = now()
					o = linOut{err: classify(err)}
					if err == nil {
						// where does the copy stand?
						p := make([]byte, 1)
						var m int
						for k := 0; k < 100 && m == 0 && err == nil; k++ {
							m, err = d.Read(p)
						}
						switch {
						case m == 1:
							o.n = int64(p[0]) - 1
						case err == io.EOF:
							o.n = end
						case errors.Is(err, fs.ErrClosed):
							o.n = -2
						default:
							o.n = -3
						}
						d.Close()
					}
				case "close":
					err := b.Close()
					t1 = now()
					o.err = classify(err)
				}
				hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: i, Call: t0, Output: o, Return: t1})
			}
		})
		desc := func() string {
			return fmt.Sprintf("%s body of %d bytes, %d bodies, %d goroutines", src, end, len(bodies), gs)
		}
		if len(panics) > 0 {
			r.Violate(tags, kind, idx, desc()+": "+panics[0], nil)
			return
		}
		var all []porcupine.Operation
		var iv []chunk
		for g := range hist {
			for _, o := range hist[g] {
				all = append(all, o)
				iv = append(iv, chunk{g: g, t0: o.Call, t1: o.Return})
			}
		}
		r.Count("operations", int64(len(all)))
		ov, sig := overlaps(iv)
		r.Count("overlapping_calls", int64(ov))
		r.Eval(hash64(kind, sig, fmt.Sprint(plan)), ov > 0)
		model := linModel(c.data, c.unk)
		if c.kind == "bytes" {
			inner := model.Step
			model.Step = func(st, in, out any) (bool, any) {
				if in.(linIn).op == "unwrap" {
					return out.(linOut).n == 0, st
				}
				return inner(st, in, out)
			}
		}
		switch porcupine.CheckOperationsTimeout(model, all, 60*time.Second) {
		case porcupine.Illegal:
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			var lines []string
			for _, o := range all {
				lines = append(lines, fmt.Sprintf("[%d..%d] g%d %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
			}
			r.Violate(tags, kind, idx, desc()+": no sequential order explains the observed results", lines)
		case porcupine.Unknown:
			r.Inconclusive("linearizability check of %s:%d timed out", kind, idx)
		default:
			r.Count("histories_linearized", 1)
		}
		for _, b := range bodies {
			b.Close()
		}
		if c.s != nil && c.s.closes != 1 {
			r.Violate(append([]string{"B04"}, tags...), kind, idx, desc()+fmt.Sprintf(": the reader was closed %d times", c.s.closes), nil)
		}
	})
}

// concShort: a source that ends before its declared length, met by reads of
// one goroutine while others ask what remains. Each answer is that of one
// moment: what the declaration leaves at some position, or nothing once the
// end has been met.
func (r *Run) concShort(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		real := 1 + rng.IntN(40)
		decl := int64(real + pick(rng, 1, 5, 1000))
		sp := srcSpec{Len: real, FailAt: -1, Seed: rng.Uint64()>>12 | 1, Close: true, UseLen: true, Declared: decl, EOFData: rng.IntN(2) == 0}
		name := "buffered"
		switch idx % 3 {
		case 0:
			sp.At, name = true, "readerat"
		case 1:
			sp.Seek, name = true, "seeker"
		}
		s := newSrc(sp)
		s.lite, s.budget, s.stallEvery = true, 1<<40, pick(rng, 0, 1, 2)
		b, err := body.FromReaderAndLength(s.reader(), decl)
		if err != nil {
			r.Bad(kind, idx, "%v", err)
			return
		}
		s.inCtor = false
		type step struct {
			t0, t1, pos int64
			eof         bool
		}
		steps := []step{{t1: 0}}
		type ask struct{ t0, t1, n int64 }
		gs := 2 + rng.IntN(3)
		asks := make([][]ask, gs)
		closeAtEnd := rng.IntN(3) == 0
		size := 1 + rng.IntN(real+4)
		var stop atomic.Bool
		var prob string
		panics := par(gs, func(g int) {
			if g > 0 {
				for k := 0; k < 4000 && !stop.Load() || k < 2; k++ {
					t0 := now()
					m := b.BytesRemaining()
					asks[g] = append(asks[g], ask{t0, now(), m})
				}
				return
			}
			defer stop.Store(true)
			p := make([]byte, size)
			for k := 0; k < 1000; k++ {
				t0 := now()
				m, err := b.Read(p)
				t1 := now()
				steps = append(steps, step{t0, t1, steps[len(steps)-1].pos + int64(m), err != nil})
				if err != nil {
					break
				}
			}
			if closeAtEnd {
				t0 := now()
				if err := b.Close(); err != nil {
					prob = err.Error()
				}
				steps = append(steps, step{t0, now(), steps[len(steps)-1].pos, true})
			}
		})
		if len(panics) > 0 {
			prob = panics[0]
		}
		var iv []chunk
		for _, x := range steps[1:] {
			iv = append(iv, chunk{g: 0, t0: x.t0, t1: x.t1})
		}
		for g := range asks {
			for _, a := range asks[g] {
				iv = append(iv, chunk{g: g, t0: a.t0, t1: a.t1})
				ok := false
				for i, x := range steps {
					// the state after step i lasts from its start, at the
					// earliest, to the end of the next step
					if x.t0 > a.t1 || i+1 < len(steps) && steps[i+1].t1 < a.t0 {
						continue
					}
					// a buffered body may know the end before it is met
					ok = ok || a.n == decl-x.pos || x.eof && a.n == 0 || name == "buffered" && a.n == int64(real)-x.pos
				}
				if !ok && prob == "" {
					prob = fmt.Sprintf("BytesRemaining returned %d during [%d..%d]; the reads were %+v", a.n, a.t0, a.t1, steps)
				}
			}
		}
		ov, sig := overlaps(iv)
		r.Count("overlapping_calls", int64(ov))
		r.Count("remaining_asked", int64(len(iv)-len(steps)+1))
		r.Eval(hash64(kind, idx, sig), ov > 0)
		if prob != "" {
			r.Violate([]string{"B10"}, kind, idx, fmt.Sprintf("%s body over %d bytes declared as %d: %s", name, real, decl, prob), nil)
		}
		if !closeAtEnd {
			b.Close()
		}
	})
}

func (r *Run) remConcurrent() {
	r.concPartition("conc-rem", r.N(300, 3000), []string{"B03", "B10"})
	r.concLinear("conc-rem-lin", r.N(1500, 15000), []string{"B03", "B10"}, []string{"read", "rem", "rem", "rem", "seek", "writeto", "close"})
}

func (r *Run) closeRaces() {
	r.concLifecycle("conc-lifecycle", r.N(2000, 20000), []string{"B04", "B10"})
}

func init() {
	checks["B10"] = func(r *Run) {
		r.Rule(concRule)
		r.Assume("One monotonic clock orders calls of different goroutines; the race detector sees every access of the library and of the instrumented readers.")
		allOps := []string{"read", "read", "rem", "seek", "readat", "writeto", "copy", "close", "unwrap"}
		for round := 0; round < r.N(1, 4); round++ {
			for _, gmp := range []int{8, 2, 4, 1} {
				runtime.GOMAXPROCS(gmp)
				r.concPartition(fmt.Sprintf("partition-p%d-%d", gmp, round), r.N(240, 800), []string{"B10"})
				r.concCopies(fmt.Sprintf("copies-p%d-%d", gmp, round), r.N(140, 500), []string{"B10", "B02"})
				r.concLifecycle(fmt.Sprintf("lifecycle-p%d-%d", gmp, round), r.N(700, 3000), []string{"B10", "B04"})
				r.concLinear(fmt.Sprintf("linear-p%d-%d", gmp, round), r.N(900, 4000), []string{"B10"}, allOps)
				r.concShort(fmt.Sprintf("short-p%d-%d", gmp, round), r.N(500, 2000))
				r.concLinear(fmt.Sprintf("linear-ro-p%d-%d", gmp, round), r.N(400, 2000), []string{"B10"}, []string{"read", "readat", "seek", "copy", "rem"})
			}
		}
	}
}
