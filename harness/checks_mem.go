package main

import (
	"fmt"
	"io"
	"runtime"
	"sync"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
)

// flow is a forward-only source of unlimited pattern data that allocates
// nothing.
type flow struct {
	n     int64 // total length
	pos   int64
	frag  int
	done  bool
	extra []byte // gives the reader a weight that can be seen on the heap
}

func patAt(p int64) byte { return byte(p) ^ byte(p>>8)*31 ^ byte(p>>16)*17 ^ byte(p>>24) }

func (f *flow) Read(p []byte) (int, error) {
	n := len(p)
	if f.frag > 0 && n > f.frag {
		n = f.frag
	}
	if int64(n) > f.n-f.pos {
		n = int(f.n - f.pos)
	}
	for i := 0; i < n; {
		if (f.pos+int64(i))&0xff == 0 && n-i >= 256 {
			hi := patAt(f.pos + int64(i))
			q := p[i : i+256]
			for k := range q {
				q[k] = hi ^ byte(k)
			}
			i += 256
			continue
		}
		p[i] = patAt(f.pos + int64(i))
		i++
	}
	f.pos += int64(n)
	if f.pos == f.n && n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *flow) Close() error { f.done = true; return nil }

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

const mib = 1 << 20

type mb struct {
	b   body.Body
	pos int64
}

// advance reads k bytes from m in reads of size; the content is checked.
func advance(m *mb, k int64, buf []byte) string {
	for k > 0 {
		q := buf
		if int64(len(q)) > k {
			q = q[:k]
		}
		n, err := m.b.Read(q)
		if err != nil {
			return fmt.Sprintf("Read at %d: %v", m.pos, err)
		}
		for i := 0; i < n; i++ {
			if i == 32 && n > 64 {
				i = n - 32
			}
			if q[i] != patAt(m.pos+int64(i)) {
				return fmt.Sprintf("wrong byte at %d", m.pos+int64(i))
			}
		}
		m.pos += int64(n)
		k -= int64(n)
	}
	return ""
}

func init() {
	checks["B11"] = func(r *Run) {
		r.Rule("A case streams tens of megabytes from an unlimited forward-only source through a family of bodies under a random script (advance, copy, close, lag); heap in use after forced collections is compared with the distance between the slowest open copy and the furthest any copy has read, plus a fixed allowance. Non-trivial: at least 8 MiB streamed. Distinct by script.")
		r.Assume("Allowance: 3 MiB plus four times the largest read for read-ahead and buffer slack; read-ahead at most 1 MiB plus the largest read. The stream is advanced by 512 KiB before a measurement, as the property allows reclaiming to happen as the stream goes on.")
		buf := make([]byte, mib)
		sizes := []int{4096, 10000, 32768, 65536, 65537, 200000, mib}
		script := func(rng *randT, idx int, declared bool) {
			size := sizes[rng.IntN(len(sizes))]
			f := &flow{n: 1 << 40, frag: pick(rng, 0, 0, 1000, 65536, 5000)}
			base := heap()
			var b body.Body
			var err error
			if declared {
				b, err = body.FromReaderAndLength(f, 1<<40)
			} else {
				b, err = body.FromReader(struct{ io.ReadCloser }{f})
			}
			if err != nil {
				r.Bad("script", idx, "cannot adopt: %v", err)
				return
			}
			ms := []*mb{{b: b}}
			var closed []body.Body
			var streamed, maxGap, maxUsed, top int64
			var sig []byte
			steps := 12 + rng.IntN(25)
			fastest := func() *mb {
				x := ms[0]
				for _, m := range ms {
					if m.pos > x.pos {
						x = m
					}
				}
				return x
			}
			adv := func(m *mb, k int64) bool {
				if s := advance(m, k, buf[:size]); s != "" {
					r.Violate([]string{"B01", "B02"}, "script", idx, s, nil)
					return false
				}
				if m.pos > top {
					streamed += m.pos - top
					top = m.pos
				}
				if ahead := f.pos - top; ahead > mib+int64(size) {
					r.Bad("script", idx, "the source has delivered %d bytes but no copy has read beyond %d: read ahead %d with reads of %d", f.pos, top, ahead, size)
					return false
				}
				return true
			}
			for k := 0; k < steps; k++ {
				switch x := rng.IntN(10); {
				case x < 4:
					m := ms[rng.IntN(len(ms))]
					if !adv(m, int64(rng.IntN(6*mib))) {
						return
					}
					sig = append(sig, 'a')
				case x < 6 && len(ms) < 6:
					m := ms[rng.IntN(len(ms))]
					nb, err := m.b.Copy()
					if err != nil {
						r.Bad("script", idx, "Copy: %v", err)
						return
					}
					ms = append(ms, &mb{nb, m.pos})
					sig = append(sig, 'c')
				case x < 8 && len(ms) > 1:
					i := rng.IntN(len(ms))
					if err := ms[i].b.Close(); err != nil {
						r.Bad("script", idx, "Close: %v", err)
						return
					}
					closed = append(closed, ms[i].b)
					ms = append(ms[:i], ms[i+1:]...)
					sig = append(sig, 'x')
				case x < 9:
					// the laggards catch up
					top := fastest().pos
					for _, m := range ms {
						if rng.IntN(3) > 0 && !adv(m, top-m.pos) {
							return
						}
					}
					sig = append(sig, 'u')
				default:
					for _, m := range ms {
						m.b.BytesRemaining()
						if _, err := m.b.Read(nil); err != nil {
							r.Bad("script", idx, "empty Read: %v", err)
							return
						}
					}
				}
				step()
				// measure
				slow := ms[0].pos
				for _, m := range ms {
					slow = min(slow, m.pos)
				}
				if top-slow > 16*mib {
					// keep the buffer, and thus the quadratic copying, small
					for _, m := range ms {
						if m.pos < top-8*mib && !adv(m, top-8*mib-m.pos) {
							return
						}
					}
				}
				if m := fastest(); !adv(m, top-m.pos+512<<10) {
					return
				}
				slow = ms[0].pos
				for _, m := range ms {
					slow = min(slow, m.pos)
				}
				gap := top - slow
				used := heap() - base
				limit := gap + 3*mib + 4*int64(size)
				maxGap, maxUsed = max(maxGap, gap), max(maxUsed, used-gap)
				r.Count("heap_measurements", 1)
				if used > limit {
					r.Bad("script", idx, "after streaming %d bytes with %d open copies %d bytes apart the heap holds %d bytes more than at the start (script %s)", streamed, len(ms), gap, used, sig)
					return
				}
			}
			r.Max("distance_between_copies", maxGap)
			r.Max("heap_beyond_distance", maxUsed)
			r.Count("bytes_streamed", streamed)
			r.Eval(hash64(sig, size, f.frag), streamed > 8*mib)
			r.Sample(map[string]any{"script": string(sig), "read_size": size, "streamed": streamed, "max_heap_beyond_distance": maxUsed})
			for _, m := range ms {
				if err := m.b.Close(); err != nil {
					r.Bad("script", idx, "Close: %v", err)
				}
				closed = append(closed, m.b)
			}
			if !f.done && !declared {
				r.Violate([]string{"B04"}, "script", idx, "the source was not closed", nil)
			}
			if used := heap() - base; used > mib/2 {
				r.Bad("script", idx, "after the last Close the heap still holds %d bytes more than at the start (script %s)", used, sig)
			}
			runtime.KeepAlive(closed)
		}
		r.Cases("script", r.N(70, 700), func(rng *randT, idx int) { script(rng, idx, false) })
		r.Cases("declared", r.N(20, 200), func(rng *randT, idx int) { script(rng, idx, true) })
		// one body, long stream
		r.Cases("long", r.N(10, 40), func(rng *randT, idx int) {
			size := sizes[idx%len(sizes)]
			total := int64(r.N(128, 1024)) * mib
			f := &flow{n: total, frag: pick(rng, 0, 1000, 70000)}
			base := heap()
			b, err := body.FromReader(f)
			if err != nil {
				r.Bad("long", idx, "cannot adopt: %v", err)
				return
			}
			m := &mb{b: b}
			var worst int64
			for m.pos < total {
				k := min(total-m.pos, 16*mib)
				if s := advance(m, k, buf[:size]); s != "" {
					r.Violate([]string{"B01"}, "long", idx, s, nil)
					return
				}
				step()
				used := heap() - base
				worst = max(worst, used)
				if used > 3*mib+4*int64(size) {
					r.Bad("long", idx, "single body after %d bytes in reads of %d: heap grew by %d bytes", m.pos, size, used)
					return
				}
				if ahead := f.pos - m.pos; ahead > mib+int64(size) {
					r.Bad("long", idx, "read ahead %d bytes with reads of %d", ahead, size)
					return
				}
			}
			if n, err := m.b.Read(buf[:10]); n != 0 || err != io.EOF {
				r.Violate([]string{"B01"}, "long", idx, fmt.Sprintf("at the end Read returned (%d, %v)", n, err), nil)
			}
			r.Count("bytes_streamed", total)
			r.Max("heap_beyond_distance", worst)
			b.Close()
			r.Eval(hash64("long", size, f.frag), true)
		})
		// declared lengths of all magnitudes: what is ahead stays bounded all
		// the way to the end, and nothing is fetched before it is asked for
		r.Cases("ahead", r.N(120, 1200), func(rng *randT, idx int) {
			total := int64(1) << (10 + idx%17)
			total += rng.Int64N(total)
			size := sizes[rng.IntN(5)]
			f := &flow{n: total, frag: pick(rng, 0, 0, 1000, 70000)}
			base := heap()
			var b body.Body
			var err error
			declared := rng.IntN(4) > 0
			if declared {
				b, err = body.FromReaderAndLength(f, total)
			} else {
				b, err = body.FromReader(f)
			}
			if err != nil {
				r.Bad("ahead", idx, "cannot adopt: %v", err)
				return
			}
			m := &mb{b: b}
			for s := 0; m.pos < total; s++ {
				k := min(total-m.pos, 1+rng.Int64N(1+total/7))
				if s == 0 {
					k = min(k, int64(1+rng.IntN(100)))
				}
				if msg := advance(m, k, buf[:size]); msg != "" {
					r.Violate([]string{"B01"}, "ahead", idx, msg, nil)
					return
				}
				step()
				if ahead := f.pos - m.pos; ahead > mib+int64(size) {
					r.Bad("ahead", idx, "%d of %d bytes read (declared: %v) in reads of %d, yet the source has delivered %d", m.pos, total, declared, size, f.pos)
					return
				}
				if s < 4 {
					if used := heap() - base; used > 3*mib+4*int64(size) {
						r.Bad("ahead", idx, "%d of %d bytes read (declared: %v) in reads of %d: the heap grew by %d bytes", m.pos, total, declared, size, used)
						return
					}
				}
			}
			if n, err := m.b.Read(buf[:10]); n != 0 || err != io.EOF {
				r.Violate([]string{"B01"}, "ahead", idx, fmt.Sprintf("at the end Read returned (%d, %v)", n, err), nil)
			}
			r.Count("bytes_streamed", total)
			b.Close()
			r.Eval(hash64("ahead", size, f.frag, total, declared), true)
		})
		// a copy that is created early and lags, then advances or is closed
		r.Cases("lag", r.N(16, 80), func(rng *randT, idx int) {
			size := sizes[rng.IntN(len(sizes)-1)]
			f := &flow{n: 1 << 40}
			base := heap()
			b, _ := body.FromReader(f)
			m := &mb{b: b}
			if s := advance(m, int64(rng.IntN(200000)), buf[:size]); s != "" {
				r.Violate([]string{"B01"}, "lag", idx, s, nil)
				return
			}
			lag := int64(4+rng.IntN(20)) * mib
			var ls []*mb
			for i := 0; i <= rng.IntN(3); i++ {
				c, _ := b.Copy()
				ls = append(ls, &mb{c, m.pos})
			}
			if s := advance(m, lag, buf[:max(size, 100000)]); s != "" {
				r.Violate([]string{"B01"}, "lag", idx, s, nil)
				return
			}
			for i, l := range ls {
				if (idx+i)%2 == 0 {
					l.b.Close()
				} else if s := advance(l, lag, buf[:size]); s != "" {
					r.Violate([]string{"B02"}, "lag", idx, s, nil)
					return
				}
			}
			if s := advance(m, 512<<10, buf[:size]); s != "" {
				r.Violate([]string{"B01"}, "lag", idx, s, nil)
				return
			}
			step()
			if used := heap() - base; used > 3*mib+4*int64(size) {
				r.Bad("lag", idx, "a lag of %d bytes was made up or closed, the stream went on, yet the heap holds %d bytes more than at the start", lag, used)
			}
			r.Eval(hash64("lag", size, lag, len(ls)), true)
			for i, l := range ls {
				if (idx+i)%2 != 0 {
					l.b.Close()
				}
			}
			b.Close()
			if used := heap() - base; used > mib/2 {
				r.Bad("lag", idx, "after the last Close the heap still holds %d bytes", used)
			}
			runtime.KeepAlive(b)
			runtime.KeepAlive(ls)
		})
		// copies streamed by several goroutines
		r.Cases("parallel", r.N(12, 60), func(rng *randT, idx int) {
			f := &flow{n: 1 << 40}
			base := heap()
			b, _ := body.FromReader(f)
			ms := []*mb{{b: b}}
			for i := 0; i < 3; i++ {
				c, _ := b.Copy()
				ms = append(ms, &mb{c, 0})
			}
			size := 30000 + rng.IntN(60000)
			for round := 0; round < 4; round++ {
				errs := make([]string, len(ms))
				var wg sync.WaitGroup
				for i := range ms {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						errs[i] = advance(ms[i], 4*mib, make([]byte, size))
					}(i)
				}
				wg.Wait()
				step()
				for _, e := range errs {
					if e != "" {
						r.Violate([]string{"B02", "B10"}, "parallel", idx, e, nil)
						return
					}
				}
				for _, m := range ms {
					if e := advance(m, 256<<10, buf[:size]); e != "" {
						r.Violate([]string{"B02"}, "parallel", idx, e, nil)
						return
					}
				}
				if used := heap() - base; used > 4*mib {
					r.Bad("parallel", idx, "all four copies are at %d, yet the heap holds %d bytes more than at the start", ms[0].pos, used)
					return
				}
			}
			r.Eval(hash64("parallel", size), true)
			for _, m := range ms {
				m.b.Close()
			}
		})
		// after the last Close the reader itself is released
		r.Cases("release", r.N(40, 200), func(rng *randT, idx int) {
			f := &flow{n: 1 << 20, extra: make([]byte, 1000)}
			freed := make(chan struct{})
			runtime.SetFinalizer(f, func(*flow) { close(freed) })
			b, _ := body.FromReader(f)
			f = nil
			bs := []body.Body{b}
			for i := rng.IntN(4); i > 0; i-- {
				c, _ := bs[rng.IntN(len(bs))].Copy()
				bs = append(bs, c)
				io.CopyN(io.Discard, bs[rng.IntN(len(bs))], int64(rng.IntN(200000)))
			}
			rng.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
			for _, x := range bs {
				x.Close()
			}
			ok := false
			for i := 0; i < 400 && !ok; i++ {
				runtime.GC()
				select {
				case <-freed:
					ok = true
				case <-time.After(5 * time.Millisecond):
				}
			}
			if !ok {
				r.Bad("release", idx, "after the last of %d bodies was closed the reader is still reachable from them", len(bs))
			}
			runtime.KeepAlive(bs)
			r.Count("readers_released", 1)
			r.Eval(hash64("release", idx), true)
		})
	}
}
