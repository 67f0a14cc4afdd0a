package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"github.com/chronos-tachyon/morehttp/body"
)

const bodyRule = "A case is one history of calls on a family of bodies (original plus copies) over one known byte string, generated from (seed, kind, index) or enumerated exhaustively; the monitor predicts every result from one cursor per body. Non-trivial: at least two calls, and bytes moved, a copy, a seek or a close happened. Distinct by source kind, fault plan and trace of (operation, position)."

const bodyAssume = "Readers obey the io.Reader, io.ReaderAt, io.Seeker and fs.File contracts (short, empty and scratch-using reads included); their advertised or declared length is not larger than what they deliver, except where the case says so."

// capConfigs lists readers of every capability combination.
func capConfigs(n int, f func(*srcSpec)) []bcase {
	var out []bcase
	for m := 0; m < 16; m++ {
		sp := srcSpec{Len: n, Stat: m&8 != 0, Seek: m&4 != 0, At: m&2 != 0, Close: m&1 != 0, FailAt: -1, Declared: -1, Seed: uint64(m + 1)}
		if sp.Stat && !sp.Close {
			continue
		}
		if f != nil {
			f(&sp)
		}
		out = append(out, bcase{Ctor: "reader", Spec: sp})
	}
	return out
}

// kindConfigs lists one source per kind of body.
func kindConfigs(n int, f func(*srcSpec)) []bcase {
	base := srcSpec{Len: n, FailAt: -1, Declared: -1, Seed: 99}
	at, seek, fwd, fwdLen := base, base, base, base
	at.At, at.Stat, at.Close = true, true, true
	seek.Seek, seek.Close = true, true
	fwd.Close = true
	fwdLen.Close, fwdLen.UseLen, fwdLen.Declared = true, true, int64(n)
	out := []bcase{
		{Ctor: "bytes", Spec: base},
		{Ctor: "empty", Spec: srcSpec{FailAt: -1, Declared: -1}},
		{Ctor: "reader", Spec: at}, {Ctor: "reader", Spec: seek}, {Ctor: "reader", Spec: fwd}, {Ctor: "reader", Spec: fwdLen},
	}
	if f != nil {
		for i := range out {
			if out[i].Ctor == "reader" {
				f(&out[i].Spec)
			}
		}
	}
	return out
}

func (r *Run) bodyCases(kind string, n int, p *profile) {
	if raceEnabled { // a few only: single-threaded histories have no races
		n = n/200 + 1
	}
	r.Cases(kind, n, func(rng *randT, idx int) {
		r.runBodyCase(kind, idx, genCase(rng, p))
	})
}

func w(read, drain, rem, seek, readat, writeto, cp, cl, unwrap int) map[string]int {
	return map[string]int{"read": read, "drain": drain, "rem": rem, "seek": seek, "readat": readat, "writeto": writeto, "copy": cp, "close": cl, "unwrap": unwrap}
}

// dirCase adopts a directory: it has a size, but reading from it fails.
func (r *Run) dirCase(rng *randT, idx int) {
	dir, err := os.MkdirTemp("", "verif-dir")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.Remove(dir)
	f, err := os.Open(dir)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() <= 0 {
		return // nothing to read
	}
	var b body.Body
	if idx%2 == 0 {
		b, err = body.FromReader(f)
	} else {
		b, err = body.FromReaderAndLength(f, 5)
	}
	r.Eval(hash64("directory", idx), true)
	if err != nil {
		return
	}
	r.Count("directories_adopted", 1)
	c, err := b.Copy()
	if err != nil {
		r.Violate([]string{"B02"}, "directory", idx, fmt.Sprintf("Copy: %v", err), nil)
		return
	}
	for i, x := range []body.Body{b, c} {
		got, err := io.ReadAll(x)
		if len(got) > 0 || err == nil {
			r.Violate([]string{"B06"}, "directory", idx, fmt.Sprintf("body %d over a directory, which cannot be read, gives %d bytes and a clean end-of-stream", i, len(got)), nil)
		}
		if err := x.Close(); err != nil {
			r.Violate([]string{"B04", "B06"}, "directory", idx, fmt.Sprintf("Close of body %d: %v", i, err), nil)
		}
	}
	if _, err := f.Stat(); !errors.Is(err, fs.ErrClosed) {
		r.Violate([]string{"B04", "B06"}, "directory", idx, "the file is open after the last Close", nil)
	}
}

// pipeCase streams the read end of an operating-system pipe: an *os.File that
// offers Stat, Seek and ReadAt but can only be read forwards.
func (r *Run) pipeCase(rng *randT, idx int) {
	d := content(1+rng.IntN(3000), rng.Uint64()|1, false)
	pr, pw, err := os.Pipe()
	if err != nil {
		r.Inconclusive("os.Pipe: %v", err)
		return
	}
	go func() {
		pw.Write(d)
		pw.Close()
	}()
	key := "ospipe-undeclared"
	var b body.Body
	if idx%2 == 0 {
		b, err = body.FromReader(pr)
	} else {
		key = "ospipe-declared"
		b, err = body.FromReaderAndLength(pr, int64(len(d)))
	}
	r.Eval(hash64("ospipe", idx, len(d)), true)
	if err != nil {
		// refusing such a reader is not streaming it wrongly
		r.Count("pipes_refused", 1)
		pr.Close()
		return
	}
	defer b.Close()
	got, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(got, d) {
		detail := fmt.Sprintf("the read end of an os.Pipe holding %d bytes streams %d bytes, error %v", len(d), len(got), err)
		if len(got) == 0 && (key == "ospipe-undeclared" && err == nil || key == "ospipe-declared" && errors.Is(err, syscall.ESPIPE)) {
			r.Finding(key, "ospipe", idx, detail, nil)
		} else {
			r.Bad("ospipe", idx, "%s", detail)
		}
		return
	}
	r.Count("pipes_streamed", 1)
}

func init() {
	reg := func(id string, f func(r *Run)) {
		checks[id] = func(r *Run) {
			r.Rule(bodyRule)
			r.Assume(bodyAssume)
			f(r)
		}
	}

	reg("B01", func(r *Run) {
		al := []op{{K: "read", N: 1}, {K: "read", N: 2}, {K: "read", N: 3}, {K: "read", N: 0}, {K: "read", N: 9}}
		tail := []op{{K: "drain", N: 2}, {K: "read", N: 1}, {K: "read", N: 3}}
		for _, n := range []int{0, 1, 3, 5} {
			for v := 0; v < 4; v++ {
				v := v
				cf := capConfigs(n, func(s *srcSpec) {
					s.Frag = []int{0, 1, 2, 2}[v]
					s.EOFData = v&1 == 1
					s.Empty = []int{0, 0, 2, 3}[v]
					s.Scratch = v == 3
				})
				cf = append(cf, bcase{Ctor: "bytes", Spec: srcSpec{Len: n, FailAt: -1, Declared: -1}})
				for d := 0; d <= n; d++ {
					d := d
					cf = append(cf, capConfigs(n, func(s *srcSpec) {
						s.UseLen, s.Declared = true, int64(d)
						s.Frag = []int{0, 2, 1, 2}[v]
						s.EOFData = v&2 == 2
					})...)
				}
				r.enumerate(fmt.Sprintf("enum-len%d-v%d", n, v), cf, al, r.N(2, 3), tail)
			}
		}
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .12, std: .3, declared: .3, maxOps: 12, w: w(10, 3, 1, 0, 0, 0, 1, 0, 0), finalize: true})
		r.bodyCases("mixed", r.N(20000, 200000), &profile{mem: .12, std: .3, declared: .3, maxOps: 20, w: w(10, 3, 1, 2, 2, 2, 2, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2500, 20000), &profile{mem: .1, std: .25, declared: .3, big: 1, maxOps: 8, w: w(10, 2, 1, 0, 0, 0, 1, 0, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .25, std: .15, declared: .3, huge: true, maxOps: 10, w: w(10, 2, 1, 0, 0, 0, 1, 0, 0), finalize: true})
		r.Cases("ospipe", 8, r.pipeCase)
		r.Cases("stream", r.N(24, 120), func(rng *randT, idx int) {
			c := genCase(rng, &profile{maxOps: 1, w: w(1, 0, 0, 0, 0, 0, 0, 0, 0)})
			c.Spec.Len = 1<<20 + rng.IntN(4<<20)
			c.Spec.Frag = pick(rng, 0, 2, 1000, 4096, 70000)
			c.Spec.UseLen = false
			c.Ops = []op{{K: "drain", N: pick(rng, 1000, 4096, 32768, 65536, 65537, 100003, 1<<20)}, {K: "rem"}, {K: "read", N: 1}, {K: "closeall"}}
			r.runBodyCase("stream", idx, c)
		})
	})

	reg("B02", func(r *Run) {
		// every interleaving of a few calls on an original and two copies
		al := []op{{K: "copy"}, {K: "copy", Body: 1}, {K: "read", N: 2}, {K: "read", Body: 1, N: 3}, {K: "read", Body: 2, N: 1}, {K: "close"}, {K: "close", Body: 1}, {K: "seek", Body: 1}, {K: "writeto", Body: 1, Dst: "plain"}}
		tail := []op{{K: "rem"}, {K: "rem", Body: 1}, {K: "rem", Body: 2}, {K: "drain", Body: 1, N: 2}, {K: "drain", N: 3}, {K: "drain", Body: 2, N: 1}, {K: "closeall"}}
		r.enumerate("enum", kindConfigs(5, nil), al, r.N(4, 5), tail)
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .12, std: .2, declared: .2, maxOps: 24, w: w(10, 2, 2, 4, 3, 2, 6, 4, 0), finalize: true})
		r.bodyCases("faulty", r.N(15000, 100000), &profile{declared: .2, fault: 1, seekFault: .1, maxOps: 24, w: w(10, 2, 1, 4, 3, 2, 6, 4, 0), finalize: true})
		r.bodyCases("block", r.N(2500, 20000), &profile{mem: .1, std: .1, declared: .2, big: 1, maxOps: 20, w: w(10, 2, 1, 3, 2, 1, 5, 3, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .25, std: .15, declared: .3, huge: true, maxOps: 10, w: w(10, 2, 1, 3, 2, 1, 5, 3, 0), finalize: true})
		r.bodyCases("many", r.N(2500, 20000), &profile{std: .1, declared: .2, maxOps: 120, w: w(14, 1, 1, 1, 1, 1, 6, 4, 0), finalize: true})
		r.concCopies("conc-copies", r.N(240, 2000), []string{"B02", "B10"})
	})

	reg("B03", func(r *Run) {
		al := []op{{K: "read", N: 1}, {K: "read", N: 3}, {K: "read", N: 0}, {K: "read", N: 9}, {K: "seek", Off: 4}, {K: "seek", Off: -1, Whence: 2}, {K: "copy"}, {K: "writeto", Dst: "plain"}, {K: "readat", N: 3, Off: 4}}
		// interleave a remaining-count query after every call
		for _, n := range []int{0, 5} {
			for _, cf := range kindConfigs(n, nil) {
				cf := cf
				kind := fmt.Sprintf("enum-%s-%d-%v%v%v", cf.Ctor, n, cf.Spec.At, cf.Spec.Seek, cf.Spec.UseLen)
				total := 9 * 9 * 9
				if raceEnabled {
					continue
				}
				r.Cases(kind, total, func(_ *randT, idx int) {
					c := cf
					x := idx
					for i := 0; i < 3; i++ {
						c.Ops = append(c.Ops[:len(c.Ops):len(c.Ops)], al[x%9], op{K: "rem"}, op{K: "rem", Body: 1})
						x /= 9
					}
					c.Ops = append(c.Ops, op{K: "drain", N: 2}, op{K: "rem"}, op{K: "close"}, op{K: "rem"}, op{K: "rem", Body: 1})
					r.Count("enumerated_histories", 1)
					r.runBodyCase(kind, idx, &c)
				})
			}
		}
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .12, std: .25, declared: .4, maxOps: 20, w: w(8, 2, 10, 3, 2, 2, 2, 2, 0), finalize: true})
		r.bodyCases("faulty", r.N(12000, 100000), &profile{declared: .3, fault: 1, maxOps: 16, w: w(8, 2, 10, 3, 2, 2, 2, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2500, 20000), &profile{mem: .1, std: .2, declared: .4, big: 1, maxOps: 12, w: w(8, 1, 8, 3, 2, 1, 2, 1, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .25, std: .15, declared: .3, huge: true, maxOps: 10, w: w(8, 1, 8, 3, 2, 1, 2, 1, 0), finalize: true})
		r.remConcurrent()
	})

	reg("B04", func(r *Run) {
		al := []op{{K: "copy"}, {K: "copy", Body: 1}, {K: "close"}, {K: "close", Body: 1}, {K: "close", Body: 2}, {K: "read", N: 3}, {K: "read", Body: 1, N: 99}}
		tail := []op{{K: "closeall"}, {K: "close"}, {K: "read", N: 1}, {K: "copy"}, {K: "rem"}, {K: "seek", Off: 0}, {K: "readat", N: 1}, {K: "writeto", Dst: "plain"}, {K: "close", Body: 1}}
		for _, ce := range []bool{false, true} {
			ce := ce
			r.enumerate(fmt.Sprintf("enum-closeerr-%v", ce), kindConfigs(4, func(s *srcSpec) { s.CloseErr = ce })[2:], al, r.N(4, 6), tail)
		}
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .02, std: .1, declared: .2, fault: .1, maxOps: 30, w: w(4, 1, 1, 1, 1, 1, 8, 8, 1), finalize: true})
		r.bodyCases("early", r.N(20000, 100000), &profile{declared: .2, maxOps: 10, w: w(3, 1, 1, 1, 1, 1, 6, 12, 1), finalize: true})
		r.bodyCases("block", r.N(1000, 10000), &profile{declared: .2, big: 1, maxOps: 20, w: w(6, 2, 1, 1, 1, 1, 5, 5, 1), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .1, std: .15, declared: .3, huge: true, maxOps: 10, w: w(6, 2, 1, 1, 1, 1, 5, 5, 1), finalize: true})
		r.closeRaces()
	})

	reg("B05", func(r *Run) {
		al := []op{{K: "read", N: 2}, {K: "read", N: 0}, {K: "readat", N: 2, Off: 1}, {K: "readat", N: 2, Off: -1}, {K: "seek", Off: 1}, {K: "seek", Off: -1}, {K: "seek", Off: 0, Whence: 9}, {K: "writeto", Dst: "plain"}, {K: "writeto", Dst: "plain", N: 1}, {K: "copy"}, {K: "close"}, {K: "rem"}, {K: "unwrap"}, {K: "read", Body: 1, N: 1}, {K: "unwrap", Body: 1}}
		cf := append(kindConfigs(4, nil), bcase{Ctor: "closed", Spec: srcSpec{FailAt: -1, Declared: -1}})
		tail := []op{{K: "close"}, {K: "read", N: 2}, {K: "seek"}, {K: "readat", N: 1}, {K: "writeto", Dst: "plain"}, {K: "rem"}, {K: "unwrap"}, {K: "close"}, {K: "copy"}, {K: "drain", Body: 1, N: 2}, {K: "unwrap", Body: 1}}
		r.enumerate("enum", cf, al, r.N(3, 4), tail)
		r.bodyCases("small", r.N(50000, 400000), &profile{mem: .2, std: .2, declared: .2, maxOps: 24, w: w(5, 1, 3, 4, 3, 3, 4, 9, 4), finalize: true})
		r.bodyCases("block", r.N(800, 10000), &profile{mem: .1, declared: .2, big: 1, maxOps: 20, w: w(5, 1, 3, 4, 3, 3, 4, 6, 4), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .1, std: .15, declared: .3, huge: true, maxOps: 10, w: w(5, 1, 3, 4, 3, 3, 4, 6, 4), finalize: true})
	})

	reg("B06", func(r *Run) {
		r.Cases("directory", 4, r.dirCase)
		// a failure at every position of a short source
		al := []op{{K: "read", N: 2}, {K: "read", N: 9}, {K: "seek"}, {K: "copy"}, {K: "read", Body: 1, N: 3}, {K: "readat", N: 4, Off: 1}, {K: "writeto", Dst: "plain"}}
		tail := []op{{K: "drain", N: 2}, {K: "seek"}, {K: "drain", N: 3}, {K: "drain", Body: 1, N: 2}, {K: "seek", Body: 1}, {K: "drain", Body: 1, N: 4}}
		for at := 0; at <= 4; at++ {
			for v := 0; v < 4; v++ {
				at, v := at, v
				cf := kindConfigs(4, func(s *srcSpec) {
					s.FailAt, s.FailN, s.FailData, s.Frag = at, []int{-1, 1, 1, 2}[v], v&1 == 1, []int{0, 0, 2, 1}[v]
				})[2:]
				r.enumerate(fmt.Sprintf("enum-at%d-v%d", at, v), cf, al, r.N(2, 4), tail)
			}
		}
		r.bodyCases("small", r.N(60000, 400000), &profile{declared: .25, fault: 1, seekFault: .15, maxOps: 16, w: w(10, 3, 1, 4, 3, 3, 3, 1, 0), finalize: true})
		r.bodyCases("seekfault", r.N(15000, 100000), &profile{declared: .2, fault: .2, seekFault: 1, needSeek: true, maxOps: 16, w: w(10, 3, 1, 4, 3, 3, 3, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2000, 20000), &profile{declared: .25, fault: 1, big: 1, maxOps: 12, w: w(10, 2, 1, 3, 2, 2, 3, 1, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: 0, std: .15, declared: .3, huge: true, fault: 1, maxOps: 10, w: w(10, 2, 1, 3, 2, 2, 3, 1, 0), finalize: true})
	})

	reg("B07", func(r *Run) {
		var al []op
		for wh := 0; wh <= 2; wh++ {
			for _, off := range []int64{-7, -2, 0, 2, 4, 9} {
				al = append(al, op{K: "seek", Off: off, Whence: wh})
			}
		}
		al = append(al, op{K: "seek", Whence: 3}, op{K: "read", N: 2}, op{K: "read", N: 9}, op{K: "copy"}, op{K: "seek", Body: 1, Off: 1})
		tail := []op{{K: "rem"}, {K: "read", N: 1}, {K: "seek", Off: 0, Whence: 1}, {K: "drain", N: 2}, {K: "drain", N: 3, Body: 1}}
		r.enumerate("enum", kindConfigs(4, nil)[:4], al, r.N(3, 4), tail)
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .25, std: .2, declared: .2, needSeek: true, maxOps: 20, w: w(8, 2, 2, 14, 2, 2, 3, 1, 0), finalize: true})
		r.bodyCases("faulty", r.N(10000, 100000), &profile{fault: 1, needSeek: true, maxOps: 16, w: w(8, 2, 1, 10, 2, 2, 3, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2500, 20000), &profile{mem: .25, std: .2, declared: .2, big: 1, needSeek: true, maxOps: 16, w: w(8, 1, 2, 10, 2, 2, 2, 1, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .25, std: .15, declared: .3, huge: true, needSeek: true, maxOps: 10, w: w(8, 1, 2, 10, 2, 2, 2, 1, 0), finalize: true})
	})

	reg("B08", func(r *Run) {
		var al []op
		for _, off := range []int64{-1, 0, 2, 3, 4, 5, 77} {
			for _, n := range []int{0, 1, 3, 9} {
				al = append(al, op{K: "readat", N: n, Off: off})
			}
		}
		al = append(al, op{K: "read", N: 2}, op{K: "read", N: 9}, op{K: "copy"}, op{K: "seek", Off: 1}, op{K: "readat", Body: 1, N: 2, Off: 1})
		tail := []op{{K: "rem"}, {K: "rem", Body: 1}, {K: "drain", N: 2}, {K: "drain", N: 2, Body: 1}}
		for v := 0; v < 3; v++ {
			v := v
			r.enumerate(fmt.Sprintf("enum-v%d", v), kindConfigs(4, func(s *srcSpec) { s.Frag = v; s.EOFData = v == 1; s.Empty = []int{0, 0, 3}[v] })[:4], al, r.N(2, 3), tail)
		}
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .25, std: .2, declared: .2, needSeek: true, maxOps: 20, w: w(6, 1, 2, 3, 16, 1, 3, 1, 0), finalize: true})
		r.bodyCases("faulty", r.N(15000, 100000), &profile{fault: 1, seekFault: .2, needSeek: true, maxOps: 16, w: w(4, 1, 1, 3, 12, 1, 3, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2500, 20000), &profile{mem: .25, std: .2, declared: .2, big: 1, needSeek: true, maxOps: 16, w: w(5, 1, 1, 3, 10, 1, 2, 1, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .25, std: .15, declared: .3, huge: true, needSeek: true, maxOps: 10, w: w(5, 1, 1, 3, 10, 1, 2, 1, 0), finalize: true})
	})

	reg("B09", func(r *Run) {
		al := []op{{K: "read", N: 2}, {K: "read", N: 9}, {K: "seek", Off: 1}, {K: "copy"}, {K: "writeto", Dst: "plain"}, {K: "writeto", Dst: "plain", N: 1}, {K: "writeto", Dst: "from"}, {K: "writeto", Body: 1, Dst: "plain"}}
		for n := 0; n <= 4; n++ {
			al = append(al, op{K: "writeto", Dst: "fail", N: n}, op{K: "writeto", Dst: "short", N: n}, op{K: "writeto", Dst: "late", N: n})
		}
		tail := []op{{K: "rem"}, {K: "writeto", Dst: "plain"}, {K: "rem"}, {K: "read", N: 1}, {K: "drain", Body: 1, N: 2}}
		r.enumerate("enum", kindConfigs(4, nil), al, r.N(3, 4), tail)
		r.bodyCases("small", r.N(60000, 400000), &profile{mem: .5, std: .2, declared: .2, maxOps: 14, failDst: .5, w: w(4, 1, 2, 2, 1, 12, 2, 1, 0), finalize: true})
		r.bodyCases("reader", r.N(20000, 100000), &profile{std: .3, declared: .2, fault: .3, maxOps: 14, w: w(4, 1, 2, 2, 1, 12, 2, 1, 0), finalize: true})
		r.bodyCases("block", r.N(2500, 20000), &profile{mem: .5, std: .2, declared: .2, big: 1, failDst: .5, maxOps: 10, w: w(3, 1, 1, 2, 1, 8, 2, 1, 0), finalize: true})
		r.bodyCases("huge", r.N(64, 1500), &profile{mem: .5, std: .15, declared: .3, huge: true, failDst: .5, maxOps: 10, w: w(3, 1, 1, 2, 1, 8, 2, 1, 0), finalize: true})
	})
}
