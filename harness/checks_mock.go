package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	mr "github.com/chronos-tachyon/morehttp/internal/mockreader"
)

// mstep is one scripted or actual call.
type mstep struct {
	Op   string
	N    int   // buffer length
	Off  int64 // ReadAt, Seek
	Wh   int
	Str  string
	data []byte
	out  int64
	fi   fs.FileInfo
	stat mr.FileInfo // what fi is scripted to say
	err  error
}

func (s mstep) String() string {
	switch s.Op {
	case "Read":
		return fmt.Sprintf("Read(%d)", s.N)
	case "ReadAt":
		return fmt.Sprintf("ReadAt(%d,%d)", s.N, s.Off)
	case "Seek":
		return fmt.Sprintf("Seek(%d,%d)", s.Off, s.Wh)
	case "Mark":
		return fmt.Sprintf("Mark(%q)", s.Str)
	}
	return s.Op
}

func (s mstep) same(o mstep) bool {
	return s.Op == o.Op && s.N == o.N && s.Off == o.Off && s.Wh == o.Wh && s.Str == o.Str
}

var mockErrs = []error{nil, nil, nil, io.EOF, io.ErrUnexpectedEOF, fs.ErrClosed, errInjRead, errors.New("other")}

func genStep(rng *randT, ops []string) mstep {
	s := mstep{Op: ops[rng.IntN(len(ops))], err: mockErrs[rng.IntN(len(mockErrs))]}
	switch s.Op {
	case "Read", "ReadAt":
		s.N = pick(rng, 0, 1, 2, 8, rng.IntN(40))
		s.data = content(s.N, rng.Uint64()|1, false)
		s.out = int64(rng.IntN(s.N + 1))
		if s.Op == "ReadAt" {
			s.Off = pick(rng, 0, 1, -1, 7, math.MaxInt64, math.MinInt64, rng.Int64N(100))
		}
	case "Seek":
		s.Off, s.Wh = pick(rng, 0, 1, -1, math.MaxInt64, rng.Int64N(100)), pick(rng, 0, 1, 2, 2, 3, -1)
		s.out = pick(rng, 0, -1, rng.Int64N(1000), math.MaxInt64)
	case "Stat":
		if rng.IntN(3) > 0 {
			s.stat = mr.FileInfo{NameValue: pick(rng, "f", "", "dir/é", "."), SizeValue: pick(rng, 0, -1, math.MaxInt64, rng.Int64N(100)), ModeValue: pick(rng, fs.FileMode(0), 0o644, 0o4755, fs.ModeDir|0o755, fs.ModeNamedPipe, fs.ModeSymlink, fs.ModeIrregular), ModTimeValue: time.Unix(rng.Int64N(1<<33), rng.Int64N(1e9))}
			fi := s.stat
			s.fi = &fi
		}
	case "Mark":
		s.Str = pick(rng, "", "a", "b", "é\"q")
		s.err = nil
	}
	return s
}

func (s mstep) expectation() mr.Expectation {
	switch s.Op {
	case "Read":
		return mr.ExpectRead(s.data, int(s.out), s.err)
	case "ReadAt":
		return mr.ExpectReadAt(s.data, s.Off, int(s.out), s.err)
	case "Seek":
		return mr.ExpectSeek(s.Off, s.Wh, s.out, s.err)
	case "Stat":
		return mr.ExpectStat(s.fi, s.err)
	case "Close":
		return mr.ExpectClose(s.err)
	}
	return mr.ExpectMark(s.Str)
}

// call performs a on x and says how its results differ from the script's step.
func (a mstep) call(x any, m *mr.MockReader, want mstep) (diff string) {
	switch a.Op {
	case "Read", "ReadAt":
		p := bytes.Repeat([]byte{0xA5}, a.N)
		var n int
		var err error
		if a.Op == "Read" {
			n, err = x.(io.Reader).Read(p)
		} else {
			n, err = x.(io.ReaderAt).ReadAt(p, a.Off)
		}
		if n != int(want.out) || err != want.err {
			return fmt.Sprintf("returned %d, %v, scripted %d, %v", n, err, want.out, want.err)
		}
		if !bytes.Equal(p[:n], want.data[:n]) {
			return fmt.Sprintf("gave the bytes %x, scripted %x", p[:n], want.data[:n])
		}
		for _, b := range p[n:] {
			if b != 0xA5 {
				return "wrote behind the bytes it reported"
			}
		}
	case "Seek":
		n, err := x.(io.Seeker).Seek(a.Off, a.Wh)
		if n != want.out || err != want.err {
			return fmt.Sprintf("returned %d, %v, scripted %d, %v", n, err, want.out, want.err)
		}
	case "Stat":
		fi, err := x.(interface{ Stat() (fs.FileInfo, error) }).Stat()
		if fi != want.fi || err != want.err {
			return fmt.Sprintf("returned %v, %v, scripted %v, %v", fi, err, want.fi, want.err)
		}
		if w := want.stat; want.fi != nil && (fi.Name() != w.NameValue || fi.Size() != w.SizeValue || fi.Mode() != w.ModeValue || !fi.ModTime().Equal(w.ModTimeValue) || fi.IsDir() != w.ModeValue.IsDir() || fi.Sys() != nil) {
			return fmt.Sprintf("returned the file information %q %d %v %v %v %v, scripted %+v", fi.Name(), fi.Size(), fi.Mode(), fi.ModTime(), fi.IsDir(), fi.Sys(), w)
		}
	case "Close":
		if err := x.(io.Closer).Close(); err != want.err {
			return fmt.Sprintf("returned %v, scripted %v", err, want.err)
		}
	case "Mark":
		m.Mark(a.Str)
	}
	return ""
}

type mockWrap struct {
	name string
	mk   func(*mr.MockReader) any
	ops  []string
}

var mockWraps = []mockWrap{
	{"direct", func(m *mr.MockReader) any { return m }, []string{"Read", "ReadAt", "Seek", "Stat", "Close", "Mark"}},
	{"000", func(m *mr.MockReader) any { return mr.Wrapper000{Inner: m} }, []string{"Read", "Close", "Mark"}},
	{"001", func(m *mr.MockReader) any { return mr.Wrapper001{Inner: m} }, []string{"Read", "Close", "Mark", "ReadAt"}},
	{"010", func(m *mr.MockReader) any { return mr.Wrapper010{Inner: m} }, []string{"Read", "Close", "Mark", "Seek"}},
	{"011", func(m *mr.MockReader) any { return mr.Wrapper011{Inner: m} }, []string{"Read", "Close", "Mark", "Seek", "ReadAt"}},
	{"100", func(m *mr.MockReader) any { return mr.Wrapper100{Inner: m} }, []string{"Read", "Close", "Mark", "Stat"}},
	{"101", func(m *mr.MockReader) any { return mr.Wrapper101{Inner: m} }, []string{"Read", "Close", "Mark", "Stat", "ReadAt"}},
	{"110", func(m *mr.MockReader) any { return mr.Wrapper110{Inner: m} }, []string{"Read", "Close", "Mark", "Stat", "Seek"}},
	{"111", func(m *mr.MockReader) any { return mr.Wrapper111{Inner: m} }, []string{"Read", "Close", "Mark", "Stat", "Seek", "ReadAt"}},
}

func (r *Run) mockScripts(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		wr := mockWraps[idx%len(mockWraps)]
		var script []mstep
		var exps []mr.Expectation
		for k := rng.IntN(10); k > 0; k-- {
			s := genStep(rng, wr.ops)
			script = append(script, s)
			exps = append(exps, s.expectation())
		}
		m := mr.New(exps...)
		x := wr.mk(m)
		devAt := -1
		if rng.IntN(3) > 0 {
			devAt = rng.IntN(len(script) + 1)
		}
		desc := fmt.Sprintf("wrapper %s, script %v", wr.name, script)
		bad := func(f string, a ...any) { r.Bad(kind, idx, "%s: %s", desc, fmt.Sprintf(f, a...)) }
		r.Eval(hash64(desc, devAt), len(script) > 0)
		if len(script) > 0 && len(script) < 4 {
			r.Sample(map[string]any{"wrapper": wr.name, "script": fmt.Sprint(script), "deviates_at": devAt})
		}
		for i := 0; i <= len(script); i++ {
			step()
			if i == devAt || i == len(script) {
				// a call the script does not have here
				a := genStep(rng, wr.ops)
				if i < len(script) {
					switch rng.IntN(3) {
					case 0: // the same call with one argument changed
						a = script[i]
						switch a.Op {
						case "Read":
							a.N++
						case "ReadAt":
							if rng.IntN(2) == 0 && a.N > 0 {
								a.N--
							} else {
								a.Off ^= 1
							}
						case "Seek":
							if rng.IntN(2) == 0 {
								a.Off ^= 1 << uint(rng.IntN(63))
							} else {
								a.Wh++
							}
						case "Mark":
							a.Str += "x"
						default:
							a = genStep(rng, wr.ops)
						}
					case 1: // a later call of the script
						if j := i + 1 + rng.IntN(len(script)-i); j < len(script) {
							a = script[j]
						}
					}
					if a.same(script[i]) {
						// equal after all: it must be accepted
						if d := a.check(x, m, script[i]); d != "" {
							bad("step %d, %v: %s", i, a, d)
							return
						}
						continue
					}
				}
				msg, v := guard(func() { a.call(x, m, mstep{data: make([]byte, 1000)}) })
				if msg == "" {
					bad("call %d, %v, is not in the script there but was accepted", i, a)
					return
				}
				e, ok := v.(mr.ExpectationFailedError)
				if !ok {
					if p, ok2 := v.(*mr.ExpectationFailedError); ok2 && p != nil {
						e, ok = *p, true
					}
				}
				if !ok {
					bad("call %d, %v, panicked with %T: %s", i, a, v, msg)
					return
				}
				text := ""
				if m2, _ := guard(func() { text = e.Error() }); m2 != "" || !strings.Contains(text, fmt.Sprint(i)) || e.Index != uint(i) {
					bad("call %d, %v: the error identifies step %d (%s%s)", i, a, e.Index, text, m2)
					return
				}
				r.Count("deviations_refused", 1)
				return
			}
			if d := script[i].check(x, m, script[i]); d != "" {
				bad("step %d, %v: %s", i, script[i], d)
				return
			}
			r.Count("steps_accepted", 1)
		}
	})
}

// check performs a call the script allows.
func (a mstep) check(x any, m *mr.MockReader, want mstep) string {
	d := ""
	if msg, v := guard(func() { d = a.call(x, m, want) }); msg != "" {
		return fmt.Sprintf("%T %s", v, msg)
	}
	return d
}

func (r *Run) mockConcurrent(kind string, n int) {
	r.Cases(kind, n, func(rng *randT, idx int) {
		wr := mockWraps[idx%len(mockWraps)]
		steps := 1 + rng.IntN(400)
		extra := rng.IntN(20)
		var exps []mr.Expectation
		for i := 0; i < steps; i++ {
			p := []byte{byte(i), byte(i >> 8), 7}
			exps = append(exps, mr.ExpectRead(p, 2+i%2, nil))
		}
		m := mr.New(exps...)
		x := wr.mk(m).(io.Reader)
		gs := 2 + rng.IntN(7)
		got := make([][]int, gs)
		var beyond [16]int
		total := steps + extra
		prob := make([]string, gs)
		par(gs, func(g int) {
			last := -1
			for k := g; k < total; k += gs {
				p := make([]byte, 3)
				var nn int
				var err error
				msg, v := guard(func() { nn, err = x.Read(p) })
				if msg != "" {
					e, ok := v.(mr.ExpectationFailedError)
					if !ok || e.Index != uint(steps) {
						prob[g] = fmt.Sprintf("panic %T %s", v, msg)
						return
					}
					beyond[g]++
					continue
				}
				i := int(p[0]) | int(p[1])<<8
				if err != nil || nn != 2+i%2 || i <= last {
					prob[g] = fmt.Sprintf("step %d after step %d returned %d, %v", i, last, nn, err)
					return
				}
				last = i
				got[g] = append(got[g], i)
			}
		})
		var all []int
		nb := 0
		sw := 0
		for g := range got {
			if prob[g] != "" {
				r.Bad(kind, idx, "%d goroutines, %d steps: %s", gs, steps, prob[g])
				return
			}
			all = append(all, got[g]...)
			nb += beyond[g]
			for i := 1; i < len(got[g]); i++ {
				if got[g][i] != got[g][i-1]+1 {
					sw++
				}
			}
		}
		sort.Ints(all)
		for i, v := range all {
			if v != i {
				r.Bad(kind, idx, "%d goroutines: step %d was handed out %s", gs, min(i, v), map[bool]string{true: "twice", false: "never"}[v < i])
				return
			}
		}
		if len(all) != steps || nb != extra {
			r.Bad(kind, idx, "%d of %d steps handed out, %d of %d calls refused", len(all), steps, nb, extra)
		}
		r.Count("steps_handed_out_concurrently", int64(len(all)))
		r.Count("interleaved_handovers", int64(sw))
		r.Eval(hash64(kind, fmt.Sprint(got)), sw > 0)
	})
}

func (r *Run) mockWrappers() {
	r.Cases("interfaces", len(mockWraps), func(_ *randT, idx int) {
		wr := mockWraps[idx]
		x := wr.mk(mr.New())
		want := map[string]bool{}
		for _, o := range wr.ops {
			want[o] = true
		}
		delete(want, "Mark")
		_, isAt := x.(io.ReaderAt)
		_, isSeek := x.(io.Seeker)
		_, isStat := x.(fs.File)
		_, isClose := x.(io.Closer)
		_, isRead := x.(io.Reader)
		got := map[string]bool{}
		for k, v := range map[string]bool{"ReadAt": isAt, "Seek": isSeek, "Stat": isStat, "Close": isClose, "Read": isRead} {
			if v {
				got[k] = true
			}
		}
		if !reflect.DeepEqual(got, want) {
			r.Bad("interfaces", idx, "wrapper %s offers %v, want %v", wr.name, got, want)
		}
		if _, ok := x.(io.WriterTo); ok {
			r.Bad("interfaces", idx, "wrapper %s offers WriteTo", wr.name)
		}
		r.Eval(hash64("interfaces", idx), true)
	})
}

func init() {
	checks["M01"] = func(r *Run) {
		r.Rule("Random scripts of up to 9 steps played through the reader or one of its eight wrappers, exactly or with one deviating call (argument off by one, another step, beyond the end); and scripts of up to 400 distinct steps drained by 2-8 goroutines at once, also under the race detector. Distinct by script and deviation, or by the hand-out order observed; non-trivial with a step, or when goroutines interleaved.")
		r.Assume("The reader is not used further after a refused call.")
		d := 1
		if raceEnabled {
			d = 10
		}
		r.mockWrappers()
		r.mockScripts("scripts", r.N(90000, 900000)/d)
		r.mockConcurrent("concurrent", r.N(3000, 30000)/d)
	}
}
