package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
)

// profile biases the generated histories towards one property.
type profile struct {
	mem, std  float64 // probability of an in-memory / standard-library source
	fault     float64
	seekFault float64
	declared  float64
	big       float64
	maxOps    int
	w         map[string]int
	finalize  bool // drain some bodies and close everything at the end
	needSeek  bool // prefer sources that give seekable bodies
	failDst   float64
	huge      bool // sources of one to several megabytes
}

var edgeLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 63, 64, 100, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097}
var bigLens = []int{32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600, 98304, 131071, 131072, 131073, 196608, 200001}

type randT = rand.Rand

func newRand(seed uint64) *randT { return rand.New(rand.NewPCG(seed, 11)) }

func pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.IntN(len(xs))] }

func chance(rng *rand.Rand, p float64) bool { return rng.Float64() < p }

func genLen(rng *rand.Rand, big float64) int {
	if chance(rng, big) {
		return pick(rng, bigLens...)
	}
	if chance(rng, 0.5) {
		return rng.IntN(12)
	}
	if chance(rng, 0.3) {
		return rng.IntN(3000)
	}
	return pick(rng, edgeLens...)
}

func genSpec(rng *rand.Rand, p *profile) srcSpec {
	sp := srcSpec{Len: genLen(rng, p.big), FailAt: -1, Declared: -1, Seed: rng.Uint64()>>12 | 1}
	if p.huge {
		sp.Len = hugeLen(rng)
	}
	m := rng.IntN(16)
	if p.needSeek && m&6 == 0 {
		m |= 4
	}
	sp.Stat, sp.Seek, sp.At, sp.Close = m&8 != 0, m&4 != 0, m&2 != 0, m&1 != 0
	if sp.Stat {
		sp.Close = true
	}
	sp.Frag = pick(rng, 0, 0, 0, 1, 2, 2, 3, 7, 1000)
	if sp.Len > 20000 && sp.Frag > 0 && sp.Frag < 8 {
		sp.Frag = pick(rng, 0, 2, 1000, 4096, 65536)
	}
	sp.Empty = pick(rng, 0, 0, 0, 2, 3, 5, 0, 0, 0, 2, 3, pick(rng, -2, -4, -12))
	if p.huge && sp.Empty < 0 {
		sp.Empty = 3
	}
	if sp.Empty < -2 && sp.Len > 4000 {
		sp.Empty = -2
	}
	sp.EOFData = rng.IntN(2) == 0
	sp.More = rng.IntN(3) == 0
	if rng.IntN(3) == 0 {
		sp.Start = pick(rng, 1, sp.Len, rng.IntN(sp.Len+1), sp.Len/2, sp.Len+3)
	}
	sp.Scratch = rng.IntN(3) == 0
	sp.CloseErr = rng.IntN(4) == 0
	if chance(rng, p.declared) {
		sp.UseLen = true
		switch rng.IntN(8) {
		case 0, 1, 2:
			sp.Declared = int64(sp.Len)
		case 3, 4:
			sp.Declared = int64(rng.IntN(sp.Len + 1))
		case 5:
			sp.Declared = int64(sp.Len + 1 + rng.IntN(70000))
		case 6:
			sp.Declared = -1
		case 7:
			sp.Declared = pick[int64](rng, -2, -7, -1<<40, math.MinInt64, 0)
		}
	}
	if chance(rng, p.fault) {
		sp.FailAt = pick(rng, 0, sp.Len, rng.IntN(sp.Len+1), rng.IntN(sp.Len+1), rng.IntN(sp.Len+1))
		sp.FailN = pick(rng, -1, 1, 1, 2, 3)
		sp.FailData = rng.IntN(2) == 0
	}
	if sp.Seek && chance(rng, p.seekFault) {
		sp.FailSeek = 1 + rng.IntN(6)
	}
	if (sp.CloseErr || sp.FailAt >= 0 || sp.FailSeek > 0) && sp.Declared <= int64(sp.Len) {
		sp.ErrK = genErrK(rng)
	}
	return sp
}

func genSize(rng *rand.Rand, n int) int {
	switch rng.IntN(10) {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 3:
		return n
	case 4:
		return n + 1 + rng.IntN(3)
	case 5:
		if n > 1 {
			return n - 1
		}
		return 2
	case 6:
		if n > 30000 {
			return pick(rng, 65535, 65536, 65537, 131072, 32768)
		}
		return 5 + rng.IntN(60)
	case 7:
		return 1 + rng.IntN(n+1)
	default:
		if n > 2000 {
			return 1 + rng.IntN(n/2)
		}
		return 1 + rng.IntN(8)
	}
}

func genOff(rng *rand.Rand, n int) int64 {
	switch rng.IntN(12) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return int64(n)
	case 3:
		return int64(n) + 1
	case 4:
		return int64(n) - 1
	case 5:
		return -int64(n)
	case 6:
		return -int64(n) - 1
	case 7:
		return pick[int64](rng, 1<<62, 1<<40, 1<<32+5, 1<<31, -1<<31, -1<<40, -1<<62)
	default:
		return int64(rng.IntN(2*n+2)) - int64(n/4)
	}
}

func genOps(rng *rand.Rand, p *profile, n int) []op {
	total := 0
	keys := []string{"read", "drain", "rem", "seek", "readat", "writeto", "copy", "close", "unwrap"}
	for _, k := range keys {
		total += p.w[k]
	}
	cnt := 1 + rng.IntN(p.maxOps)
	if rng.IntN(20) == 0 {
		cnt *= 4
	}
	var ops []op
	for i := 0; i < cnt; i++ {
		x := rng.IntN(total)
		k := ""
		for _, kk := range keys {
			if x < p.w[kk] {
				k = kk
				break
			}
			x -= p.w[kk]
		}
		o := op{K: k, Body: rng.IntN(12)}
		if rng.IntN(2) == 0 {
			o.Body = rng.IntN(3)
		}
		switch k {
		case "read":
			o.N = genSize(rng, n)
		case "drain":
			o.N = genSize(rng, n)
			if n > 3000 && o.N < n/500 {
				o.N = n/500 + rng.IntN(5000)
			}
		case "seek":
			o.Whence = pick(rng, 0, 1, 2, 0, 1, 2, 0, 1, 2, 3, -1, 42)
			o.Off = genOff(rng, n)
			if rng.IntN(20) == 0 {
				o.Off = pick[int64](rng, math.MaxInt64, math.MinInt64, math.MaxInt64-int64(n), math.MaxInt64-1, math.MinInt64+1)
			}
		case "readat":
			o.N = genSize(rng, n)
			o.Off = genOff(rng, n)
			if rng.IntN(30) == 0 {
				o.Off = pick[int64](rng, math.MaxInt64, math.MinInt64, math.MaxInt64-3)
			}
		case "writeto":
			o.Dst = pick(rng, "plain", "from")
			if chance(rng, p.failDst) {
				o.Dst = pick(rng, "fail", "short", "late")
			}
			o.N = rng.IntN(n + 2)
		}
		ops = append(ops, o)
	}
	if p.finalize {
		for i := rng.IntN(3); i >= 0; i-- {
			o := op{K: "drain", Body: rng.IntN(12), N: genSize(rng, n)}
			if n > 3000 && o.N < n/500 {
				o.N = n/500 + rng.IntN(5000)
			}
			ops = append(ops, o, op{K: "rem", Body: o.Body})
		}
		ops = append(ops, op{K: "closeall", N: rng.IntN(5)})
		if rng.IntN(3) == 0 {
			ops = append(ops, op{K: pick(rng, "read", "close", "rem", "copy", "unwrap"), Body: rng.IntN(5), N: 1})
		}
	}
	return ops
}

func genCase(rng *rand.Rand, p *profile) *bcase {
	c := &bcase{Ctor: "reader"}
	c.Spec = genSpec(rng, p)
	switch x := rng.Float64(); {
	case x < p.mem:
		c.Ctor = pick(rng, "bytes", "bytes", "bytes", "string", "empty", "closed")
		if c.Ctor == "empty" || c.Ctor == "closed" {
			c.Spec.Len = 0
		}
		c.Spec = srcSpec{Len: c.Spec.Len, Seed: c.Spec.Seed, FailAt: -1, Declared: -1}
	case x < p.mem+p.std:
		c.Ctor = "std:" + pick(rng, stdNames...)
		for c.Ctor == "std:file" && rng.IntN(5) > 0 {
			c.Ctor = "std:" + pick(rng, stdNames...)
		}
		d, u := c.Spec.Declared, c.Spec.UseLen
		if d > int64(c.Spec.Len) {
			d = int64(c.Spec.Len)
		}
		c.Spec = srcSpec{Len: c.Spec.Len, Seed: c.Spec.Seed, FailAt: -1, Declared: d, UseLen: u || strings.HasPrefix(c.Ctor, "std:body-")}
	}
	if c.Ctor == "closed" {
		c.Spec.Len = 0
	}
	c.Ops = genOps(rng, p, c.Spec.Len)
	return c
}

// runBodyCase executes one history under all monitors and reports.
func (r *Run) runBodyCase(kind string, idx int, c *bcase) {
	st := map[string]int64{}
	e, d := runCase(c, st)
	for k, v := range st {
		r.Count(k, v)
	}
	r.Count("histories", 1)
	r.Count("operations", int64(len(c.Ops)))
	r.Max("bodies_in_one_family", int64(len(e.bodies)))
	r.Max("source_bytes", int64(c.Spec.Len))
	r.Count("ctor_"+c.Ctor, 1)
	if e.raised() > 0 {
		r.Count("histories_with_reader_failure", 1)
	}
	nontrivial := len(c.Ops) >= 2 && (e.moved > 0 || len(e.bodies) > 1 || st["seeks"] > 0 || st["closes"] > 0)
	r.Eval(hash64(c.Ctor, fmt.Sprint(c.Spec.Len, c.Spec.Stat, c.Spec.Seek, c.Spec.At, c.Spec.Close, c.Spec.Frag, c.Spec.FailAt, c.Spec.FailN, c.Spec.Declared), string(e.trace)), nontrivial)
	if r.WantSample() && len(c.Ops) >= 3 && len(c.Ops) < 12 {
		r.Sample(c)
	}
	if d == nil {
		return
	}
	r.mu.Lock()
	nf := 0
	for _, v := range r.foreign {
		nf += int(v)
	}
	r.mu.Unlock()
	if nf > 300 {
		// a defect of another property dominates; do not spend time on
		// histories that cannot concern this one
		own := false
		for _, t := range attribute(c, d) {
			own = own || t == r.Prop
		}
		if !own || nf > 2000 {
			r.Violate([]string{"other"}, kind, idx, d.detail, nil)
			return
		}
	}
	mc, md := shrink(c, d)
	tags := attribute(mc, md)
	r.Violate(tags, kind, idx, fmt.Sprintf("[%s] %s (after %d operations, minimal history of %d)", strings.Join(tags, ","), md.detail, md.opIndex+1, len(mc.Ops)), map[string]any{"minimal": mc, "deviating_operation": md.opIndex})
}

// enumerate runs every history of exactly depth operations over the alphabet,
// followed by tail, for every configuration.
func (r *Run) enumerate(kind string, configs []bcase, alphabet []op, depth int, tail []op) {
	if raceEnabled { // the sequential histories belong to the plain build
		return
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(alphabet)
	}
	for ci := range configs {
		kk := fmt.Sprintf("%s-%d", kind, ci)
		cfg := configs[ci]
		r.Cases(kk, total, func(_ *rand.Rand, idx int) {
			ops := make([]op, 0, depth+len(tail))
			x := idx
			for i := 0; i < depth; i++ {
				ops = append(ops, alphabet[x%len(alphabet)])
				x /= len(alphabet)
			}
			ops = append(ops, tail...)
			c := cfg
			c.Ops = ops
			r.Count("enumerated_histories", 1)
			r.runBodyCase(kk, idx, &c)
		})
	}
}

// genEdge makes histories that move exactly: onto multiples of a unit, onto
// the cursor of another body, onto the end, and one byte to either side, with
// every remaining count asked for in between.
func genEdge(rng *rand.Rand, faulty bool) *bcase {
	unit := pick(rng, 1, 16, 512, 1024, 4096, 8192, 16384, 32768, 65536, 65536, 65536, 131072)
	n := max(0, unit*rng.IntN(1+min(6, 400000/unit))+pick(rng, -1, 0, 0, 0, 1))
	c := &bcase{Ctor: "reader", Spec: srcSpec{Len: n, FailAt: -1, Declared: -1, Seed: rng.Uint64(), Close: rng.IntN(2) == 0, EOFData: rng.IntN(2) == 0, Frag: pick(rng, 0, 0, 2, unit, max(3, unit/2), 70000)}}
	switch rng.IntN(6) {
	case 0:
		c.Spec.Seek, c.Spec.Stat = true, rng.IntN(2) == 0
	case 1:
		c.Spec.At, c.Spec.Seek = true, rng.IntN(2) == 0
		if !c.Spec.Seek {
			c.Spec.UseLen, c.Spec.Declared = true, int64(n)
		}
	}
	if c.Spec.Stat {
		c.Spec.Close = true
	}
	if rng.IntN(3) == 0 {
		c.Spec.UseLen = true
		c.Spec.Declared = int64(pick(rng, n, n, max(0, n-1), n/2, min(n, unit), min(n, 2*unit)))
	}
	if faulty && n > 0 {
		c.Spec.FailAt = min(n, max(0, unit*rng.IntN(6)+pick(rng, -1, 0, 0, 1)))
		c.Spec.FailN = pick(rng, -1, -1, 1, 2)
		c.Spec.FailData = rng.IntN(2) == 0
		c.Spec.ErrK = genErrK(rng)
	}
	cur := []int{0}
	open := []bool{true}
	for k := 3 + rng.IntN(12); k > 0; k-- {
		i := rng.IntN(len(cur))
		switch x := rng.IntN(10); {
		case x < 2 && len(cur) < 5:
			c.Ops = append(c.Ops, op{K: "copy", Body: i})
			if open[i] {
				cur, open = append(cur, cur[i]), append(open, true)
			} else {
				cur, open = append(cur, 0), append(open, false)
			}
		case x == 2 && len(cur) > 1:
			c.Ops = append(c.Ops, op{K: "close", Body: i})
			open[i] = false
		default:
			to := (cur[i]/unit+1+pick(rng, 0, 0, 0, 1, 2))*unit + pick(rng, 0, 0, 0, 0, -1, 1)
			switch rng.IntN(4) {
			case 0:
				to = cur[rng.IntN(len(cur))] + pick(rng, 0, 0, 0, -1, 1)
			case 1:
				if rng.IntN(3) == 0 {
					to = n + pick(rng, 0, 0, -1, 1)
				}
			}
			if to < cur[i] || !open[i] {
				to = cur[i]
			}
			c.Ops = append(c.Ops, op{K: "read", Body: i, N: to - cur[i]})
			cur[i] = min(to, n)
		}
		if rng.IntN(4) > 0 {
			for j := range cur {
				c.Ops = append(c.Ops, op{K: "rem", Body: j})
			}
		}
	}
	for j := range cur {
		if rng.IntN(2) == 0 {
			c.Ops = append(c.Ops, op{K: "drain", Body: j, N: pick(rng, unit, unit+1, 65536, 100000)}, op{K: "rem", Body: j})
			if n > 100000 {
				c.Ops[len(c.Ops)-2].N = max(c.Ops[len(c.Ops)-2].N, 4096)
			}
		}
	}
	c.Ops = append(c.Ops, op{K: "closeall", N: rng.IntN(5)})
	return c
}

func (r *Run) edgeCases(kind string, n int, faulty float64) {
	r.Cases(kind, n, func(rng *randT, idx int) { r.runBodyCase(kind, idx, genEdge(rng, chance(rng, faulty))) })
}

func init() {
	for id, f := range map[string]float64{"B01": 0, "B02": .2, "B03": .2, "B04": .2, "B06": 1, "B14": .3} {
		id, f := id, f
		also(id, func(r *Run) {
			if raceEnabled {
				return
			}
			r.Rule("Edge: bodies of one family moved exactly onto multiples of a unit, onto each other's position and onto the end, or a byte beside.")
			r.edgeCases("edge", r.N(6000, 60000), f)
		})
	}
}
