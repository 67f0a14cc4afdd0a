package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run is one execution of the check of one property.
type Run struct {
	Prop     string
	Tier     string
	Seed     uint64
	OutDir   string
	only     string // "kind:index", replay of a single case
	known    map[string]string
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	maxima   map[string]int64
	samples  []any
	rules    []string
	viol     []violation
	knownHit map[string]string
	foreign  map[string]int64
	foreignX []string
	inconc   []string
	assume   []string
	start    time.Time
	cur      *os.File
	shard    int
	shards   int
	halted   bool          // something is stuck for good: start no new case
	budget   time.Duration // no new case is started after this long
}

type violation struct {
	Kind    string `json:"kind"`
	Index   int    `json:"index"`
	Detail  string `json:"detail"`
	History any    `json:"history,omitempty"`
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N scales a case count with the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

func (r *Run) rng(kind string, idx int) *rand.Rand {
	return rand.New(rand.NewPCG(hash64(r.Seed, kind), uint64(idx)+0x9e3779b97f4a7c15))
}

// progress is bumped by every monitored step; the watchdog looks at it.
var progress atomic.Int64
var currentCase atomic.Value // string

func step() { progress.Add(1) }

// Cases runs n independent cases of one kind; each gets its own generator
// determined by (seed, kind, index) only.
func (r *Run) Cases(kind string, n int, f func(rng *rand.Rand, idx int)) {
	for i := 0; i < n; i++ {
		if r.only != "" && r.only != fmt.Sprintf("%s:%d", kind, i) {
			continue
		}
		if r.only == "" && i%r.shards != r.shard {
			continue
		}
		if r.enough() {
			return
		}
		if time.Since(r.start) > r.budget {
			r.Count("cases_not_started_for_lack_of_time", int64((n-i+r.shards-1)/r.shards))
			return
		}
		r.mark(fmt.Sprintf("%s:%d", kind, i))
		f(r.rng(kind, i), i)
	}
}

// mark names the case being run, also on disk so that a fatal crash of the
// process can be attributed to it.
func (r *Run) mark(c string) {
	currentCase.Store(c)
	step()
	if r.cur != nil {
		_, _ = r.cur.WriteAt([]byte(fmt.Sprintf("%-60s\n", c)), 0)
	}
}

func (r *Run) enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) >= 3 || r.halted
}

func (r *Run) Count(name string, d int64) {
	r.mu.Lock()
	r.counters[name] += d
	r.mu.Unlock()
}

func (r *Run) Max(name string, v int64) {
	r.mu.Lock()
	if v > r.maxima[name] {
		r.maxima[name] = v
	}
	r.mu.Unlock()
}

// Eval records one evaluated case. sig identifies what was distinct about it.
func (r *Run) Eval(sig uint64, nontrivial bool) {
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[sig] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *Run) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < 6
}

func (r *Run) Rule(s string)   { r.rules = append(r.rules, s) }
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Violate reports a deviation that breaks the properties in tags.
func (r *Run) Violate(tags []string, kind string, idx int, detail string, history any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	own := false
	for _, t := range tags {
		if t == r.Prop {
			own = true
		}
	}
	if !own {
		k := strings.Join(tags, ",")
		r.foreign[k]++
		if len(r.foreignX) < 5 {
			r.foreignX = append(r.foreignX, fmt.Sprintf("%s %s:%d %s", k, kind, idx, detail))
		}
		return
	}
	if len(r.viol) < 50 {
		r.viol = append(r.viol, violation{kind, idx, detail, history})
	}
}

// Bad is Violate for the run's own property.
func (r *Run) Bad(kind string, idx int, format string, a ...any) {
	r.Violate([]string{r.Prop}, kind, idx, fmt.Sprintf(format, a...), nil)
}

// Finding reports the failure of a case that known-findings.json may list
// under the given key; unlisted, it is a violation.
func (r *Run) Finding(key, kind string, idx int, detail string, history any) {
	r.mu.Lock()
	what, ok := r.known[key]
	if ok {
		r.knownHit[key] = what
		r.counters["known_finding_hits"]++
	}
	r.mu.Unlock()
	if !ok {
		r.Violate([]string{r.Prop}, kind, idx, detail, history)
	}
}

// Violate3 is Finding for checks shared by several properties.
func (r *Run) Violate3(tags []string, key, kind string, idx int, detail string) {
	for _, t := range tags {
		if t == r.Prop {
			r.Finding(key, kind, idx, detail, nil)
			return
		}
	}
}

func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	if len(r.inconc) < 20 {
		r.inconc = append(r.inconc, fmt.Sprintf(format, a...))
	}
	r.counters["inconclusive"]++
	r.mu.Unlock()
}

type result struct {
	Property   string            `json:"property"`
	Tier       string            `json:"tier"`
	Seed       uint64            `json:"seed"`
	Evals      int64             `json:"evaluations"`
	Distinct   int64             `json:"distinct_nontrivial"`
	Rule       string            `json:"rule"`
	Samples    []any             `json:"samples"`
	Counters   map[string]int64  `json:"observed"`
	Maxima     map[string]int64  `json:"maxima,omitempty"`
	Foreign    map[string]int64  `json:"deviations_of_other_properties,omitempty"`
	ForeignX   []string          `json:"deviation_examples,omitempty"`
	Inconc     []string          `json:"inconclusive,omitempty"`
	Assume     []string          `json:"assumptions"`
	Viol       []violation       `json:"violations"`
	KnownHit   map[string]string `json:"known_findings_hit"`
	Race       bool              `json:"race_detector"`
	GoVersion  string            `json:"go_version"`
	WallS      float64           `json:"wall_s"`
	GOMAXPROCS int               `json:"gomaxprocs"`
}

func (r *Run) finish() *result {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := &result{Property: r.Prop, Tier: r.Tier, Seed: r.Seed, Evals: r.evals, Distinct: int64(len(r.distinct)),
		Rule: strings.Join(r.rules, " "), Samples: r.samples, Counters: r.counters, Maxima: r.maxima,
		Foreign: r.foreign, ForeignX: r.foreignX, Inconc: r.inconc, Assume: r.assume, Viol: r.viol,
		KnownHit: r.knownHit, Race: raceEnabled, GoVersion: runtime.Version(), WallS: time.Since(r.start).Seconds(), GOMAXPROCS: runtime.GOMAXPROCS(0)}
	if res.Samples == nil {
		res.Samples = []any{}
	}
	if res.Viol == nil {
		res.Viol = []violation{}
	}
	if res.Assume == nil {
		res.Assume = []string{}
	}
	return res
}

func (r *Run) write() {
	res := r.finish()
	data, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot encode result:", err)
		os.Exit(3)
	}
	r.mu.Lock()
	sigs := make([]byte, 0, 8*len(r.distinct))
	for h := range r.distinct {
		sigs = binary.LittleEndian.AppendUint64(sigs, h)
	}
	r.mu.Unlock()
	_ = os.WriteFile(filepath.Join(r.OutDir, "distinct"), sigs, 0o644)
	if err := os.WriteFile(filepath.Join(r.OutDir, "result.json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

const libPrefix = "github.com/chronos-tachyon/morehttp/"
const ownPrefix = "github.com/chronos-tachyon/morehttp/zzverif"

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func allStacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// isLibFrame reports whether a stack line names a function of the library
// (and not one of this harness, whose import path has the same root).
func isLibFrame(line string) bool {
	return strings.HasPrefix(line, libPrefix) && !strings.HasPrefix(line, ownPrefix)
}

// analyseStuck classifies a goroutine dump: goroutines blocked on a mutex
// whose acquisition was requested by library code, goroutines running inside
// library code, and goroutines that may still make progress in a library call
// (sleeping or blocked elsewhere below a library frame).
func analyseStuck(dump string) (lockBlocked, running, elsewhere int, example string) {
	for _, g := range strings.Split(dump, "\n\n") {
		lines := strings.Split(g, "\n")
		if len(lines) < 2 {
			continue
		}
		lib := false
		for _, l := range lines[1:] {
			if isLibFrame(l) {
				lib = true
				break
			}
		}
		if !lib {
			continue
		}
		direct := libBlocked(lines)
		if !direct && idleWorker(lines) {
			continue
		}
		switch {
		case direct:
			lockBlocked++
			if example == "" {
				example = g
			}
		case strings.Contains(lines[0], "[running") || strings.Contains(lines[0], "[runnable"):
			running++
			if example == "" {
				example = g
			}
		default:
			elsewhere++
		}
	}
	return
}

// libBlocked reports whether a goroutine waits for a mutex, channel,
// condition or wait group, and a library frame is what asked for that. A
// channel wait counts only on behalf of a caller: a goroutine of the library's
// own may idle.
func libBlocked(lines []string) bool {
	state := lines[0]
	wait := strings.Contains(state, "[chan ") || strings.Contains(state, "[select") || strings.Contains(state, "[sync.Cond") || strings.Contains(state, "[sync.WaitGroup") || strings.Contains(state, "[semacquire")
	first := ""
	for i := 1; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "created by ") {
			continue
		}
		if strings.HasPrefix(l, "sync.(*Mutex).Lock") || strings.HasPrefix(l, "sync.(*RWMutex).") {
			wait = true
		}
		if strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/sync.") {
			continue
		}
		first = l
		break
	}
	if !wait || !isLibFrame(first) {
		return false
	}
	return strings.Contains(state, "Mutex") || !idleWorker(lines)
}

// idleWorker reports whether a waiting goroutine was started by the library:
// no frame of its stack belongs to anybody else.
func idleWorker(lines []string) bool {
	if !strings.Contains(lines[0], "[chan ") && !strings.Contains(lines[0], "[select") && !strings.Contains(lines[0], "[sync.Cond") {
		return false
	}
	for _, l := range lines[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by ") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync.") || isLibFrame(l) {
			continue
		}
		return false
	}
	return true
}

var stackArgs = regexp.MustCompile(`\(0x[^)]*\)|, \d+ minutes`)

// frozen confirms a suspected deadlock: nothing in the library moves in six
// dumps over three seconds and the process burns no CPU meanwhile.
func (r *Run) frozen(ex string) bool {
	id := func(dump string) string {
		var keep []string
		for _, g := range strings.Split(dump, "\n\n") {
			if strings.Contains(g, libPrefix+"body") || strings.Contains(g, libPrefix+"response") || strings.Contains(g, libPrefix+"handler") || strings.Contains(g, libPrefix+"internal") {
				keep = append(keep, stackArgs.ReplaceAllString(g, ""))
			}
		}
		sort.Strings(keep)
		return strings.Join(keep, "\n\n")
	}
	p0 := progress.Load()
	first := id(allStacks())
	for i := 0; i < 6; i++ {
		c := cpuSeconds()
		time.Sleep(500 * time.Millisecond)
		if cpuSeconds()-c > 0.1 || progress.Load() != p0 || id(allStacks()) != first {
			return false
		}
	}
	return true
}

// current returns the case being run.
func (r *Run) current() (kind string, idx int) {
	kind, _ = currentCase.Load().(string)
	if i := strings.LastIndexByte(kind, ':'); i >= 0 {
		fmt.Sscanf(kind[i+1:], "%d", &idx)
		kind = kind[:i]
	}
	return
}

// watchdog decides calls that never return. A goroutine dump in which library
// callers wait for library locks and nobody inside the library can run is a
// deadlock, whatever the clock says; a single step burning 60 s of CPU inside
// library code is a livelock. Anything else only makes the run inconclusive.
func (r *Run) watchdog() {
	last, cpu0 := progress.Load(), cpuSeconds()
	since := time.Now()
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for tick := 1; ; tick++ {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(mem)
		if v := mem[0].Value.Uint64(); v > 3<<30 {
			kind, idx := r.current()
			r.Bad(kind, idx, "memory use exploded: %d MiB of live or unswept heap during one case", v>>20)
			r.write()
			os.Exit(1)
		}
		if tick%5 != 0 {
			continue
		}
		now := progress.Load()
		if now != last {
			last, cpu0, since = now, cpuSeconds(), time.Now()
			continue
		}
		idle := time.Since(since)
		if idle < 12*time.Second {
			continue
		}
		kind, idx := r.current()
		c := fmt.Sprintf("%s:%d", kind, idx)
		lock, run, other, ex := analyseStuck(allStacks())
		switch {
		case lock > 0 && run == 0 && other == 0 && r.frozen(ex):
			r.Bad(kind, idx, "call never returns: %d goroutine(s) wait for the library's own locks and none inside the library can run:\n%s", lock, ex)
			r.write()
			os.Exit(1)
		case run > 0 && cpuSeconds()-cpu0 > 60:
			r.Bad(kind, idx, "call never returns: still computing inside the library after %.0f CPU seconds:\n%s", cpuSeconds()-cpu0, ex)
			r.write()
			os.Exit(1)
		case idle > 300*time.Second:
			r.Inconclusive("no progress for 300 s in case %s (lock=%d running=%d other=%d)", c, lock, run, other)
			r.write()
			os.Exit(4)
		}
	}
}

// guard runs f and turns a panic into a description ("" when none).
func guard(f func()) (msg string, val any) {
	defer func() {
		if v := recover(); v != nil {
			val = v
			msg = fmt.Sprintf("panic: %v", v)
			st := string(debug.Stack())
			var frames []string
			for _, l := range strings.Split(st, "\n") {
				if isLibFrame(l) {
					frames = append(frames, l)
				}
			}
			if len(frames) > 4 {
				frames = frames[:4]
			}
			if len(frames) > 0 {
				msg += " at " + strings.Join(frames, " < ")
			}
		}
	}()
	f()
	return
}

type checkFunc func(r *Run)

var checks = map[string]checkFunc{}

// extras are further parts of a check, run after it.
var extras = map[string][]checkFunc{}

func also(id string, f checkFunc) { extras[id] = append(extras[id], f) }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.String("shard", "0/1", "i/n: run only the cases whose index is i modulo n")
	budget := flag.Duration("budget", 400*time.Second, "start no new case after this long")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "scratch directory for result.json")
	only := flag.String("only", "", "replay a single case kind:index")
	knownFile := flag.String("known", "", "known-findings.json")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	f, ok := checks[*prop]
	if !ok || *out == "" {
		fmt.Fprintln(os.Stderr, "harness: unknown property or no -out")
		os.Exit(3)
	}
	r := &Run{Prop: *prop, Tier: *tier, Seed: *seed, OutDir: *out, only: *only,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, maxima: map[string]int64{},
		foreign: map[string]int64{}, known: map[string]string{}, knownHit: map[string]string{}, start: time.Now()}
	r.budget = *budget
	if _, err := fmt.Sscanf(*shard, "%d/%d", &r.shard, &r.shards); err != nil || r.shards < 1 {
		fmt.Fprintln(os.Stderr, "harness: bad -shard")
		os.Exit(3)
	}
	if *knownFile != "" {
		data, err := os.ReadFile(*knownFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		var kf struct {
			Findings []struct{ Property, Key, What string }
		}
		if err := json.Unmarshal(data, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		for _, k := range kf.Findings {
			if k.Property == r.Prop {
				r.known[k.Key] = k.What
			}
		}
	}
	if cf, err := os.Create(filepath.Join(*out, "current")); err == nil {
		r.cur = cf
	}
	r.mark("start:0")
	go r.watchdog()
	f(r)
	for _, g := range extras[*prop] {
		g(r)
	}
	r.write()
	if len(r.viol) > 0 {
		os.Exit(1)
	}
}
