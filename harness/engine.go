package main

// The property-testing engine: every random choice of a case is one entry of
// a recorded sequence of integers, so that a failing case can be shrunk (by
// shrinking the sequence) and replayed (by giving the sequence back).

import (
	"fmt"
	"hash/fnv"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	_ "time/tzdata"
)

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) below(n uint64) uint64 { // uniform in [0,n)
	if n == 0 {
		return r.next()
	}
	return r.next() % n
}

func caseSeed(seed int64, prop string, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	r := rng{h.Sum64()}
	return r.next()
}

type span struct{ start, end int }

// T is one case: its source of choices and what was observed about it.
type T struct {
	Index  int // index of the case in the run, -1 when shrinking or replaying
	Tier   string
	r      *rng // nil when choices come from in
	in     []uint64
	pos    int
	rec    []uint64
	spans  []span
	trace  func(uint64)
	class  map[string]int
	nt     bool
	notes  []string
	render bool
	budget int
	handed [][]float64 // results of the library that no one needs any more
	rooms  []func()    // what lies behind the inputs is as it was
}

type failure struct{ msg string }
type discard struct{}

// choice returns a recorded integer in [0,max]; gen proposes it when
// generating (nil: uniform).
func (t *T) choice(max uint64, gen func(r *rng) uint64) uint64 {
	var v uint64
	if t.r != nil {
		if gen != nil {
			v = gen(t.r)
		} else if max == math.MaxUint64 {
			v = t.r.next()
		} else {
			v = t.r.below(max + 1)
		}
	} else if t.pos < len(t.in) {
		v = t.in[t.pos]
	}
	t.pos++
	if v > max {
		v = max
	}
	t.rec = append(t.rec, v)
	if t.trace != nil {
		t.trace(v)
	}
	if len(t.rec) > 400000 {
		panic(discard{})
	}
	return v
}

// Int is uniform in [lo,hi] and shrinks towards lo.
func (t *T) Int(lo, hi int) int {
	if hi < lo {
		hi = lo
	}
	return lo + int(t.choice(uint64(hi-lo), nil))
}

// Zig is in [-m,m], shrinks towards 0.
func (t *T) Zig(m int) int {
	v := int(t.choice(uint64(2*m), nil))
	if v%2 == 1 {
		return (v + 1) / 2
	}
	return -v / 2
}

func (t *T) Uint64() uint64 { return t.choice(math.MaxUint64, nil) }

// Pick draws an index with the given weights; shrinks towards index 0.
func (t *T) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	return int(t.choice(uint64(len(weights)-1), func(r *rng) uint64 {
		k := int(r.below(uint64(total)))
		for i, w := range weights {
			if k < w {
				return uint64(i)
			}
			k -= w
		}
		return 0
	}))
}

// Chance is true with probability pct/100; shrinks towards false.
func (t *T) Chance(pct int) bool { return t.Pick(100-pct, pct) == 1 }

// Of picks one of the values; shrinks towards the first.
func Of[V any](t *T, vs ...V) V { return vs[t.Int(0, len(vs)-1)] }

// Round picks a sub-check: cases of a run go through all of them in turn.
func (t *T) Round(n int) int {
	idx := t.Index
	return int(t.choice(uint64(n-1), func(r *rng) uint64 { return uint64(idx % n) }))
}

// Hidden draws without recording (only while generating; 0 otherwise). For
// targets whose effect is recorded by other choices.
func (t *T) Hidden(n int) int {
	if t.r == nil {
		return 0
	}
	return int(t.r.below(uint64(n)))
}

// List calls elem until the (hidden) target length is reached when generating,
// or as long as the recorded flags say so. Each element is a span that
// shrinking can delete.
func (t *T) List(target, max int, elem func(i int)) int {
	i := 0
	target = t.roundUp(target, max)
	for ; i < max; i++ {
		start := len(t.rec)
		more := t.choice(1, func(r *rng) uint64 {
			if i < target {
				return 1
			}
			return 0
		})
		if more == 0 {
			break
		}
		elem(i)
		t.spans = append(t.spans, span{start, len(t.rec)})
	}
	return i
}

// roundUp makes some of the larger sizes multiples of a power of two, or one
// beside them: where something is done in batches.
func (t *T) roundUp(n, max int) int {
	if n < 24 || t.Hidden(4) != 0 {
		return n
	}
	b := 32 << t.Hidden(7)
	for b > 2*n {
		b /= 2
	}
	r := (n+b-1)/b*b + t.Hidden(3) - 1
	if r < n || r > max {
		return n
	}
	return r
}

func (t *T) Failf(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }
func (t *T) Class(f string, a ...any) {
	if t.class != nil {
		t.class[fmt.Sprintf(f, a...)]++
	}
}
func (t *T) ClassIf(c bool, name string) {
	if c {
		t.Class("%s", name)
	}
}

// NonTrivial marks the case as one that exercises the property.
func (t *T) NonTrivial(b bool) {
	if b {
		t.nt = true
	}
}

func (t *T) Notef(f string, a ...any) {
	if t.render {
		t.notes = append(t.notes, fmt.Sprintf(f, a...))
	}
}

// outcome of one execution
type outcome struct {
	fail   string // "" if held
	disc   bool
	t      *T
	panics bool
}

func runCase(p *Prop, t *T) (o outcome) {
	o.t = t
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case failure:
				o.fail = x.msg
			case discard:
				o.disc = true
			default:
				o.fail = fmt.Sprintf("panic: %v\n%s", e, shortStack())
				o.panics = true
			}
		}
	}()
	if zoned[p.ID] {
		zone(t, p.ID != "C07") // a shift moves days to days where the clock is never set
		defer func() { time.Local = time.UTC }()
	}
	p.Run(t)
	for _, f := range t.rooms {
		f()
	}
	return
}

// zoned are the properties decided in several local time zones.
var zoned = map[string]bool{"C01": true, "C02": true, "C03": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true,
	"K01": true, "K02": true, "K03": true, "K04": true, "O01": true, "O02": true, "N01": true, "V01": true,
	"T01": true, "T02": true, "T03": true, "T04": true, "T05": true, "U02": true, "U03": true, "U04": true}

// summer are zones whose offset changes: by an hour, by half an hour, at
// midnight, by a whole day.
var summer = func() (r []*time.Location) {
	for _, n := range []string{"America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia", "Asia/Shanghai"} {
		if l, err := time.LoadLocation(n); err == nil {
			r = append(r, l)
		}
	}
	return
}()

// offAt is the offset of the local time zone in seconds at a time.
func offAt(unix int64) int64 {
	_, o := time.Unix(unix, 0).In(time.Local).Zone()
	return int64(o)
}

func zone(t *T, set bool) {
	if !t.Chance(25) {
		return
	}
	if set && len(summer) > 0 && t.Chance(45) {
		time.Local = summer[t.Int(0, len(summer)-1)]
		t.Class("local time has summer time")
		return
	}
	o := []int{8 * 3600, -5 * 3600, 5*3600 + 1800, 14 * 3600, -12 * 3600, 3600, -3*3600 - 1800}[t.Int(0, 6)]
	time.Local = time.FixedZone("local", o)
	t.Class("local time is not UTC")
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "harness/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func newReplay(tier string, choices []uint64) *T {
	return &T{Index: -1, Tier: tier, in: choices, class: map[string]int{}}
}

// shrink looks for a smaller failing choice sequence. fails runs a candidate
// and, when it fails, returns the recorded sequence and spans.
func shrink(rec []uint64, spans []span, fails func([]uint64) ([]uint64, []span, bool), maxExec int, deadline time.Duration) []uint64 {
	start := time.Now()
	execs := 0
	cur := append([]uint64(nil), rec...)
	curSpans := spans
	less := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	seen := map[uint64]bool{}
	try := func(c []uint64) bool {
		if execs >= maxExec || time.Since(start) > deadline {
			return false
		}
		h := hashChoices(c)
		if seen[h] {
			return false
		}
		seen[h] = true
		execs++
		r, s, bad := fails(c)
		if bad && less(r, cur) {
			cur, curSpans = append([]uint64(nil), r...), s
			return true
		}
		return false
	}
	cut := func(a, b int) []uint64 {
		c := make([]uint64, 0, len(cur))
		c = append(c, cur[:a]...)
		return append(c, cur[b:]...)
	}
	for round := 0; round < 12; round++ {
		before := append([]uint64(nil), cur...)
		// delete runs of list elements, long runs first
		for size := len(curSpans); size >= 1; size /= 2 {
			for i := len(curSpans) - size; i >= 0; {
				if i+size <= len(curSpans) {
					s, e := curSpans[i].start, curSpans[i+size-1].end
					if s < e && e <= len(cur) && try(cut(s, e)) {
						if i > len(curSpans)-size {
							i = len(curSpans) - size
						}
						continue
					}
				}
				i -= size
				if i < 0 && i > -size {
					i = 0
					if size == 1 {
						break
					}
					// one last attempt at the front
					if len(curSpans) >= size {
						s, e := curSpans[0].start, curSpans[size-1].end
						if s < e && e <= len(cur) {
							try(cut(s, e))
						}
					}
					break
				}
			}
		}
		// zero blocks
		for size := 32; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); i += size {
				allZero := true
				for _, v := range cur[i : i+size] {
					if v != 0 {
						allZero = false
					}
				}
				if allZero {
					continue
				}
				c := append([]uint64(nil), cur...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				try(c)
			}
		}
		// lower single values
		for i := 0; i < len(cur); i++ {
			for step := cur[i] / 2; step > 0 && i < len(cur); step /= 2 {
				if cur[i] < step {
					continue
				}
				c := append([]uint64(nil), cur...)
				c[i] -= step
				try(c)
			}
			if i < len(cur) && cur[i] > 0 {
				c := append([]uint64(nil), cur...)
				c[i]--
				try(c)
			}
		}
		// delete single choices from the end
		for i := len(cur) - 1; i >= 0 && i > len(cur)-40; i-- {
			try(cut(i, i+1))
		}
		if !less(cur, before) || execs >= maxExec || time.Since(start) > deadline {
			break
		}
	}
	return cur
}

func hashChoices(c []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range c {
		for s := 0; s < 64; s += 16 {
			h ^= (v >> s) & 0xffff
			h *= 1099511628211
		}
	}
	return h ^ uint64(len(c))
}

// Prop is one property and its check.
type Prop struct {
	ID       string
	Quick    int // cases
	Thorough int
	Rule     string
	Assume   []string
	Run      func(t *T)
	Fixed    []FixedCase // small spaces enumerated completely, once per run
	Known    []KnownCase
	Procs    int
	Note     string
}

// FixedCase is an exhaustive enumeration run by the first worker only.
type FixedCase struct {
	Name string
	Run  func(f *Fixed)
}

type Fixed struct {
	Count int
	Tier  string
}

func (f *Fixed) Failf(s string, a ...any) { panic(failure{fmt.Sprintf(s, a...)}) }

// KnownCase replays one recorded finding; it returns "" when it no longer fails.
type KnownCase struct {
	Key string // identifies the entry in known_findings.txt
	Run func() string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// settle waits until no goroutine besides the n that were there is left, and
// reports those that are blocked for good. A goroutine blocked on a channel
// while nothing else runs can never go on; a running one is waited for.
func settle(n int) string {
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= n {
			return ""
		}
		if i < 200 {
			runtime.Gosched()
			continue
		}
		time.Sleep(time.Millisecond)
		if i > 250 && i%50 == 0 {
			blocked, running := goroutines()
			if len(blocked) > 0 && running == 0 && runtime.NumGoroutine() > n {
				return fmt.Sprintf("%d goroutine(s) of the library or its producers stay blocked after everything was closed:\n%s", len(blocked), firstLines(blocked[0], 5))
			}
			if len(blocked) == 0 && running == 0 {
				return ""
			}
		}
		if i > 60000 {
			return "" // undecided; never an alarm
		}
	}
}

// goroutines gives the stacks of the goroutines of the library, and of the
// producers that feed it, that are blocked, and how many of any kind are not.
func goroutines() (blocked []string, running int) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n")[1:] {
		head := g
		if k := strings.IndexByte(g, '\n'); k > 0 {
			head = g[:k]
		}
		if strings.Contains(head, "[chan ") || strings.Contains(head, "[select") || strings.Contains(head, "[semacquire") || strings.Contains(head, "[sync.") {
			if strings.Contains(g, "stockindicator") || strings.Contains(g, "/repo/") || strings.Contains(g, "main.feed") {
				blocked = append(blocked, g)
			}
		} else {
			running++
		}
	}
	return blocked, running
}

// stuck describes what is blocked when nothing runs.
func stuck() string {
	if blocked, running := goroutines(); len(blocked) > 0 && running == 0 {
		return fmt.Sprintf("%d goroutine(s) are blocked:\n%s", len(blocked), firstLines(blocked[0], 5))
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
