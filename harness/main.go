package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "seed")
	fRoot   = flag.String("root", "/verif", "where evidence, replays and known findings are")
	fCases  = flag.Int("cases", 0, "number of cases (0: as the property says)")
	fWork   = flag.Int("workers", 0, "worker processes (0: as the property says)")
	fReplay = flag.String("replay", "", "replay file")
	fList   = flag.Bool("list", false, "list properties")
	fStats  = flag.Bool("stats", false, "print the class counters")

	fChild   = flag.Bool("child", false, "")
	fShard   = flag.Int("shard", 0, "")
	fOf      = flag.Int("of", 1, "")
	fDir     = flag.String("dir", "", "")
	fOne     = flag.Int("one", -1, "")
	fUntil   = flag.Int("until", -1, "")
	fChoices = flag.String("choices", "", "")
)

type failRec struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"` // case, crash, hang, sequence, enumeration, known
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Shard    int      `json:"shard"`
	Of       int      `json:"of"`
	Message  string   `json:"message"`
	Rendered []string `json:"rendered,omitempty"`
	Choices  []uint64 `json:"choices,omitempty"`
	Original int      `json:"original_choices,omitempty"`
	Name     string   `json:"name,omitempty"`
}

type childRes struct {
	Evaluations int
	Discarded   int
	NonTrivial  int
	Classes     map[string]int
	Samples     []string
	Enumerated  map[string]int
	Slowest     int64 // milliseconds of the slowest case
	Fail        *failRec
}

func casesOf(p *Prop) int {
	if *fCases > 0 {
		return *fCases
	}
	if *fTier == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

func main() {
	flag.Parse()
	if *fList {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *fReplay != "" {
		os.Exit(replayFile(*fReplay))
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fChild {
		child(p)
		return
	}
	os.Exit(parent(p))
}

// ---------------------------------------------------------------- child

func child(p *Prop) {
	if *fChoices != "" { // one case from given choices
		var rec failRec
		b, err := os.ReadFile(*fChoices)
		if err != nil || json.Unmarshal(b, &rec) != nil {
			os.Exit(3)
		}
		t := newReplay(rec.Tier, rec.Choices)
		t.render = true
		o := runCase(p, t)
		writeJSON(filepath.Join(*fDir, "one.json"), failRec{Property: p.ID, Message: o.fail, Rendered: t.notes, Choices: t.rec})
		os.Exit(0)
	}
	n := casesOf(p)
	res := childRes{Classes: map[string]int{}, Enumerated: map[string]int{}}
	var prog *os.File
	if *fDir != "" {
		prog, _ = os.Create(filepath.Join(*fDir, fmt.Sprintf("prog.%d", *fShard)))
	}
	step := func(i int) {
		if prog != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i))
			prog.WriteAt(b[:], 0)
		}
	}
	mk := func(i int) *T {
		return &T{Index: i, Tier: *fTier, r: &rng{caseSeed(*fSeed, p.ID, i)}, class: res.Classes}
	}
	if *fOne >= 0 {
		t := mk(*fOne)
		if tf := filepath.Join(*fDir, "trace"); *fDir != "" {
			f, _ := os.Create(tf)
			t.trace = func(v uint64) {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], v)
				f.Write(b[:])
			}
		}
		step(*fOne)
		o := runCase(p, t)
		writeJSON(filepath.Join(*fDir, "one.json"), failRec{Property: p.ID, Message: o.fail, Choices: t.rec})
		os.Exit(0)
	}

	finish := func() {
		writeJSON(filepath.Join(*fDir, fmt.Sprintf("res.%d", *fShard)), res)
	}
	// enumerations
	if *fUntil < 0 {
		for i, fc := range p.Fixed {
			if i%*fOf != *fShard {
				continue
			}
			step(1<<40 + i)
			f := &Fixed{Tier: *fTier}
			msg := func() (msg string) {
				defer func() {
					if e := recover(); e != nil {
						if x, ok := e.(failure); ok {
							msg = x.msg
						} else {
							msg = fmt.Sprintf("panic: %v\n%s", e, shortStack())
						}
					}
				}()
				fc.Run(f)
				return ""
			}()
			res.Enumerated[fc.Name] += f.Count
			if msg != "" {
				res.Fail = &failRec{Property: p.ID, Kind: "enumeration", Tier: *fTier, Seed: *fSeed, Message: msg, Name: fc.Name, Case: -1}
				finish()
				os.Exit(0)
			}
		}
	}
	hashes, _ := os.Create(filepath.Join(*fDir, fmt.Sprintf("hash.%d", *fShard)))
	hb := bytes.Buffer{}
	until := n
	if *fUntil >= 0 {
		until = *fUntil + 1
	}
	k := 0
	for i := *fShard; i < until; i += *fOf {
		step(i)
		t := mk(i)
		t.render = k < 4 || k%97 == 0 && len(res.Samples) < 4
		k++
		began := time.Now()
		o := runCase(p, t)
		if d := time.Since(began).Milliseconds(); d > res.Slowest {
			res.Slowest = d
		}
		res.Evaluations++
		if o.disc {
			res.Discarded++
			continue
		}
		if o.fail != "" {
			res.Fail = explain(p, i, t, o)
			finish()
			os.Exit(0)
		}
		if t.nt {
			res.NonTrivial++
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], hashChoices(t.rec))
			hb.Write(b[:])
			if t.render && len(res.Samples) < 4 {
				s := strings.Join(t.notes, "; ")
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, s))
			}
		}
	}
	hashes.Write(hb.Bytes())
	hashes.Close()
	finish()
}

// explain reproduces and shrinks a failure found in this process.
func explain(p *Prop, i int, t *T, o outcome) *failRec {
	rec := &failRec{Property: p.ID, Kind: "case", Tier: *fTier, Seed: *fSeed, Case: i, Shard: *fShard, Of: *fOf, Message: o.fail, Choices: t.rec, Original: len(t.rec)}
	again := runCase(p, newReplay(*fTier, t.rec))
	if again.fail == "" {
		rec.Kind = "sequence"
		rec.Message += "\n(the case fails only after the cases before it in the same process: state is kept between calculations)"
		rec.Choices = nil
		return rec
	}
	short := shrink(t.rec, t.spans, func(c []uint64) ([]uint64, []span, bool) {
		x := newReplay(*fTier, c)
		r := runCase(p, x)
		return x.rec, x.spans, r.fail != ""
	}, 6000, 20*time.Second)
	x := newReplay(*fTier, short)
	x.render = true
	r := runCase(p, x)
	if r.fail != "" {
		rec.Choices = short
		rec.Message = r.fail
		rec.Rendered = x.notes
	}
	return rec
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- parent

type childProc struct {
	cmd    *exec.Cmd
	stderr *tail
	done   chan error
}

// tail keeps the beginning of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func spawn(args ...string) *childProc {
	exe, _ := os.Executable()
	c := &childProc{cmd: exec.Command(exe, args...), stderr: &tail{}, done: make(chan error, 1)}
	c.cmd.Stderr = c.stderr
	c.cmd.Stdout = c.stderr
	procs := 2
	if p := props[*fProp]; p != nil && p.Procs > 0 {
		procs = p.Procs
	}
	c.cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "TZ=UTC", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOGC=400", "GOMEMLIMIT=2500MiB")
	if err := c.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	go func() { c.done <- c.cmd.Wait() }()
	return c
}

func (c *childProc) wait(d time.Duration) (error, bool) {
	select {
	case err := <-c.done:
		return err, true
	case <-time.After(d):
		c.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-c.done:
		case <-time.After(5 * time.Second):
			c.cmd.Process.Kill()
			<-c.done
		}
		return nil, false
	}
}

func killedBySystem(err error) bool {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return true
		}
	}
	return false
}

const hangAfter = 90 * time.Second

func baseArgs(p *Prop) []string {
	return []string{"-child", "-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-root", *fRoot, "-cases", fmt.Sprint(casesOf(p))}
}

func parent(p *Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	w := *fWork
	if w == 0 {
		w = 8
		if c := casesOf(p); c < 64 {
			w = 4
		}
	}
	total := childRes{Classes: map[string]int{}, Enumerated: map[string]int{}}
	var fail *failRec
	known := runKnown(p, &fail)

	children := make([]*childProc, w)
	for k := range children {
		children[k] = spawn(append(baseArgs(p), "-shard", fmt.Sprint(k), "-of", fmt.Sprint(w), "-dir", dir)...)
	}
	type state struct {
		last   uint64
		since  time.Time
		finish bool
	}
	st := make([]state, w)
	for k := range st {
		st[k] = state{since: time.Now(), last: 1 << 62}
	}
	left := w
	infra := ""
	stop := func() {
		for k, c := range children {
			if !st[k].finish {
				c.cmd.Process.Kill()
			}
		}
	}
	for left > 0 && fail == nil {
		time.Sleep(20 * time.Millisecond)
		for k, c := range children {
			if st[k].finish || fail != nil {
				continue
			}
			select {
			case err := <-c.done:
				st[k].finish = true
				left--
				var r childRes
				b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", k)))
				if err == nil && rerr == nil && json.Unmarshal(b, &r) == nil {
					merge(&total, &r)
					if r.Fail != nil && (fail == nil || r.Fail.Case < fail.Case) {
						fail = r.Fail
					}
					continue
				}
				if killedBySystem(err) {
					infra = fmt.Sprintf("worker %d was killed (memory?)", k)
					stop()
					left = 0
					break
				}
				fail, infra = crashed(p, dir, k, w, err, c.stderr.String())
				if infra != "" {
					stop()
					left = 0
				}
			default:
				v := progress(dir, k)
				if v != st[k].last {
					st[k].last, st[k].since = v, time.Now()
				} else if time.Since(st[k].since) > hangAfter {
					fail = hung(p, dir, k, w)
					if fail == nil {
						infra = fmt.Sprintf("worker %d made no progress, but its case ended when run alone", k)
						stop()
						left = 0
					}
				}
			}
		}
	}
	stop()
	if infra != "" && fail == nil {
		fmt.Fprintln(os.Stderr, "error:", infra)
		return 2
	}
	// distinct
	distinct := map[uint64]bool{}
	for k := 0; k < w; k++ {
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hash.%d", k)))
		for ; len(b) >= 8; b = b[8:] {
			distinct[binary.LittleEndian.Uint64(b)] = true
		}
	}
	violations := 0
	replay := ""
	if fail != nil {
		violations = 1
		rd := filepath.Join(*fRoot, "replays")
		os.MkdirAll(rd, 0o755)
		replay = filepath.Join(rd, fmt.Sprintf("%s-seed%d-%s.json", p.ID, *fSeed, *fTier))
		writeJSON(replay, fail)
	}
	samples := total.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	enumTotal := 0
	for _, v := range total.Enumerated {
		enumTotal += v
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         total.Evaluations + enumTotal,
		"generated":           total.Evaluations,
		"distinct_nontrivial": len(distinct),
		"nontrivial":          total.NonTrivial,
		"discarded":           total.Discarded,
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             total.Classes,
		"slowest_case_ms":     total.Slowest,
	}
	if enumTotal > 0 {
		cov["enumerated"] = total.Enumerated
	}
	ev := map[string]any{
		"property":    p.ID,
		"tier":        *fTier,
		"seed":        *fSeed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{"Go 1.22 with IEEE-754 doubles on amd64, TZ=UTC"}, p.Assume...),
		"wall_s":      float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations":  violations,
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	ed := filepath.Join(*fRoot, "evidence")
	os.MkdirAll(ed, 0o755)
	writeJSON(filepath.Join(ed, p.ID+".json"), ev)
	if *fStats {
		var ks []string
		for k := range total.Classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-50s %d\n", k, total.Classes[k])
		}
		for _, s := range samples {
			fmt.Println("  sample:", s)
		}
	}
	fmt.Printf("%s: %d cases (%d distinct non-trivial, %d discarded), %d enumerated, %.1fs\n", p.ID, total.Evaluations, len(distinct), total.Discarded, enumTotal, time.Since(start).Seconds())
	if fail != nil {
		fmt.Printf("%s case %d (%s), %d choices of %d:\n%s\n", p.ID, fail.Case, fail.Kind, len(fail.Choices), fail.Original, indent(fail.Message))
		for i, l := range fail.Rendered {
			if i > 30 {
				fmt.Println("    ...")
				break
			}
			if len(l) > 1500 {
				l = l[:1500] + "..."
			}
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		return 1
	}
	return 0
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func merge(a, b *childRes) {
	a.Evaluations += b.Evaluations
	a.Discarded += b.Discarded
	a.NonTrivial += b.NonTrivial
	a.Slowest = max(a.Slowest, b.Slowest)
	for k, v := range b.Classes {
		a.Classes[k] += v
	}
	for k, v := range b.Enumerated {
		a.Enumerated[k] += v
	}
	if len(b.Samples) > 0 {
		a.Samples = append(a.Samples, b.Samples[0])
	}
}

func progress(dir string, k int) uint64 {
	b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("prog.%d", k)))
	if len(b) < 8 {
		return 1 << 63
	}
	return binary.LittleEndian.Uint64(b)
}

// crashed decides what a worker that ended without a result means.
func crashed(p *Prop, dir string, k, w int, err error, stderr string) (*failRec, string) {
	idx := progress(dir, k)
	race := strings.Contains(stderr, "DATA RACE")
	what := "the process running the case ended: " + firstLines(stderr, 12)
	if idx == 1<<63 {
		return nil, fmt.Sprintf("worker %d ended before its first case: %v\n%s", k, err, firstLines(stderr, 10))
	}
	if idx >= 1<<40 {
		return &failRec{Property: p.ID, Kind: "enumeration", Tier: *fTier, Seed: *fSeed, Case: -1, Message: what, Name: p.Fixed[idx-1<<40].Name}, ""
	}
	i := int(idx)
	rec := &failRec{Property: p.ID, Kind: "crash", Tier: *fTier, Seed: *fSeed, Case: i, Shard: k, Of: w, Message: what}
	d2, _ := os.MkdirTemp(dir, "one")
	tries := 1
	if race {
		tries = 4
	}
	for a := 0; a < tries; a++ {
		c := spawn(append(baseArgs(p), "-one", fmt.Sprint(i), "-dir", d2)...)
		e2, in := c.wait(hangAfter)
		if in && e2 != nil && !killedBySystem(e2) {
			rec.Choices = readTrace(filepath.Join(d2, "trace"))
			rec.Original = len(rec.Choices)
			rec.Message = "the process running the case ended: " + firstLines(c.stderr.String(), 14)
			shrinkCrash(p, d2, rec, race)
			return rec, ""
		}
	}
	c := spawn(append(baseArgs(p), "-shard", fmt.Sprint(k), "-of", fmt.Sprint(w), "-until", fmt.Sprint(i), "-dir", d2)...)
	e2, in := c.wait(10 * time.Minute)
	if race || (in && e2 != nil && !killedBySystem(e2)) {
		rec.Kind = "sequence"
		return rec, ""
	}
	return nil, fmt.Sprintf("worker %d ended at case %d (%v), which did not happen again\n%s", k, i, err, firstLines(stderr, 14))
}

func readTrace(f string) []uint64 {
	b, _ := os.ReadFile(f)
	var out []uint64
	for ; len(b) >= 8; b = b[8:] {
		out = append(out, binary.LittleEndian.Uint64(b))
	}
	return out
}

// shrinkCrash shrinks a case that takes the process with it: one process per attempt.
func shrinkCrash(p *Prop, dir string, rec *failRec, race bool) {
	best := rec.Message
	cand := filepath.Join(dir, "cand.json")
	run := func(c []uint64) bool {
		writeJSON(cand, failRec{Tier: *fTier, Choices: c})
		n := 1
		if race {
			n = 2
		}
		for ; n > 0; n-- {
			ch := spawn(append(baseArgs(p), "-choices", cand, "-dir", dir)...)
			e, in := ch.wait(20 * time.Second)
			if in && e != nil && !killedBySystem(e) {
				best = "the process running the case ended: " + firstLines(ch.stderr.String(), 14)
				return true
			}
		}
		return false
	}
	execs := 200
	if race {
		execs = 60
	}
	rec.Choices = shrink(rec.Choices, nil, func(c []uint64) ([]uint64, []span, bool) { return c, nil, run(c) }, execs, 60*time.Second)
	rec.Message = best
}

func hung(p *Prop, dir string, k, w int) *failRec {
	idx := progress(dir, k)
	if idx >= 1<<40 && idx < 1<<60 {
		return &failRec{Property: p.ID, Kind: "hang", Tier: *fTier, Seed: *fSeed, Case: -1, Message: "the enumeration does not end", Name: p.Fixed[idx-1<<40].Name}
	}
	if idx >= 1<<40 {
		return nil
	}
	d2, _ := os.MkdirTemp(dir, "one")
	c := spawn(append(baseArgs(p), "-one", fmt.Sprint(idx), "-dir", d2)...)
	_, in := c.wait(hangAfter)
	if in {
		return nil
	}
	ch := readTrace(filepath.Join(d2, "trace"))
	return &failRec{Property: p.ID, Kind: "hang", Tier: *fTier, Seed: *fSeed, Case: int(idx), Shard: k, Of: w,
		Message: fmt.Sprintf("the case does not end (twice more than %v)\n%s", hangAfter, firstLines(c.stderr.String(), 30)), Choices: ch, Original: len(ch)}
}

// runKnown replays the recorded findings of the property.
func runKnown(p *Prop, fail **failRec) []string {
	if len(p.Known) == 0 {
		return nil
	}
	b, _ := os.ReadFile(filepath.Join(*fRoot, "known_findings.txt"))
	var out []string
	for _, kc := range p.Known {
		msg := func() (m string) {
			defer func() {
				if e := recover(); e != nil {
					m = fmt.Sprintf("panic: %v", e)
				}
			}()
			return kc.Run()
		}()
		if msg == "" {
			continue
		}
		listed := false
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "known: property="+p.ID+" ") && strings.Contains(l, kc.Key) {
				listed = true
			}
		}
		if listed {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", p.ID, kc.Key, msg)
			out = append(out, kc.Key+" "+msg)
		} else {
			*fail = &failRec{Property: p.ID, Kind: "known", Tier: *fTier, Seed: *fSeed, Case: -1, Message: kc.Key + " " + msg, Name: kc.Key}
		}
	}
	return out
}

// ---------------------------------------------------------------- replay

func replayFile(path string) int {
	var rec failRec
	b, err := os.ReadFile(path)
	if err != nil || json.Unmarshal(b, &rec) != nil {
		fmt.Fprintln(os.Stderr, "cannot read", path)
		return 2
	}
	p := props[rec.Property]
	if p == nil {
		return 2
	}
	*fProp, *fTier, *fSeed = rec.Property, rec.Tier, rec.Seed
	dir, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(dir)
	bad := false
	show := func(m string, r []string) {
		fmt.Println(indent(m))
		for _, l := range r {
			fmt.Println("   ", l)
		}
	}
	switch rec.Kind {
	case "case", "crash", "hang":
		for try := 0; try < 3 && !bad; try++ {
			c := spawn(append(baseArgs(p), "-choices", path, "-dir", dir)...)
			e, in := c.wait(hangAfter)
			var one failRec
			if bb, er := os.ReadFile(filepath.Join(dir, "one.json")); er == nil && in && e == nil {
				json.Unmarshal(bb, &one)
				if one.Message != "" {
					bad = true
					show(one.Message, one.Rendered)
				}
			} else {
				bad = true
				show("process ended or hung: "+firstLines(c.stderr.String(), 15), nil)
			}
		}
	case "sequence":
		c := spawn(append(baseArgs(p), "-shard", fmt.Sprint(rec.Shard), "-of", fmt.Sprint(rec.Of), "-until", fmt.Sprint(rec.Case), "-dir", dir)...)
		e, in := c.wait(15 * time.Minute)
		var r childRes
		bb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", rec.Shard)))
		json.Unmarshal(bb, &r)
		if !in || e != nil {
			bad = true
			show(firstLines(c.stderr.String(), 15), nil)
		} else if r.Fail != nil {
			bad = true
			show(r.Fail.Message, nil)
		}
	case "enumeration":
		for _, fc := range p.Fixed {
			if fc.Name == rec.Name {
				func() {
					defer func() {
						if e := recover(); e != nil {
							bad = true
							show(fmt.Sprint(e), nil)
						}
					}()
					fc.Run(&Fixed{Tier: rec.Tier})
				}()
			}
		}
	case "known":
		for _, kc := range p.Known {
			if kc.Key == rec.Name {
				if m := kc.Run(); m != "" {
					bad = true
					show(m, nil)
				}
			}
		}
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rec.Property, path)
		return 1
	}
	fmt.Println("the replay holds")
	return 0
}

var _ = runtime.NumCPU
