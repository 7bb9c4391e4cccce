package main

// A04, H01, H02: helpers over channels.

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils/ta"
)

// pace is how a producer or consumer spends its time between values.
type pace struct {
	seed  uint64
	every int
}

func genPace(t *T) pace { return pace{uint64(t.Int(0, 1<<20)), t.Int(0, 3)} }

func (p *pace) step() {
	if p.every == 0 {
		return
	}
	p.seed = p.seed*6364136223846793005 + 1442695040888963407
	switch x := p.seed >> 33; {
	case p.every == 3 && x%61 == 0:
		time.Sleep(time.Duration(x%40) * time.Microsecond)
	case x%uint64(p.every+1) == 0:
		for k := x >> 8 % 4; k > 0 && k < 5; k-- {
			runtime.Gosched()
		}
	}
}

// feed sends the values at its pace through a channel and closes it.
func feed[V any](p pace, capacity int, xs []V) <-chan V {
	c := make(chan V, capacity)
	go func() {
		defer close(c)
		for _, x := range xs {
			p.step()
			c <- x
		}
	}()
	return c
}

// collect takes all values, at most max of them.
func collect[V any](t *T, p pace, c <-chan V, max int, what string) []V {
	var r []V
	for x := range c {
		p.step()
		r = append(r, x)
		if len(r) > max {
			t.Failf("%s delivers more than %d values: %v", what, max, r)
		}
	}
	return r
}

// feedInStep gives a value only after the result for the one before is taken:
// lead results come before the first value, the first lag values give none.
func feedInStep[V, W any](t *T, what string, capacity int, xs []V, lead, lag int, f func(<-chan V) <-chan W) []W {
	done := make(chan []W, 1)
	at := make(chan int, 2*len(xs)+lead+2)
	go func() {
		var r []W
		c := make(chan V, capacity)
		o := f(c)
		for i := 0; i < lead; i++ {
			r = append(r, <-o)
		}
		for i, x := range xs {
			at <- i
			c <- x
			if i >= lag {
				if y, ok := <-o; ok {
					r = append(r, y)
				}
			}
		}
		close(c)
		for y := range o {
			r = append(r, y)
		}
		done <- r
	}()
	for i := 0; ; i++ {
		select {
		case r := <-done:
			return r
		case <-time.After(10 * time.Millisecond):
			if i > 30 {
				if s := stuck(); s != "" {
					k := -1
					for len(at) > 0 {
						k = <-at
					}
					t.Failf("%s gives no result for value %d before it gets the next one: %s", what, k, s)
				}
			}
		}
	}
}

// collectAll takes all values of several channels, each with its own consumer.
func collectAll[V any](ps []pace, cs []<-chan V, max int) [][]V {
	r := make([][]V, len(cs))
	done := make(chan int)
	for i := range cs {
		go func(i int) {
			for x := range cs[i] {
				ps[i].step()
				if len(r[i]) <= max {
					r[i] = append(r[i], x)
				}
			}
			done <- i
		}(i)
	}
	for range cs {
		<-done
	}
	return r
}

func sameSeq[V comparable](t *T, what string, got, want []V) {
	if len(got) != len(want) {
		t.Failf("%s delivers %d values %v, want %d: %v", what, len(got), got, len(want), want)
	}
	for i := range got {
		if got[i] != want[i] {
			t.Failf("%s: value %d is %v, want %v", what, i, got[i], want[i])
		}
	}
}

func mapOf[V, W any](xs []V, f func(V) W) []W {
	r := make([]W, len(xs))
	for i := range xs {
		r[i] = f(xs[i])
	}
	return r
}

func genInts(t *T, max int) []int {
	var xs []int
	n := t.Hidden(8)
	if t.Hidden(4) == 0 {
		n = t.Hidden(max)
	}
	if max >= 12 && t.Hidden(400) == 0 { // beyond any buffer
		n = 200 + t.Hidden(2500)
	}
	t.List(n, 3000, func(i int) { xs = append(xs, t.Zig(50)) })
	return xs
}

func runChans(t *T) {
	before := runtime.NumGoroutine()
	xs := genInts(t, 60)
	capIn := Of(t, 0, 1, 2, 3, 7, 64, 300, 3000)
	pp, pc := genPace(t), genPace(t)
	kind := t.Round(12)
	n := len(xs)
	t.Notef("kind %d capacity %d values %v", kind, capIn, xs)
	t.ClassIf(n == 0, "empty input")
	t.ClassIf(capIn > n, "capacity beyond the input")
	t.NonTrivial(n > 1)
	name := ""
	switch kind {
	case 0:
		name = "Apply"
		f := func(x int) int { return 3*x - 1 }
		sameSeq(t, name, collect(t, pc, helpertools.Apply(feed(pp, capIn, xs), f), n+5, name), mapOf(xs, f))
	case 1:
		name = "Operate"
		ys := genInts(t, 60)
		k := n
		if len(ys) < k {
			k = len(ys)
		}
		var want []string
		for i := 0; i < k; i++ {
			want = append(want, fmt.Sprint(xs[i], "/", float64(ys[i])/2))
		}
		o := helpertools.Operate(feed(pp, capIn, xs), feed(genPace(t), Of(t, 0, 1, 5), mapOf(ys, func(y int) float64 { return float64(y) / 2 })), func(a int, b float64) string { return fmt.Sprint(a, "/", b) })
		sameSeq(t, name, collect(t, pc, o, k+5, name), want)
		t.ClassIf(n < len(ys), "first input ends first")
		t.ClassIf(n > len(ys), "second input ends first")
		t.NonTrivial(k > 0 && n != len(ys))
	case 2:
		name = "Duplicate"
		cnt := t.Int(1, 5)
		if t.Chance(3) {
			cnt = t.Int(6, 40)
		} else if t.Chance(3) { // none: the input is read all the same
			cnt = 0
		}
		outs := helpertools.Duplicate(feed(pp, capIn, xs), cnt)
		if len(outs) != cnt {
			t.Failf("Duplicate(%d) gives %d channels", cnt, len(outs))
		}
		if cnt > 0 && capIn >= n && t.Chance(40) { // the copies have room for what the input has room for: read one after the other
			all := make(chan [][]int, 1)
			go func() {
				var r [][]int
				for _, o := range outs {
					r = append(r, helpertools.Chan2Slice(o))
				}
				all <- r
			}()
			var r [][]int
			for i := 0; r == nil; i++ {
				select {
				case r = <-all:
				case <-time.After(10 * time.Millisecond):
					if i > 30 {
						if s := stuck(); s != "" {
							t.Failf("Duplicate(%d) of a channel with room for %d: reading the copies of %d values one after the other does not end: %s", cnt, capIn, n, s)
						}
					}
				}
			}
			for i, g := range r {
				sameSeq(t, fmt.Sprintf("output %d of Duplicate(%d), read one after the other", i, cnt), g, xs)
			}
			t.Class("copies read one after the other")
			break
		}
		ps := make([]pace, cnt)
		for i := range ps {
			ps[i] = genPace(t)
		}
		for i, g := range collectAll(ps, outs, n+5) {
			sameSeq(t, fmt.Sprintf("output %d of Duplicate(%d)", i, cnt), g, xs)
		}
	case 3:
		name = "Shift"
		cnt, fill := t.Int(0, 9), t.Zig(9)
		if t.Chance(3) {
			cnt = t.Int(10, 2000)
		}
		var want []int
		for i := 0; i < cnt; i++ {
			want = append(want, fill)
		}
		want = append(want, xs...)
		name = fmt.Sprintf("Shift(%d)", cnt)
		sameSeq(t, name, collect(t, pc, helpertools.Shift(feed(pp, capIn, xs), cnt, fill), len(want)+5, name), want)
		t.NonTrivial(cnt > 0)
	case 4:
		cnt := t.Int(0, 12)
		if t.Chance(3) {
			cnt = t.Int(13, 3000)
		}
		name = fmt.Sprintf("Skip(%d)", cnt)
		var want []int
		if cnt < n {
			want = xs[cnt:]
		}
		sameSeq(t, name, collect(t, pc, helpertools.Skip(feed(pp, capIn, xs), cnt), n+5, name), want)
		t.ClassIf(cnt > n, "skip beyond the input")
	case 5:
		name = "Pipe"
		c := make(chan int, Of(t, 0, 1, 4))
		go helpertools.Pipe(feed(pp, capIn, xs), c)
		sameSeq(t, name, collect(t, pc, c, n+5, name), xs)
	case 6:
		name = "Drain"
		c := make(chan int, capIn)
		sent := 0
		go func() {
			for _, x := range xs {
				pp.step()
				c <- x
				sent++
			}
			close(c)
		}()
		helpertools.Drain(c)
		if _, ok := <-c; ok || sent != n {
			t.Failf("Drain returns after %d of %d values", sent, n)
		}
	case 7:
		name = "RoundDigits"
		d := t.Int(0, 4)
		fs := mapOf(xs, func(x int) float64 { return float64(x) * 1.23457 })
		if t.Chance(50) { // halves
			fs = mapOf(xs, func(x int) float64 { return float64(x) / 8 })
		}
		got := collect(t, pc, helpertools.RoundDigits(feed(pp, capIn, fs), d), n+5, name)
		if len(got) != n {
			t.Failf("RoundDigits delivers %d values for %d", len(got), n)
		}
		for i := range got {
			checkRounded(t, "RoundDigits", fs[i], d, got[i])
		}
		sameSeq(t, "RoundDigits of integers", collect(t, pc, helpertools.RoundDigits(feed(pp, capIn, xs), d), n+5, name), xs)
		if t.Chance(30) {
			big, short, want := make([]int64, n), make([]float32, n), make([]float32, n)
			ten := math.Pow10(d)
			for i, x := range xs {
				big[i], short[i] = int64(x)<<50+int64(i), float32(x)/8
				want[i] = float32(math.Round(float64(short[i])*ten) / ten)
			}
			sameSeq(t, "RoundDigits of int64", collect(t, pc, helpertools.RoundDigits(feed(pp, capIn, big), d), n+5, name), big)
			sameSeq(t, "RoundDigits of float32", collect(t, pc, helpertools.RoundDigits(feed(pp, capIn, short), d), n+5, name), want)
		}
	case 8:
		name = "Slice2Chan and Chan2Slice"
		keep := append([]int(nil), xs...)
		sameSeq(t, name, helpertools.Chan2Slice(helpertools.Slice2Chan(xs)), keep)
		sameSeq(t, "Chan2Slice", helpertools.Chan2Slice(feed(pp, capIn, xs)), keep)
		sameSeq(t, "Slice2Chan", collect(t, pc, helpertools.Slice2Chan(xs), n+5, name), keep)
		sameSeq(t, "the slice given", xs, keep)
	case 9: // a chain of helpers
		name = "a chain"
		c := feed(pp, capIn, xs)
		want := append([]int(nil), xs...)
		for k := t.Int(1, 5); k > 0; k-- {
			switch t.Int(0, 5) {
			case 0:
				kk := k
				f := func(x int) int { return x + kk }
				c = helpertools.Apply(c, f)
				want = mapOf(want, f)
			case 1:
				m := t.Int(0, 4)
				c = helpertools.Shift(c, m, -m)
				w := []int{}
				for j := 0; j < m; j++ {
					w = append(w, -m)
				}
				want = append(w, want...)
			case 2:
				m := t.Int(0, 4)
				c = helpertools.Skip(c, m)
				if m > len(want) {
					m = len(want)
				}
				want = want[m:]
			case 3: // the value less the one before
				cs := helpertools.Duplicate(c, 2)
				m := t.Int(1, 3)
				c = helpertools.Operate(cs[0], helpertools.Shift(cs[1], m, 0), func(a, b int) int { return a - b })
				w := make([]int, len(want))
				for i := range want {
					w[i] = want[i]
					if i >= m {
						w[i] -= want[i-m]
					}
				}
				want = w
			case 4: // two copies, drained and kept
				cs := helpertools.Duplicate(c, 2)
				go helpertools.Drain(cs[0])
				c = cs[1]
			case 5:
				p := make(chan int, t.Int(0, 2))
				go helpertools.Pipe(c, p)
				c = p
			}
		}
		sameSeq(t, name, collect(t, pc, c, len(want)+5, name), want)
	case 11: // each result is there before the next value
		name = "in step"
		t.Class("in step")
		m := t.Int(0, 5)
		run := func(what string, lead, lag int, want []int, f func(c <-chan int) <-chan int) {
			sameSeq(t, what+" in step", feedInStep(t, what, capIn, xs, lead, lag, f), want)
		}
		same := append([]int(nil), xs...)
		switch t.Int(0, 6) {
		case 0:
			f := func(x int) int { return 7 - x }
			run("Apply", 0, 0, mapOf(xs, f), func(c <-chan int) <-chan int { return helpertools.Apply(c, f) })
		case 1:
			run("Shift", m, 0, append(make([]int, m), xs...), func(c <-chan int) <-chan int { return helpertools.Shift(c, m, 0) })
		case 2:
			k := m
			if k > n {
				k = n
			}
			run("Skip", 0, m, same[k:], func(c <-chan int) <-chan int { return helpertools.Skip(c, m) })
		case 3:
			run("Pipe", 0, 0, same, func(c <-chan int) <-chan int {
				o := make(chan int, m)
				go helpertools.Pipe(c, o)
				return o
			})
		case 4:
			run("Operate", 0, 0, mapOf(xs, func(x int) int { return x + x }), func(c <-chan int) <-chan int {
				cs := helpertools.Duplicate(c, 2)
				return helpertools.Operate(cs[0], cs[1], func(a, b int) int { return a + b })
			})
		case 5:
			run("Duplicate", 0, 0, same, func(c <-chan int) <-chan int { return helpertools.Duplicate(c, 1)[0] })
		case 6:
			run("RoundDigits", 0, 0, same, func(c <-chan int) <-chan int { return helpertools.RoundDigits(c, m) })
		}
	case 10: // Operate on two copies of one input, one of them shorter
		name = "Operate on copies"
		m := t.Int(0, 5)
		cs := helpertools.Duplicate(feed(pp, capIn, xs), 2)
		o := helpertools.Operate(cs[0], helpertools.Shift(cs[1], m, 1), func(a, b int) int { return 2*a + b })
		var want []int
		for i := range xs {
			b := 1
			if i >= m {
				b = xs[i-m]
			}
			want = append(want, 2*xs[i]+b)
		}
		sameSeq(t, name, collect(t, pc, o, n+5, name), want)
	}
	t.Class("%s", []string{"Apply", "Operate", "Duplicate", "Shift", "Skip", "Pipe", "Drain", "RoundDigits", "slices", "chains", "copies", "streaming"}[kind])
	if left := settle(before); left != "" {
		t.Failf("%s: %s", name, left)
	}
}

// helperProp is the property that speaks about a helper.
func helperProp(name string) string {
	switch {
	case strings.HasPrefix(name, "SmaT"):
		return "A04"
	case strings.HasPrefix(name, "CheckEquals"):
		return "H02"
	}
	return "H01"
}

// fixedPauses lets producers, and then consumers, wait for longer than any
// sensible time limit inside a helper.
func fixedPauses(id string) func(*Fixed) { return func(f *Fixed) { pauses(f, id) } }

func pauses(f *Fixed, id string) {
	const pause = 1200 * time.Millisecond
	xs := []int{4, 1, 7, 7, -2}
	slow := func() <-chan int {
		c := make(chan int)
		go func() {
			defer close(c)
			for i, x := range xs {
				if i == 0 || i == 3 {
					time.Sleep(pause)
				}
				c <- x
			}
			time.Sleep(pause)
		}()
		return c
	}
	type result struct {
		name string
		got  any
		want any
	}
	out := make(chan result, 100)
	n := 0
	run := func(name string, want any, g func() any) {
		if helperProp(name) != id {
			return
		}
		n++
		go func() { out <- result{name, g(), want} }()
	}
	// late takes the first values late, and the others too.
	late := func(c <-chan int) any {
		r := []int{}
		time.Sleep(pause)
		for x := range c {
			if r = append(r, x); len(r) == 3 {
				time.Sleep(pause)
			}
		}
		return r
	}
	now := func(c <-chan int) any {
		r := []int{}
		for x := range c {
			r = append(r, x)
		}
		return r
	}
	neg := func(x int) int { return -x }
	add := func(a, b int) int { return a + b }
	for k := 0; k < 2; k++ {
		take, src, who := now, slow, "slow producer"
		if k == 1 {
			take, who = late, "slow consumer"
			src = func() <-chan int {
				c := make(chan int)
				go func() {
					defer close(c)
					for _, x := range xs {
						c <- x
					}
				}()
				return c
			}
		}
		run("Apply, "+who, mapOf(xs, neg), func() any { return take(helpertools.Apply(src(), neg)) })
		run("Operate, "+who, mapOf(xs, func(x int) int { return 2 * x }), func() any { return take(helpertools.Operate(src(), helpertools.Slice2Chan(xs), add)) })
		run("Operate, the other one, "+who, mapOf(xs, func(x int) int { return 2 * x }), func() any { return take(helpertools.Operate(helpertools.Slice2Chan(xs), src(), add)) })
		for i := 0; i < 2; i++ {
			i := i
			run(fmt.Sprintf("Duplicate, output %d, %s", i, who), xs, func() any {
				cs := helpertools.Duplicate(src(), 2)
				go helpertools.Drain(cs[1-i])
				return take(cs[i])
			})
		}
		run("Shift, "+who, append([]int{9, 9}, xs...), func() any { return take(helpertools.Shift(src(), 2, 9)) })
		run("Skip, "+who, append([]int{}, xs[2:]...), func() any { return take(helpertools.Skip(src(), 2)) })
		run("Pipe, "+who, xs, func() any {
			c := make(chan int)
			go helpertools.Pipe(src(), c)
			return take(c)
		})
		run("RoundDigits, "+who, xs, func() any { return take(helpertools.RoundDigits(src(), 1)) })
		run("SmaT, "+who, []int{2, 2, 4, 7, 2}, func() any { return take(ta.SmaT(2, src())) })
	}
	run("Chan2Slice, slow producer", xs, func() any { return helpertools.Chan2Slice(slow()) })
	run("Slice2Chan, slow consumer", xs, func() any { return late(helpertools.Slice2Chan(xs)) })
	run("Drain, slow producer", true, func() any {
		c := slow()
		helpertools.Drain(c)
		_, ok := <-c
		return !ok
	})
	run("CheckEquals, slow producers", "<nil>", func() any {
		return fmt.Sprint(helpertools.CheckEquals(slow(), slow(), slow(), helpertools.Slice2Chan(xs)))
	})
	f.Count += n
	for i := 0; i < n; i++ {
		select {
		case r := <-out:
			if g, w := fmt.Sprint(r.got), fmt.Sprint(r.want); g != w {
				f.Failf("%s with pauses of more than a second: %s, want %s", r.name, g, w)
			}
		case <-time.After(60 * time.Second):
			f.Failf("a helper with a slow producer or consumer does not end within a minute")
		}
	}
}

// fixedInputLengths sends inputs of many lengths through every helper: all up to a
// thousand, and those around the multiples of 256 above.
func fixedInputLengths(id string) func(*Fixed) { return func(f *Fixed) { inputLengths(f, id) } }

func inputLengths(f *Fixed, prop string) {
	var ns []int
	for n := 0; n < 1100; n++ {
		ns = append(ns, n)
	}
	top := 6
	if f.Tier == "thorough" {
		top = 20
	}
	for n := 1280; n <= 1024*top; n += 256 {
		ns = append(ns, n-1, n, n+1)
	}
	for _, n := range []int{10000, 16384, 32768, 50000, 65535, 65536, 65537, 100000} {
		ns = append(ns, n)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ns)))
	var next atomic.Int64
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(next.Add(1)) - 1
				if k >= len(ns) || len(bad) > 0 {
					return
				}
				if d := oneLength(ns[k], prop); d != "" {
					bad <- d
					return
				}
			}
		}()
	}
	wg.Wait()
	f.Count += len(ns)
	if len(bad) > 0 {
		f.Failf("%s", <-bad)
	}
}

func oneLength(n int, prop string) string {
	list := make([]int, n)
	for i := range list {
		list[i] = 3*i + 1
	}
	src := func() <-chan int {
		c := make(chan int, 8)
		go func() {
			defer close(c)
			for i := 0; i < n; i++ {
				c <- 3*i + 1
			}
		}()
		return c
	}
	var d string
	is := func(name string, c <-chan int, m int, want func(i int) int) {
		k := 0
		for x := range c {
			if d == "" && (k >= m || x != want(k)) {
				d = fmt.Sprintf("%s on %d values: value %d is %d", name, n, k, x)
				if k < m {
					d += fmt.Sprintf(", want %d", want(k))
				}
			}
			k++
		}
		if d == "" && k != m {
			d = fmt.Sprintf("%s on %d values delivers %d, want %d", name, n, k, m)
		}
	}
	id := func(i int) int { return 3*i + 1 }
	switch prop {
	case "H01":
		is("Slice2Chan", helpertools.Slice2Chan(list), n, id)
		got := helpertools.Chan2Slice(src())
		if d == "" && len(got) != n {
			return fmt.Sprintf("Chan2Slice on %d values gives %d", n, len(got))
		}
		for i := range got {
			if d == "" && got[i] != id(i) {
				return fmt.Sprintf("Chan2Slice on %d values: value %d is %d", n, i, got[i])
			}
		}
		is("Apply", helpertools.Apply(src(), func(x int) int { return -x }), n, func(i int) int { return -3*i - 1 })
		is("Operate", helpertools.Operate(src(), src(), func(a, b int) int { return a + b }), n, func(i int) int { return 6*i + 2 })
		is("Shift(3)", helpertools.Shift(src(), 3, 7), n+3, func(i int) int {
			if i < 3 {
				return 7
			}
			return 3*i - 8
		})
		is("Skip(3)", helpertools.Skip(src(), 3), max(n-3, 0), func(i int) int { return 3*i + 10 })
		c := make(chan int)
		go helpertools.Pipe(src(), c)
		is("Pipe", c, n, id)
		cs := helpertools.Duplicate(src(), 2)
		rest := make(chan []int, 1)
		go func() {
			var r []int
			for x := range cs[1] {
				r = append(r, x)
			}
			rest <- r
		}()
		is("Duplicate", cs[0], n, id)
		r := <-rest
		if d == "" && (len(r) != n || n > 0 && r[n-1] != id(n-1)) {
			return fmt.Sprintf("Duplicate on %d values delivers %d to its second output", n, len(r))
		}
	case "A04":
		is("SmaT(1)", ta.SmaT(1, src()), n, id)
		is("SmaT(3)", ta.SmaT(3, src()), n, func(i int) int {
			s := id(i)
			for j := max(i-2, 0); j < i; j++ {
				s += id(j)
			}
			return s / 3
		})
	case "H02":
		if err := helpertools.CheckEquals(src(), src()); d == "" && err != nil {
			return fmt.Sprintf("CheckEquals on two channels of the same %d values: %v", n, err)
		}
		if n > 0 && d == "" {
			c := make(chan int, 4)
			go func() {
				for _, x := range list[:n-1] {
					c <- x
				}
				c <- -1
				close(c)
			}()
			if helpertools.CheckEquals(src(), c) == nil {
				return fmt.Sprintf("CheckEquals: channels of %d values that differ in the last are equal", n)
			}
		}
	}
	return d
}

// ---------------------------------------------------------------- A04

// otherNumbers runs the streaming average over other number types.
func otherNumbers(t *T, p, capIn int, xs []int) {
	big := make([]int64, len(xs))
	small := make([]int8, len(xs))
	short := make([]float32, len(xs))
	for i, x := range xs {
		big[i], small[i], short[i] = int64(x)<<45+int64(i), int8(x%3), float32(x)/4
	}
	bigs := collect(t, pace{}, ta.SmaT(p, feed(pace{}, capIn, big)), len(xs)+5, "SmaT of int64")
	shorts := collect(t, pace{}, ta.SmaT(p, feed(pace{}, capIn, short)), len(xs)+5, "SmaT of float32")
	var smalls []int8
	if p <= 60 {
		smalls = collect(t, pace{}, ta.SmaT(p, feed(pace{}, capIn, small)), len(xs)+5, "SmaT of int8")
	}
	if len(bigs) != len(xs) || len(shorts) != len(xs) || p <= 60 && len(smalls) != len(xs) {
		t.Failf("SmaT(%d) of %d int64, float32, int8 values delivers %d, %d, %d", p, len(xs), len(bigs), len(shorts), len(smalls))
	}
	var b int64
	var s int8
	f := 0.0
	for i := range xs {
		b, s, f = b+big[i], s+small[i], f+float64(short[i])
		if i >= p {
			b, s, f = b-big[i-p], s-small[i-p], f-float64(short[i-p])
		}
		if bigs[i] != b/int64(p) {
			t.Failf("SmaT(%d) of int64: value %d is %d, want %d", p, i, bigs[i], b/int64(p))
		}
		if math.Abs(float64(shorts[i])-f/float64(p)) > 1e-6*math.Abs(f/float64(p)) {
			t.Failf("SmaT(%d) of float32: value %d is %v, want %v", p, i, shorts[i], f/float64(p))
		}
		if p <= 60 && smalls[i] != s/int8(p) {
			t.Failf("SmaT(%d) of int8: value %d is %d, want %d", p, i, smalls[i], s/int8(p))
		}
	}
	t.Class("int64, float32 and int8")
}

func runSmaT(t *T) {
	before := runtime.NumGoroutine()
	p := per(t)
	capIn := Of(t, 0, 1, 2, 5, 40)
	pp, pc := genPace(t), genPace(t)
	if t.Round(3) == 2 {
		xs := genInts(t, 120)
		t.Notef("integers, period %d capacity %d: %v", p, capIn, xs)
		got := collect(t, pc, ta.SmaT(p, feed(pp, capIn, xs)), len(xs)+5, "SmaT")
		if len(got) != len(xs) {
			t.Failf("SmaT(%d) delivers %d values for %d", p, len(got), len(xs))
		}
		for i := range got {
			s := 0
			for j := i; j >= 0 && j > i-p; j-- {
				s += xs[j]
			}
			if got[i] != s/p {
				t.Failf("SmaT(%d): value %d is %v, the sum of the last inputs is %d", p, i, got[i], s)
			}
		}
		t.NonTrivial(len(xs) > p)
		t.Class("integers")
		if t.Chance(30) {
			otherNumbers(t, p, capIn, xs)
		}
	} else {
		xs := genSeries(t, 120, false)
		keep := dup(xs)
		t.Notef("period %d capacity %d: %v", p, capIn, xs)
		var got []float64
		if t.Chance(30) {
			t.Class("in step")
			got = feedInStep(t, "SmaT", capIn, xs, 0, 0, func(c <-chan float64) <-chan float64 { return ta.SmaT(p, c) })
		} else {
			got = collect(t, pc, ta.SmaT(p, feed(pp, capIn, xs)), len(xs)+5, "SmaT")
		}
		w := winSum(p, exs(xs))
		for i := range w {
			w[i] = div(w[i], ex(float64(p)))
			if math.IsNaN(w[i].V) {
				w[i].Bad = true
			}
		}
		agreeAll(t, fmt.Sprintf("SmaT(%d)", p), got, w)
		sameIn(t, "SmaT", xs, keep)
		t.NonTrivial(len(xs) > p)
		t.Class("floats")
	}
	if left := settle(before); left != "" {
		t.Failf("SmaT: %s", left)
	}
}

// ---------------------------------------------------------------- H02

func buffered[V any](xs []V) <-chan V {
	c := make(chan V, len(xs))
	for _, x := range xs {
		c <- x
	}
	close(c)
	return c
}

type pairOf struct {
	A int
	B string
}

// equals compares the lists as channels of values of another type, one for
// every int.
func equals[V comparable](t *T, own bool, in [][]int, f func(int) V) error {
	var cs []<-chan V
	for _, xs := range in {
		vs := make([]V, len(xs))
		for i, x := range xs {
			vs[i] = f(x)
		}
		if own {
			cs = append(cs, feed(genPace(t), Of(t, 0, 1, 3), vs))
		} else {
			cs = append(cs, buffered(vs))
		}
	}
	return helpertools.CheckEquals(cs...)
}

func runEquals(t *T) {
	before := runtime.NumGoroutine()
	pairs := t.Int(0, 4)
	if t.Chance(3) {
		pairs = t.Int(5, 40)
	}
	odd := t.Chance(8)
	var in [][]int
	equal := true
	longest, differs := 0, []string{}
	for k := 0; k < pairs; k++ {
		a := genInts(t, 12)
		b := append([]int(nil), a...)
		switch t.Pick(70, 12, 6, 6, 6) {
		case 1:
			if len(b) > 0 {
				b[t.Int(0, len(b)-1)] += 1 + t.Int(0, 2)
			}
		case 2:
			b = append(b, t.Zig(2))
		case 3:
			if len(b) > 0 {
				b = b[:t.Int(0, len(b)-1)]
			}
		case 4:
			if len(b) > 1 {
				i := t.Int(0, len(b)-2)
				b[i], b[i+1] = b[i+1], b[i]
			}
		}
		same := len(a) == len(b)
		for i := range a {
			same = same && i < len(b) && a[i] == b[i]
		}
		if !same {
			equal = false
			differs = append(differs, fmt.Sprint(k))
		}
		if len(a) > longest {
			longest = len(a)
		}
		t.Notef("pair %d: %v %v", k, a, b)
		if t.Chance(50) {
			a, b = b, a
		}
		in = append(in, a, b)
	}
	if odd {
		xs := genInts(t, 3)
		in = append(in, xs)
		t.Notef("and a single one: %v", xs)
	}
	own := equal && !odd && t.Chance(50) // producers of their own only where the comparison reads everything
	var err error
	kind := 0
	if t.Chance(30) {
		kind = t.Int(1, 10)
	}
	t.Class("values: %s", []string{"int", "float64 close together", "float64", "text", "struct", "int64 beyond 32 bits", "array", "bool", "int8", "two texts", "any"}[kind])
	switch kind {
	case 0:
		err = equals(t, own, in, func(x int) int { return x })
	case 1: // neighbours in the last place
		err = equals(t, own, in, func(x int) float64 { return 1 + float64(x)*0x1p-52 })
	case 2:
		err = equals(t, own, in, func(x int) float64 { return float64(x) * 1e-12 })
	case 3:
		err = equals(t, own, in, func(x int) string { return strings.Repeat(" ", x&3) + fmt.Sprint(x>>2) })
	case 4:
		err = equals(t, own, in, func(x int) pairOf { return pairOf{x >> 1, []string{"", "a"}[x&1]} })
	case 5: // values are at most a few hundred apart
		err = equals(t, own, in, func(x int) int64 { return int64(x) << 40 })
	case 6:
		err = equals(t, own, in, func(x int) [2]float64 { return [2]float64{0, float64(x)} })
	case 8:
		err = equals(t, own, in, func(x int) int8 { return int8(x) })
	case 9: // the same text when put together
		err = equals(t, own, in, func(x int) [2]string {
			s := fmt.Sprint(1000+x>>1) + " b"
			return [2]string{s[:4+x&1], s[4+x&1:]}
		})
	case 10: // told apart by the type alone in part
		err = equals(t, own, in, func(x int) any {
			switch x & 3 {
			case 0:
				return x >> 2
			case 1:
				return int64(x >> 2)
			case 2:
				return fmt.Sprint(x >> 2)
			}
			return float64(x >> 2)
		})
	case 7: // only whether the lengths agree
		err = equals(t, own, in, func(int) bool { return true })
		equal = true
		for i := 0; i+1 < len(in); i += 2 {
			equal = equal && len(in[i]) == len(in[i+1])
		}
	}
	if odd {
		if err == nil {
			t.Failf("an odd number of channels (%d) is no error", len(in))
		}
		t.Class("odd")
	} else if (err == nil) != equal {
		t.Failf("CheckEquals of %d pairs is %v; pairs that differ: %v", pairs, err, differs)
	}
	t.ClassIf(!odd && equal, "equal")
	t.ClassIf(!odd && !equal, "different")
	t.ClassIf(len(differs) == 1 && pairs > 1 && differs[0] != "0", "only a later pair differs")
	t.NonTrivial(pairs > 0 && longest > 0)
	if left := settle(before); left != "" {
		t.Failf("CheckEquals: %s", left)
	}
}

func init() {
	register(&Prop{ID: "A04", Quick: 300000, Thorough: 6000000, Run: runSmaT, Procs: 4, Rule: "more values than the period",
		Fixed:  []FixedCase{{"pauses of more than a second", fixedPauses("A04")}, {"inputs of many lengths", fixedInputLengths("A04")}},
		Assume: []string{"float sums are compared within the rounding error of a running sum"}})
	register(&Prop{ID: "H01", Quick: 600000, Thorough: 12000000, Run: runChans, Procs: 4, Rule: "more than one value (pairs: inputs of different lengths; shift: by more than 0)",
		Fixed:  []FixedCase{{"pauses of more than a second", fixedPauses("H01")}, {"inputs of many lengths", fixedInputLengths("H01")}},
		Assume: []string{"schedules are those that random pacing of producers and consumers on several threads gives; they are not enumerated"}})
	register(&Prop{ID: "H02", Quick: 1500000, Thorough: 30000000, Run: runEquals, Rule: "at least one pair, one channel with values",
		Fixed: []FixedCase{{"pauses of more than a second", fixedPauses("H02")}, {"inputs of many lengths", fixedInputLengths("H02")}}})
}
