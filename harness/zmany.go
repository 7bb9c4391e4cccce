package main

// Sizes beyond what the generators reach: each of these runs once per check.

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

// scatter is a permutation-like sequence without much structure.
func scatter(i int) int { return int(uint32(i) * 2654435761 >> 8 % 100003) }

// fixedQueueMany fills a queue with more than 65536 values, and empties it in waves.
func fixedQueueMany(f *Fixed) {
	q := queue.New()
	in, out := 0, 0
	put := func(k int) {
		for ; k > 0; k-- {
			q.Enqueue(in)
			in++
		}
	}
	get := func(k int) {
		for ; k > 0; k-- {
			if q.Empty() {
				f.Failf("the queue is empty with %d values in and %d out", in, out)
			}
			if v := q.Dequeue(); v != out {
				f.Failf("after %d values in and %d out comes %v", in, out, v)
			}
			out++
		}
	}
	put(70000)
	get(69000)
	put(40000)
	get(20000)
	put(50000)
	get(in - out)
	if !q.Empty() {
		f.Failf("the queue is not empty after %d values in and out", in)
	}
	f.Count += in
}

// fixedTreeMany puts 150000 values into a tree and takes them out from both ends.
func fixedTreeMany(f *Fixed) {
	const n, m = 150000, 100003
	counts := make([]int, m)
	t := bst.New()
	for i := 0; i < n; i++ {
		v := scatter(i) % m
		t.Insert(float64(v))
		counts[v]++
	}
	lo, hi := 0, m-1
	for left := n; left > 0; left-- {
		for counts[lo] == 0 {
			lo++
		}
		for counts[hi] == 0 {
			hi--
		}
		if t.Min() != float64(lo) || t.Max() != float64(hi) {
			f.Failf("%d of %d values left: minimum %v and maximum %v, want %d and %d", left, n, t.Min(), t.Max(), lo, hi)
		}
		v := lo
		if left%3 == 0 {
			v = hi
		}
		if !t.Remove(float64(v)) {
			f.Failf("%d of %d values left: %d cannot be removed", left, n, v)
		}
		counts[v]--
	}
	if t.Min() != nil || t.Max() != nil {
		f.Failf("emptied tree: minimum %v and maximum %v", t.Min(), t.Max())
	}
	f.Count++
}

// fixedCounts gives the channel helpers large counts and periods.
func fixedCounts(id string) func(*Fixed) {
	return func(f *Fixed) {
		const n = 30000
		src := func(n int) <-chan int {
			c := make(chan int, 64)
			go func() {
				defer close(c)
				for i := 0; i < n; i++ {
					c <- i%1000 + 1
				}
			}()
			return c
		}
		is := func(name string, c <-chan int, m int, want func(i int) int) {
			k := 0
			for x := range c {
				if k >= m || x != want(k) {
					f.Failf("%s on %d values: value %d is %d (of %d)", name, n, k, x, m)
				}
				k++
			}
			if k != m {
				f.Failf("%s on %d values delivers %d, want %d", name, n, k, m)
			}
			f.Count++
		}
		at := func(i int) int { return i%1000 + 1 }
		switch id {
		case "A04":
			for _, p := range []int{100, 1000, 1024, 1025, 4097, 20000, 29999, 30000, 70000} {
				s := 0
				is(fmt.Sprintf("SmaT(%d)", p), ta.SmaT(p, src(n)), n, func(i int) int {
					s += at(i)
					if i >= p {
						s -= at(i - p)
					}
					return s / p
				})
			}
		case "H01":
			for _, k := range []int{100, 1000, 1024, 1025, 4097, 29999, 30000, 30001, 70000} {
				is(fmt.Sprintf("Shift(%d)", k), helpertools.Shift(src(n), k, -7), n+k, func(i int) int {
					if i < k {
						return -7
					}
					return at(i - k)
				})
				is(fmt.Sprintf("Skip(%d)", k), helpertools.Skip(src(n), k), max(n-k, 0), func(i int) int { return at(i + k) })
			}
			for _, k := range []int{64, 300, 1025} {
				cs := helpertools.Duplicate(src(500), k)
				if len(cs) != k {
					f.Failf("%d copies of a channel: %d", k, len(cs))
				}
				var wg sync.WaitGroup
				bad := make([]string, k)
				for j := range cs {
					j := j
					wg.Add(1)
					go func() {
						defer wg.Done()
						i := 0
						for x := range cs[j] {
							if i >= 500 || x != at(i) {
								bad[j] = fmt.Sprintf("copy %d of %d: value %d is %d", j, k, i, x)
							}
							i++
						}
						if i != 500 {
							bad[j] = fmt.Sprintf("copy %d of %d delivers %d of 500 values", j, k, i)
						}
					}()
				}
				wg.Wait()
				if s := strings.Join(bad, ""); s != "" {
					f.Failf("%s", s)
				}
				f.Count++
			}
			for _, d := range []int{10, 500, 5000} {
				is("Operate, first longer", helpertools.Operate(src(n+d), src(n), func(a, b int) int { return a*2000 + b }), n, func(i int) int { return at(i) * 2001 })
				is("Operate, second longer", helpertools.Operate(src(n), src(n+d), func(a, b int) int { return a*2000 + b }), n, func(i int) int { return at(i) * 2001 })
			}
		case "H02":
			for _, pairs := range []int{10, 100, 1000} {
				mk := func(odd int) []<-chan int {
					var cs []<-chan int
					for k := 0; k < 2*pairs; k++ {
						xs := []int{k / 2, 5, 6}
						if k == odd {
							xs[2] = 7
						}
						cs = append(cs, helpertools.Slice2Chan(xs))
					}
					return cs
				}
				if err := helpertools.CheckEquals(mk(-1)...); err != nil {
					f.Failf("%d pairs of equal channels: %v", pairs, err)
				}
				for _, odd := range []int{0, pairs, 2*pairs - 2, 2*pairs - 1} {
					if helpertools.CheckEquals(mk(odd)...) == nil {
						f.Failf("%d pairs of channels, channel %d differs: no error", pairs, odd)
					}
					f.Count++
				}
			}
		}
	}
}

// fixedBlocks keeps a list of thousands of order blocks.
func fixedBlocks(f *Fixed) {
	const n = 3000
	mk := func(i int) trend.SmartMoneyConceptsDataOrderBlock {
		return trend.SmartMoneyConceptsDataOrderBlock{IsTop: i%2 == 0, Time: time.Unix(int64(i/2)*60, 0), Close: float64(i)}
	}
	var l trend.SmartMoneyConceptsDataOrderBlockList
	for i := 0; i < n; i++ {
		l = l.Add(mk(i))
		l = l.Add(mk(i * 7 % (i + 1))) // there already
		if len(l) != i+1 {
			f.Failf("%d order blocks are added, the list has %d", i+1, len(l))
		}
	}
	for i := range l {
		if l[i].Close != float64(n-1-i) || !l.Contains(mk(i)) {
			f.Failf("of %d order blocks, place %d holds the one added as number %v", n, i, l[i].Close)
		}
	}
	for i := 0; i < n; i += 2 {
		l = l.Remove(mk(i))
	}
	if len(l) != n/2 {
		f.Failf("half of %d order blocks removed: %d left", n, len(l))
	}
	for i := range l {
		if l[i].Close != float64(n-1-2*i) {
			f.Failf("half of %d order blocks removed: place %d holds the one added as number %v", n, i, l[i].Close)
		}
	}
	f.Count += n
}

// manyCandles are n candles with times that repeat and are in no order.
func manyCandles(n int) []*klines.Candle {
	cs := make([]*klines.Candle, n)
	for i := range cs {
		x := float64(scatter(i)%1000)/8 + 50
		cs[i] = &klines.Candle{TimeUnix: int64(scatter(i)%(n*3/4)) * 60, Open: x, Close: x + float64(i%5) - 2, High: x + 3, Low: x - 3, Volume: float64(i % 7), Count: int64(i)}
	}
	return cs
}

func fixedCandles(f *Fixed) {
	for _, n := range []int{5000, 20000} {
		cs := manyCandles(n)
		item := func() *klines.Item {
			return &klines.Item{Interval: klines.OneMin, Candles: append([]*klines.Candle(nil), cs...)}
		}
		var want []*klines.Candle
		seen := map[int64]bool{}
		for _, c := range cs {
			if !seen[c.TimeUnix] {
				seen[c.TimeUnix] = true
				want = append(want, c)
			}
		}
		same := func(what string, got, want []*klines.Candle) {
			if len(got) != len(want) {
				f.Failf("%s leaves %d of %d candles, want %d", what, len(got), n, len(want))
			}
			for i := range got {
				if *got[i] != *want[i] {
					f.Failf("%s of %d candles: candle %d is %v, want %v", what, n, i, got[i], want[i])
				}
			}
			f.Count++
		}
		it := item()
		it.RemoveDuplicates()
		same("de-duplication", it.Candles, want)
		for _, desc := range []bool{false, true} {
			it.SortCandlesByTimestamp(desc)
			if len(it.Candles) != len(want) {
				f.Failf("sorting %d candles leaves %d", len(want), len(it.Candles))
			}
			for i := 1; i < len(it.Candles); i++ {
				if a, b := it.Candles[i-1].TimeUnix, it.Candles[i].TimeUnix; a >= b && !desc || a <= b && desc {
					f.Failf("%d candles sorted (descending %v): times %d and %d at %d", len(want), desc, a, b, i-1)
				}
			}
			m := map[int64]bool{}
			for _, c := range it.Candles {
				m[c.Count] = true
			}
			for _, c := range want {
				if !m[c.Count] {
					f.Failf("%d candles sorted (descending %v): %v is missing", len(want), desc, c)
				}
			}
		}
		a, b := int64(n/8)*60, int64(n/2)*60
		var in []*klines.Candle
		for _, c := range cs {
			if c.TimeUnix >= a && c.TimeUnix < b {
				in = append(in, c)
			}
		}
		it = item()
		same("a copy of a range", it.RemoveOutsideRangeCopy(time.Unix(a, 0), time.Unix(b, 0)).Candles, in)
		same("a copy of a range, the list itself:", it.Candles, cs)
		it.RemoveOutsideRange(time.Unix(a, 0), time.Unix(b, 0))
		same("removing what is outside a range", it.Candles, in)
	}
}

func fixedDerived(f *Fixed) {
	const n = 70000
	cs := manyCandles(n)
	it := &klines.Item{Interval: klines.OneMin, Candles: cs}
	o, hl2, hlc3, ohlc4, ha := it.GetOHLC(), it.HL2(), it.HLC3(), it.OHLC4(), it.ToHeikinAshi()
	for what, k := range map[string]int{"open": len(o.Open), "high": len(o.High), "low": len(o.Low), "close": len(o.Close), "volume": len(o.Volume), "times": len(o.TimeUnix), "flags": len(o.BullMarket),
		"HL2": len(hl2), "HLC3": len(hlc3), "OHLC4": len(ohlc4), "Heikin-Ashi": len(ha.Candles)} {
		if k != n {
			f.Failf("%s of %d candles has %d entries", what, n, k)
		}
	}
	same := func(i int, what string, got, want float64) {
		if math.Abs(got-want) > 1e-11 {
			f.Failf("%s of candle %d (of %d) is %v, want %v", what, i, n, got, want)
		}
	}
	for i, c := range cs {
		if o.Open[i] != c.Open || o.High[i] != c.High || o.Low[i] != c.Low || o.Close[i] != c.Close || o.Volume[i] != c.Volume || o.TimeUnix[i] != c.TimeUnix || o.BullMarket[i] != c.IsBullMarket {
			f.Failf("the series at candle %d (of %d) hold %v %v %v %v %v %v, want %v", i, n, o.Open[i], o.High[i], o.Low[i], o.Close[i], o.Volume[i], o.TimeUnix[i], c)
		}
		same(i, "HL2", hl2[i], (c.High+c.Low)/2)
		same(i, "HLC3", hlc3[i], (c.High+c.Low+c.Close)/3)
		same(i, "OHLC4", ohlc4[i], (c.Open+c.High+c.Low+c.Close)/4)
		open := (c.Open + c.Close) / 2
		if i > 0 {
			open = (cs[i-1].Open + cs[i-1].Close) / 2
		}
		h := ha.Candles[i]
		same(i, "the Heikin-Ashi open", h.Open, open)
		same(i, "the Heikin-Ashi close", h.Close, (c.Open+c.High+c.Low+c.Close)/4)
		same(i, "the Heikin-Ashi high", h.High, math.Max(c.High, open))
		same(i, "the Heikin-Ashi low", h.Low, math.Min(c.Low, open))
		if h.TimeUnix != c.TimeUnix || h.IsBullMarket != (c.Close > c.Open) {
			f.Failf("Heikin-Ashi candle %d (of %d) has time %d, bull %v", i, n, h.TimeUnix, h.IsBullMarket)
		}
	}
	f.Count += n
}

// namedSides is a strategy of the user's own.
type namedSides struct{ k int }

func (s namedSides) AnalysisSide() utils.SideData {
	d := make([]utils.Side, s.k%5)
	for i := range d {
		d[i] = utils.Side((s.k + i) % 3)
	}
	return utils.SideData{Name: fmt.Sprintf("own%d", s.k), Data: d}
}

func fixedStrategies(f *Fixed) {
	for _, n := range []int{9, 10, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257, 1000, 1025} {
		ss := make([]utils.IStrategy, n)
		for i := range ss {
			ss[i] = namedSides{scatter(i) % 700}
		}
		got := utils.RunStrategies(ss...)
		if len(got) != n {
			f.Failf("%d strategies give %d results", n, len(got))
		}
		for i := range got {
			w := ss[i].AnalysisSide()
			if got[i].Name != w.Name {
				f.Failf("of %d strategies, result %d is named %s, want %s", n, i, got[i].Name, w.Name)
			}
			if d := sameSides(got[i].Data, w.Data, len(w.Data)); d != "" || len(got[i].Data) != len(w.Data) {
				f.Failf("of %d strategies, result %d (%s) differs: %s", n, i, w.Name, d)
			}
		}
		f.Count++
	}
}

// fixedExample loads a file of some megabytes, and runs the program on thousands of candles.
func fixedExample(f *Fixed) {
	dir, err := os.MkdirTemp("", "verif-example-")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "data"), 0o755)
	write := func(n int) *klines.Item {
		cs := make([]*klines.Candle, n)
		for i := range cs {
			x := 100 + 30*math.Sin(float64(i)/40) + float64(scatter(i)%1000)/100
			y := x + float64(scatter(i+n)%400)/100 - 2
			cs[i] = &klines.Candle{TimeUnix: 1500000000 + int64(i)*1800, Open: x, Close: y, High: math.Max(x, y) + 1, Low: math.Min(x, y) - 1, Volume: 5 + float64(scatter(i+5)%90), IsBullMarket: y > x, ChangePercent: (y - x) / x}
		}
		b, err := json.Marshal(cs)
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, "data", "test.json"), b, 0o644)
		}
		if err != nil {
			return nil
		}
		return &klines.Item{Interval: klines.ThirtyMin, Candles: cs}
	}
	old, err := os.Getwd()
	if err != nil {
		return
	}
	for _, n := range []int{1000, 30000} {
		want := write(n)
		if want == nil || os.Chdir(dir) != nil {
			return
		}
		got := func() *klines.Item { defer os.Chdir(old); return utils.GetTestKlineItem() }()
		if len(got.Candles) != n {
			f.Failf("of a file of %d candles %d are loaded", n, len(got.Candles))
		}
		for i := range got.Candles {
			if *got.Candles[i] != *want.Candles[i] {
				f.Failf("of a file of %d candles, candle %d is loaded as %v, want %v", n, i, got.Candles[i], want.Candles[i])
			}
		}
		f.Count++
	}
	for _, n := range []int{1500, 10500} {
		item := write(n)
		if item == nil {
			return
		}
		cmd := exec.Command(os.Getenv("VERIF_EXAMPLE"))
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "TZ=UTC", "PWD="+dir)
		out, err := cmd.Output()
		if err != nil {
			f.Failf("the example fails on a file of %d candles: %v", n, err)
		}
		want := exampleLines(item)
		got := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
		if len(got) != len(want) {
			f.Failf("the example prints %d lines for %d candles", len(got), n)
		}
		for i := range want {
			if got[i] != want[i] {
				f.Failf("line %d of %d is\n%s\nwant\n%s", i+1, n, got[i], want[i])
			}
		}
		f.Count++
	}
}

func init() {
	add := func(id, name string, run func(*Fixed)) {
		props[id].Fixed = append(props[id].Fixed, FixedCase{name, run})
	}
	add("B01", "150000 values, taken from both ends", fixedTreeMany)
	add("B02", "more than 65536 values waiting", fixedQueueMany)
	for _, id := range []string{"A04", "H01", "H02"} {
		add(id, "large counts", fixedCounts(id))
	}
	add("T05", "thousands of order blocks in a list", fixedBlocks)
	add("K02", "20000 candles", fixedCandles)
	add("K04", "70000 candles", fixedDerived)
	add("C09", "up to 1025 strategies", fixedStrategies)
	add("M01", "files of some megabytes", fixedExample)
}
