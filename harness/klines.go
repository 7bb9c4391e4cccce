package main

// K01 to K04: candle lists.

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

// truncUnix is the last multiple of the interval (counted from year 1, as
// package time does) not after the second given.
func truncUnix(s int64, iv int64) int64 {
	const toZero = 62135596800 // seconds from year 1 to 1970
	x := s + toZero
	return x - ((x%iv)+iv)%iv - toZero
}

func roundUnix(s int64, iv int64) int64 {
	lo := truncUnix(s, iv)
	if 2*(s-lo) >= iv {
		return lo + iv
	}
	return lo
}

// gapless sets the times of a history to follow each other from start.
func gapless(h *Hist, start int64) {
	d := int64(h.Interval.Duration() / time.Second)
	for i := range h.C {
		h.C[i].TimeUnix = start + int64(i)*d
	}
}

// window is the candle that the f candles from i on make.
func checkWindow(fail func(string, ...any), c *klines.Candle, src []klines.Candle, what string) {
	open, cl, hi, lo := src[0].Open, src[len(src)-1].Close, src[0].High, src[0].Low
	vol := E{X: true}
	for _, s := range src {
		hi, lo = math.Max(hi, s.High), math.Min(lo, s.Low)
		vol = add(vol, ex(s.Volume))
	}
	if c.Open != open {
		fail("%s: open %v, want the first open %v", what, c.Open, open)
	}
	if c.Close != cl {
		fail("%s: close %v, want the last close %v", what, c.Close, cl)
	}
	if c.High != hi {
		fail("%s: high %v, want %v", what, c.High, hi)
	}
	if c.Low != lo {
		fail("%s: low %v, want %v", what, c.Low, lo)
	}
	if !vol.agree(c.Volume) {
		fail("%s: volume %v, want %v", what, c.Volume, vol)
	}
	if c.IsBullMarket != (cl > open) {
		fail("%s: bull flag %v with open %v and close %v", what, c.IsBullMarket, open, cl)
	}
	if want := div(sub(ex(cl), ex(open)), ex(open)); !want.agree(c.ChangePercent) {
		fail("%s: change %v, want %v", what, c.ChangePercent, want)
	}
}

var secIntervals = []int64{60, 1, 10, 15, 180, 300, 900, 1800, 3600, 7200, 4 * 3600, 86400, 90, 7 * 86400, 3000, 21 * 3600}

func runK01(t *T) {
	d := secIntervals[t.Int(0, len(secIntervals)-1)]
	f := t.Int(2, 14)
	if t.Chance(5) {
		f = t.Int(2, 120)
	}
	kind := t.Pick(55, 15, 10, 8, 12) // aligned, unaligned, broken sequence, bad intervals, chained
	n := t.Hidden(7*f + 3)
	switch t.Hidden(12) {
	case 0:
		n = f * (1 + t.Hidden(5))
	case 1:
		n = f*(1+t.Hidden(5)) + 1 - 2*t.Hidden(2)
	case 2:
		n = t.Hidden(f + 1)
	}
	h := genHistN(t, n, klines.Interval(time.Duration(d)*time.Second))
	n = len(h.C)
	newI := d * int64(f)
	// times from 1971 to the far future, a small number of intervals apart
	base := []int64{1600000000, 86400 * 400, 1700000000, 2600000000, -1000000000, -86400 * 3}[t.Pick(24, 24, 24, 20, 4, 4)] + int64(t.Int(0, 50))*newI
	start := truncUnix(base, newI)
	if start <= 0 && base > 0 {
		start += newI
	}
	if kind == 1 {
		start += d * int64(t.Int(1, f-1))
		if t.Chance(20) && d > 1 { // not even on the old interval
			start += int64(t.Int(1, int(min64(d-1, 1000))))
		}
	}
	for start == 0 || start+int64(n)*d == 0 || start+int64(n/f*f)*d == 0 { // the instant that means no date
		start += newI
	}
	t.ClassIf(start < 0, "before 1970")
	gapless(h, start)
	it := h.Item()
	if t.Chance(30) {
		roomy(t, it, nil)
	}
	newIv := klines.Interval(time.Duration(newI) * time.Second)
	t.Notef("kind %d, %d candles of %ds into %ds from %d", kind, n, d, newI, start)
	t.Notef("%v", h)
	unchanged := func() {
		if m := sameItem(it, h.Item()); m != "" {
			t.Failf("ConvertToNewInterval changes its input: %s", m)
		}
	}
	switch kind {
	case 0, 1, 4:
		got, err := it.ConvertToNewInterval(newIv)
		unchanged()
		if n < f {
			if got != nil || !errors.Is(err, klines.ErrInsufficientCandleData) {
				t.Failf("%d candles for windows of %d give %v, error %v; want the error of insufficient data", n, f, got, err)
			}
			t.Class("insufficient")
			return
		}
		if err != nil {
			t.Failf("%d gapless candles for windows of %d: error %v", n, f, err)
		}
		if got.Interval != newIv {
			t.Failf("the result's interval is %v, want %v", got.Interval, newIv)
		}
		if got.Exchange != it.Exchange {
			t.Failf("the result's exchange is %q, want %q", got.Exchange, it.Exchange)
		}
		if len(got.Candles) != n/f {
			t.Failf("%d candles in windows of %d give %d candles, want %d", n, f, len(got.Candles), n/f)
		}
		first := roundUnix(start, newI)
		if kind != 1 {
			first = start
		}
		full := 0
		for j, c := range got.Candles {
			w := first + int64(j)*newI
			if c == nil || c.TimeUnix != w {
				t.Failf("candle %d of the result is at %v, want %d", j, c, w)
			}
			if (w-start)%d != 0 {
				continue
			}
			a := int((w - start) / d)
			if w < start || a+f > n {
				continue // partly outside the history: a recorded finding
			}
			full++
			checkWindow(t.Failf, c, h.C[a:a+f], fmt.Sprintf("candle %d of the result", j))
		}
		t.NonTrivial(full > 1)
		t.ClassIf(kind == 0 && n%f != 0, "with an incomplete window")
		t.ClassIf(kind == 0 && n%f == 0, "only complete windows")
		t.ClassIf(kind == 1, "start not aligned")
		// nothing of an incomplete window counts
		if r := n % f; r > 0 && kind == 0 {
			h2 := *h
			h2.C = append([]klines.Candle(nil), h.C[:n-r]...)
			g2, err := h2.Item().ConvertToNewInterval(newIv)
			if err != nil {
				t.Failf("without the incomplete window: error %v", err)
			}
			if m := sameItem(got, g2); m != "" {
				t.Failf("the incomplete window changes the result: %s", m)
			}
		}
		// the candles of the result are not those of the input
		for _, c := range got.Candles {
			c.Open, c.High, c.Low, c.Close, c.Volume, c.TimeUnix = -1, -1, -1, -1, -1, -1
		}
		unchanged()
		if kind == 4 { // in two steps
			g := t.Int(2, 4)
			big := newI * int64(g)
			start = truncUnix(start, big)
			if start <= 0 && base > 0 {
				start += big
			}
			for start == 0 || start+int64(n)*d == 0 || start+int64(n/f*f)*d == 0 {
				start += big
			}
			gapless(h, start)
			it = h.Item()
			if n < f*g {
				return
			}
			bigIv := klines.Interval(time.Duration(big) * time.Second)
			one, err := it.ConvertToNewInterval(bigIv)
			if err != nil {
				t.Failf("into %v: error %v", bigIv, err)
			}
			half, err := it.ConvertToNewInterval(newIv)
			if err != nil {
				t.Failf("into %v: error %v", newIv, err)
			}
			two, err := half.ConvertToNewInterval(bigIv)
			if err != nil {
				t.Failf("into %v and then into %v: error %v", newIv, bigIv, err)
			}
			if len(one.Candles) != len(two.Candles) {
				t.Failf("directly %d candles, in two steps %d", len(one.Candles), len(two.Candles))
			}
			for i, c := range one.Candles {
				e := two.Candles[i]
				if c.TimeUnix != e.TimeUnix {
					t.Failf("candle %d: directly at %d, in two steps at %d", i, c.TimeUnix, e.TimeUnix)
				}
				checkWindow(t.Failf, c, h.C[i*f*g:(i+1)*f*g], fmt.Sprintf("candle %d", i))
				checkWindow(t.Failf, e, h.C[i*f*g:(i+1)*f*g], fmt.Sprintf("candle %d in two steps", i))
			}
			t.Class("in two steps")
		}
	case 2: // candles missing, repeated or out of order
		if n < 3 {
			return
		}
		k := t.Int(1, 3)
		must := true
		for ; k > 0 && len(h.C) > 2; k-- {
			i := t.Int(1, len(h.C)-2)
			switch t.Pick(60, 20, 10, 10) {
			case 0:
				h.C = append(h.C[:i:i], h.C[i+1:]...)
			case 1:
				h.C = append(h.C[:i:i], h.C[i-1:]...)
			case 2:
				j := t.Int(0, len(h.C)-1)
				h.C[i], h.C[j] = h.C[j], h.C[i]
			case 3:
				h.C[i].TimeUnix += int64(t.Zig(5)) * d
			}
		}
		it = h.Item()
		n = len(h.C)
		if span := h.C[n-1].TimeUnix - h.C[0].TimeUnix + d; span/d == int64(n) {
			must = false // losses and repetitions make up for each other
		}
		got, err := it.ConvertToNewInterval(newIv)
		unchanged()
		if must && (err == nil || got != nil) {
			t.Failf("%d candles over %d intervals give no error", n, (h.C[n-1].TimeUnix-h.C[0].TimeUnix)/d+1)
		}
		t.NonTrivial(must)
		t.ClassIf(must, "candles missing or repeated")
	case 3:
		var want error
		old := it
		switch t.Int(0, 6) {
		case 0:
			old, want = nil, nil
		case 1:
			it.Interval, want = klines.Interval(-int64(t.Int(0, 1))*1e9), klines.ErrInvalidInterval
		case 2:
			newIv, want = klines.Interval(-int64(t.Int(0, 5))*1e9), klines.ErrInvalidInterval
		case 3:
			newIv, want = it.Interval, klines.ErrCanOnlyUpscaleCandles
		case 4:
			newIv, want = it.Interval-klines.Interval(t.Int(1, 1000)), klines.ErrCanOnlyUpscaleCandles
		case 5:
			newIv, want = newIv+klines.Interval(1+t.Int(0, int(min64(d*1e9-2, 1<<40)))), klines.ErrWholeNumberScaling
		case 6:
			it.Candles, want = nil, klines.ErrInsufficientCandleData
			if t.Chance(50) {
				it.Candles = []*klines.Candle{}
			}
		}
		got, err := old.ConvertToNewInterval(newIv)
		if got != nil || err == nil || want != nil && !errors.Is(err, want) {
			t.Failf("from %v to %v: %v, error %v; want error %v", func() any {
				if old == nil {
					return "no item"
				}
				return old.Interval
			}(), newIv, got, err, want)
		}
		t.Class("%v", want)
		t.NonTrivial(true)
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// genHistN is a history of about n gapless candles with few choices each.
func genHistN(t *T, n int, iv klines.Interval) *Hist {
	h := &Hist{Interval: iv}
	h.Unit = []float64{1, 0.25, 0.01, 1.0 / 3, 1e-6, 123.456}[t.Int(0, 5)]
	prev := 100
	lim := []int{2, 7, 60}[t.Int(0, 2)]
	t.List(n, 3000, func(i int) {
		o := prev
		if t.Chance(15) {
			o += t.Zig(lim)
		}
		c := o + t.Zig(lim)
		if o < 1 {
			o = 1
		}
		if c < 1 {
			c = 1
		}
		hi, lo := o, o
		if c > hi {
			hi = c
		}
		if c < lo {
			lo = c
		}
		hi += t.Int(0, lim)
		lo -= t.Int(0, lim)
		if lo < 1 {
			lo = 1
		}
		k := klines.Candle{Open: float64(o) * h.Unit, Close: float64(c) * h.Unit, High: float64(hi) * h.Unit, Low: float64(lo) * h.Unit,
			Volume: float64(t.Int(0, 1000)) * 0.1}
		k.IsBullMarket = k.Close > k.Open
		k.ChangePercent = (k.Close - k.Open) / k.Open
		h.C = append(h.C, k)
		prev = c
	})
	return h
}

// fixedLong converts one history into more than 100000 candles, the limit of
// one range of the split that the conversion uses.
func fixedLong(f *Fixed) {
	for _, total := range []int{200000, 200002, 400006} {
		h := &Hist{Interval: klines.OneMin}
		r := rng{uint64(total)}
		p := 1000.0
		for i := 0; i < total; i++ {
			o := p
			p = math.Max(1, p+float64(r.below(21))-10)
			h.C = append(h.C, klines.Candle{Open: o, Close: p, High: math.Max(o, p) + float64(r.below(4)), Low: math.Min(o, p) * 0.5, Volume: float64(r.below(100))})
		}
		start := truncUnix(1600000000, 120)
		gapless(h, start)
		got, err := h.Item().ConvertToNewInterval(2 * klines.OneMin)
		if err != nil || len(got.Candles) != total/2 {
			f.Failf("%d one-minute candles into two-minute ones: %v", total, err)
		}
		for j, c := range got.Candles {
			if c == nil || c.TimeUnix != start+int64(j)*120 {
				f.Failf("%d one-minute candles: candle %d of the result is %v", total, j, c)
			}
			checkWindow(f.Failf, c, h.C[2*j:2*j+2], fmt.Sprintf("of %d one-minute candles, candle %d of the result", total, j))
			f.Count++
		}
	}
}

// fixedLengths converts every number of candles up to 40 by every factor.
func fixedLengths(f *Fixed) {
	for n := 1; n <= 40; n++ {
		for k := 2; k <= 14; k++ {
			h := &Hist{Interval: klines.OneMin}
			for i := 0; i < n; i++ {
				// each candle differs from the others; the extremes move about
				x := float64(1 + (i*7+n*3+k)%41)
				h.C = append(h.C, klines.Candle{Open: 100 + x, Close: 100 + float64((i*11+k)%17), High: 200 + x*3, Low: 100 - x*2, Volume: float64(int(1) << (i % 20))})
			}
			start := truncUnix(1600000000, int64(k)*60)
			gapless(h, start)
			got, err := h.Item().ConvertToNewInterval(klines.OneMin * klines.Interval(k))
			if n < k {
				if !errors.Is(err, klines.ErrInsufficientCandleData) {
					f.Failf("%d candles by %d: %v", n, k, err)
				}
				continue
			}
			if err != nil || len(got.Candles) != n/k {
				f.Failf("%d candles by %d: %v, error %v", n, k, got, err)
			}
			for j, c := range got.Candles {
				if c == nil || c.TimeUnix != start+int64(j*k*60) {
					f.Failf("%d candles by %d: candle %d is %v", n, k, j, c)
				}
				checkWindow(f.Failf, c, h.C[j*k:j*k+k], fmt.Sprintf("%d candles by %d, candle %d", n, k, j))
			}
			f.Count++
		}
	}
}

func knownConvert(startAt int64, n, f int) func() string {
	return func() string {
		h := &Hist{Interval: klines.OneHour}
		for i := 0; i < n; i++ {
			p := float64(100 + i)
			h.C = append(h.C, klines.Candle{Open: p, Close: p + 0.5, High: p + 1, Low: p - 1, Volume: 1})
		}
		iv := klines.OneHour * klines.Interval(f)
		start := truncUnix(1600000000, int64(f)*3600) + startAt*3600
		gapless(h, start)
		got, err := h.Item().ConvertToNewInterval(iv)
		if err != nil {
			return ""
		}
		msg := ""
		for j, c := range got.Candles {
			a := int((c.TimeUnix - start) / 3600)
			fail := func(f string, x ...any) {
				if msg == "" {
					msg = fmt.Sprintf(f, x...)
				}
			}
			if c.TimeUnix < start || a+f > n {
				fail("candle %d of the result (open %v, close %v, volume %v, change %v) covers a window the history does not contain", j, c.Open, c.Close, c.Volume, c.ChangePercent)
				continue
			}
			checkWindow(fail, c, h.C[a:a+f], fmt.Sprintf("candle %d of the result", j))
		}
		return msg
	}
}

// ---------------------------------------------------------------- K02

func runK02(t *T) {
	n := t.Hidden(30)
	if t.Hidden(1000) == 0 {
		n = 200 + t.Hidden(2000)
	}
	base := int64(t.Int(0, 3)) * 500000000
	if t.Chance(20) {
		base = -int64(t.Int(0, 4)) * 400000000
	}
	spread := []int{5, 20, 100, 1000}[t.Int(0, 3)]
	step := []int64{1, 60, 3600}[t.Int(0, 2)]
	it := &klines.Item{Exchange: "E", Symbol: "S", Code: "C", Interval: klines.OneMin}
	id := 0
	far := t.Chance(8) // centuries apart
	t.ClassIf(far, "centuries apart")
	mk := func() *klines.Candle {
		id++
		at := base + int64(t.Zig(spread))*step
		if far && t.Chance(30) {
			at += int64(t.Zig(3)) << []int{31, 32, 33, 40}[t.Int(0, 3)]
		}
		c := &klines.Candle{TimeUnix: at, Open: float64(id), Close: float64(t.Int(1, 5)), High: 9, Low: 1, Volume: float64(id), Amount: 1, Count: int64(id), IsBullMarket: id%2 == 0, ChangePercent: float64(id) / 8}
		return c
	}
	t.List(n, 3000, func(int) { it.Candles = append(it.Candles, mk()) })
	if t.Chance(50) && len(it.Candles) == 0 {
		it.Candles = []*klines.Candle{}
	}
	model := append([]*klines.Candle(nil), it.Candles...)
	vals := map[*klines.Candle]klines.Candle{}
	for _, c := range model {
		vals[c] = *c
	}
	var times []int64
	for _, c := range model {
		times = append(times, c.TimeUnix)
	}
	t.Notef("times %v", times)
	same := func(what string, got []*klines.Candle, want []*klines.Candle) {
		if len(got) != len(want) {
			t.Failf("%s leaves %d candles, want %d", what, len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				t.Failf("%s: place %d holds %v, want %v", what, i, got[i], want[i])
			}
		}
		for c, v := range vals {
			if *c != v {
				t.Failf("%s changes a candle from %v to %v", what, &v, c)
			}
		}
	}
	date := func(sec int64) time.Time {
		return time.Unix(sec, int64(t.Pick(80, 10, 10))*int64(499999999)).In(zones[t.Int(0, len(zones)-1)])
	}
	rng := func() (time.Time, time.Time) {
		pick := func() int64 {
			if len(times) > 0 && t.Chance(60) {
				return times[t.Int(0, len(times)-1)] + int64(t.Zig(1))
			}
			return base + int64(t.Zig(spread+2))*step
		}
		a, b := pick(), pick()
		if a > b && t.Chance(90) {
			a, b = b, a
		}
		return date(a), date(b)
	}
	inRange := func(c *klines.Candle, a, b time.Time) bool {
		return c.TimeUnix == a.Unix() || c.TimeUnix > a.Unix() && c.TimeUnix < b.Unix()
	}
	ops := 1 + t.Hidden(4)
	t.List(ops, 12, func(int) {
		switch t.Int(0, 6) {
		case 0:
			a, b := rng()
			if a.Unix() >= b.Unix() { // an empty range: at most what is at its start
				x := &klines.Item{Candles: append([]*klines.Candle(nil), model...)}
				x.RemoveOutsideRange(a, b)
				var at []*klines.Candle
				for _, c := range model {
					if c.TimeUnix == a.Unix() {
						at = append(at, c)
					}
				}
				if len(x.Candles) > 0 {
					same("RemoveOutsideRange of an empty range", x.Candles, at)
				}
				if y := it.RemoveOutsideRangeCopy(a, b); len(y.Candles) > len(at) {
					t.Failf("RemoveOutsideRangeCopy of an empty range (%d to %d) keeps %d candles, %d are at its start", a.Unix(), b.Unix(), len(y.Candles), len(at))
				}
				same("RemoveOutsideRangeCopy of an empty range on the original", it.Candles, model)
				t.Class("empty range")
				return
			}
			t.Notef("RemoveOutsideRange(%d, %d)", a.Unix(), b.Unix())
			var want []*klines.Candle
			for _, c := range model {
				if inRange(c, a, b) {
					want = append(want, c)
				}
			}
			it.RemoveOutsideRange(a, b)
			same("RemoveOutsideRange", it.Candles, want)
			t.NonTrivial(len(want) > 0 && len(want) < len(model))
			model = want
			t.Class("range")
		case 1:
			a, b := rng()
			if a.Unix() >= b.Unix() {
				return
			}
			t.Notef("RemoveOutsideRangeCopy(%d, %d)", a.Unix(), b.Unix())
			got := it.RemoveOutsideRangeCopy(a, b)
			same("RemoveOutsideRangeCopy on the original", it.Candles, model)
			var want []klines.Candle
			for _, c := range model {
				if inRange(c, a, b) {
					want = append(want, *c)
				}
			}
			if len(got.Candles) != len(want) {
				t.Failf("RemoveOutsideRangeCopy keeps %d candles, want %d", len(got.Candles), len(want))
			}
			for i, c := range got.Candles {
				if *c != want[i] {
					t.Failf("RemoveOutsideRangeCopy: place %d is %v, want %v", i, c, &want[i])
				}
			}
			if got.Interval != it.Interval || got.Exchange != it.Exchange {
				t.Failf("RemoveOutsideRangeCopy loses the interval or exchange: %v %q", got.Interval, got.Exchange)
			}
			for _, c := range got.Candles { // what is done to the copy stays there
				*c = klines.Candle{}
			}
			got.Candles = append(got.Candles[:0], nil)
			if cap(got.Candles) > 1 {
				got.Candles = got.Candles[:cap(got.Candles)]
				for i := range got.Candles {
					got.Candles[i] = nil
				}
			}
			same("working on the result of RemoveOutsideRangeCopy", it.Candles, model)
			t.NonTrivial(len(want) > 0 && len(want) < len(model))
			t.Class("range copy")
		case 2:
			t.Notef("RemoveDuplicates")
			seen := map[int64]bool{}
			var want []*klines.Candle
			for _, c := range model {
				if !seen[c.TimeUnix] {
					seen[c.TimeUnix] = true
					want = append(want, c)
				}
			}
			it.RemoveDuplicates()
			same("RemoveDuplicates", it.Candles, want)
			it.RemoveDuplicates()
			same("RemoveDuplicates twice", it.Candles, want)
			t.NonTrivial(len(want) < len(model))
			model = want
			t.Class("duplicates")
		case 3:
			desc := t.Chance(50)
			t.Notef("SortCandlesByTimestamp(%v)", desc)
			it.SortCandlesByTimestamp(desc)
			if len(it.Candles) != len(model) {
				t.Failf("sorting turns %d candles into %d", len(model), len(it.Candles))
			}
			count := map[*klines.Candle]int{}
			for _, c := range model {
				count[c]++
			}
			for i, c := range it.Candles {
				if count[c]--; count[c] < 0 {
					t.Failf("sorting: place %d holds a candle that was not there or holds one twice: %v", i, c)
				}
				if i > 0 {
					p := it.Candles[i-1].TimeUnix
					if !desc && p > c.TimeUnix || desc && p < c.TimeUnix {
						t.Failf("SortCandlesByTimestamp(%v): %d before %d", desc, p, c.TimeUnix)
					}
				}
			}
			for i := range model {
				if i > 0 && model[i-1].TimeUnix != model[i].TimeUnix && (model[i-1].TimeUnix > model[i].TimeUnix) != desc {
					t.NonTrivial(true)
				}
			}
			model = append([]*klines.Candle(nil), it.Candles...)
			same("sorting", it.Candles, model)
			t.Class("sort")
		case 4:
			t.Notef("add a candle")
			c := mk()
			vals[c] = *c
			it.Candles = append(it.Candles, c)
			model = append(model, c)
		case 5:
			if !t.Chance(15) {
				return
			}
			t.Notef("Clear")
			it.Clear()
			if len(it.Candles) != 0 {
				t.Failf("Clear leaves %d candles", len(it.Candles))
			}
			model = nil
			same("Clear", it.Candles, model)
			t.Class("clear")
		case 6: // the order of sorting and de-duplicating does not matter for the times kept
			a := it.RemoveOutsideRangeCopy(time.Unix(-1<<50, 0), time.Unix(1<<50, 0))
			if len(a.Candles) != len(model) {
				t.Failf("a range over everything keeps %d of %d candles", len(a.Candles), len(model))
			}
			b := it.RemoveOutsideRangeCopy(time.Unix(-1<<50, 0), time.Unix(1<<50, 0))
			a.SortCandlesByTimestamp(false)
			a.RemoveDuplicates()
			b.RemoveDuplicates()
			b.SortCandlesByTimestamp(false)
			var x, y []int64
			for _, c := range a.Candles {
				x = append(x, c.TimeUnix)
			}
			for _, c := range b.Candles {
				y = append(y, c.TimeUnix)
			}
			if fmt.Sprint(x) != fmt.Sprint(y) {
				t.Failf("sorting and de-duplicating gives %v, the other way round %v", x, y)
			}
			if !sort.SliceIsSorted(x, func(i, j int) bool { return x[i] < x[j] }) {
				t.Failf("sorted and de-duplicated: %v", x)
			}
			same("working on copies", it.Candles, model)
		}
		times = nil
		for _, c := range model {
			times = append(times, c.TimeUnix)
		}
	})
}

// ---------------------------------------------------------------- K03

func checkRanges(fail func(string, ...any), h *klines.IntervalRangeHolder, start, end time.Time, iv time.Duration, limit int64) (count int64) {
	rs, re := start.Round(iv), end.Round(iv)
	count = int64(re.Sub(rs) / iv)
	if count < 0 {
		count = 0
	}
	tick := func(what string, i klines.IntervalTime, want time.Time) {
		if !i.Time.Equal(want) || i.Ticks != want.Unix() {
			fail("%s is %v (%d), want %v", what, i.Time, i.Ticks, want)
		}
	}
	tick("the start", h.Start, rs)
	tick("the end", h.End, rs.Add(time.Duration(count)*iv))
	at := rs
	total := int64(0)
	for i, r := range h.Ranges {
		k := int64(len(r.Intervals))
		tick(fmt.Sprintf("the start of range %d", i), r.Start, at)
		if limit > 0 && k > limit {
			fail("range %d holds %d intervals, the limit is %d", i, k, limit)
		}
		for j, x := range r.Intervals {
			tick(fmt.Sprintf("the start of interval %d of range %d", j, i), x.Start, at)
			at = at.Add(iv)
			tick(fmt.Sprintf("the end of interval %d of range %d", j, i), x.End, at)
			if x.HasData {
				fail("interval %d of range %d has data from the beginning", j, i)
			}
		}
		tick(fmt.Sprintf("the end of range %d", i), r.End, at)
		total += k
		if k == 0 && count > 0 {
			fail("range %d of %d is empty", i, len(h.Ranges))
		}
		if limit > 0 && i < len(h.Ranges)-1 && k < limit {
			fail("range %d of %d holds %d intervals, the limit is %d", i, len(h.Ranges), k, limit)
		}
	}
	if total != count {
		fail("the ranges hold %d intervals, the period has %d", total, count)
	}
	if limit == 0 && len(h.Ranges) != 1 {
		fail("%d ranges without a limit", len(h.Ranges))
	}
	if len(h.Ranges) == 0 {
		fail("no range")
	}
	if limit > 0 && int64(h.Limit) != limit {
		fail("the limit is given as %d, want %d", h.Limit, limit)
	}
	if limit == 0 && int64(h.Limit) != count {
		fail("without a limit, the limit is given as %d, want %d intervals", h.Limit, count)
	}
	return count
}

func runK03(t *T) {
	sec := append([]int64{}, secIntervals...)
	ivs := int64(time.Second) * sec[t.Int(0, len(sec)-1)]
	whole := true
	if t.Chance(8) {
		ivs = []int64{100e6, 250e6, 1500e6, 1, 7}[t.Int(0, 4)]
		whole = false
	}
	iv := time.Duration(ivs)
	n := int64(t.Int(0, 40))
	switch t.Pick(80, 15, 5) {
	case 1:
		n = int64(t.Int(0, 400))
	case 2:
		n = int64(t.Int(0, 5000))
		if t.Chance(1) {
			n = int64(t.Int(5000, 100000))
		}
	}
	epoch := []int64{1600000000, 1500000000, 86400 * 365, 3000000000}[t.Int(0, 3)]
	switch t.Pick(70, 10, 10, 10) { // dates before 1970 are dates too
	case 1:
		epoch = -int64(t.Int(1, 2000000000))
	case 2: // around 1970
		epoch = -int64(t.Int(0, 20)) * (ivs/1e9 + 1)
	case 3: // the second year
		epoch = 86400*366 - 62135596800
	}
	base := time.Unix(epoch, 0).Truncate(iv)
	base = base.Add(time.Duration(t.Int(0, 1000)) * iv)
	off := func() time.Duration {
		switch t.Pick(50, 20, 15, 15) {
		case 1:
			return time.Duration(t.Zig(int(min64(ivs/2, 1<<30))))
		case 2:
			return iv/2 + time.Duration(t.Zig(1))
		case 3:
			return -iv/2 + time.Duration(t.Zig(1))
		}
		return 0
	}
	start := base.Add(off()).In(zones[t.Int(0, len(zones)-1)])
	end := base.Add(time.Duration(n)*iv + off()).In(zones[t.Int(0, len(zones)-1)])
	limit := uint32(0)
	switch t.Pick(15, 50, 15, 10, 10) {
	case 1:
		limit = uint32(t.Int(1, 12))
	case 2:
		if n > 0 {
			limit = uint32(t.Int(1, int(n)))
		}
	case 3:
		limit = uint32(n)
	case 4:
		limit = uint32(n) + uint32(t.Int(1, 1000000))
		if t.Chance(10) {
			limit = math.MaxUint32 - uint32(t.Int(0, 3))
		}
	}
	t.Notef("from %v to %v every %v, limit %d", start, end, iv, limit)
	unset := errors.Is(commonutils.StartEndTimeCheck(start, end), commonutils.ErrDateUnset) // the instants that mean no date
	t.ClassIf(start.Unix() < 0, "before 1970")
	if unset || !start.Before(end) || t.Chance(6) {
		switch t.Pick(40, 15, 15, 15, 15) {
		case 1:
			start, end = end, start
		case 2:
			end = start
		case 3:
			start = time.Time{}
		case 4:
			end = time.Unix(0, 0)
		}
		bad := klines.Interval(iv)
		if t.Chance(30) {
			bad = klines.Interval(-t.Int(0, 2))
		}
		h, err := klines.CalculateCandleDateRanges(start, end, bad, limit)
		want := commonutils.StartEndTimeCheck(start, end) // decided by U03
		if errors.Is(want, commonutils.ErrStartAfterTimeNow) {
			want = nil
		}
		if want == nil && bad <= 0 {
			want = klines.ErrInvalidInterval
		}
		if want != nil && (h != nil || err == nil) {
			t.Failf("CalculateCandleDateRanges(%v, %v, %v, %d) is %v, error %v; want error %v", start, end, bad, limit, h, err, want)
		}
		for _, e := range []error{commonutils.ErrDateUnset, commonutils.ErrStartAfterEnd, commonutils.ErrStartEqualsEnd, klines.ErrInvalidInterval} {
			if want != nil && errors.Is(want, e) && !errors.Is(err, e) {
				t.Failf("CalculateCandleDateRanges(%v, %v, %v, %d): error %v, want %v", start, end, bad, limit, err, want)
			}
		}
		if want == nil && err != nil {
			t.Failf("CalculateCandleDateRanges(%v, %v, %v, %d): error %v", start, end, bad, limit, err)
		}
		t.ClassIf(want != nil, "errors")
		t.NonTrivial(want != nil)
		return
	}
	h, err := klines.CalculateCandleDateRanges(start, end, klines.Interval(iv), limit)
	if err != nil || h == nil {
		t.Failf("CalculateCandleDateRanges: %v, error %v", h, err)
	}
	count := checkRanges(t.Failf, h, start, end, iv, int64(limit))
	t.NonTrivial(len(h.Ranges) > 1)
	t.ClassIf(len(h.Ranges) > 1 && limit > 0 && count%int64(limit) == 0, "several full ranges")
	t.ClassIf(len(h.Ranges) > 1 && limit > 0 && count%int64(limit) != 0, "last range partial")
	t.ClassIf(limit == 0, "no limit")
	t.ClassIf(count == 0, "empty period")

	// counting
	a, b := start, end
	want := int64(b.Sub(a)) / ivs
	if got := klines.TotalCandlesPerInterval(a, b, klines.Interval(iv)); got != want {
		t.Failf("TotalCandlesPerInterval(%v, %v, %v) is %d, want %d", a, b, iv, got, want)
	}
	if got := klines.TotalCandlesPerInterval(a, b, klines.Interval(-t.Int(0, 1))); got != 0 {
		t.Failf("TotalCandlesPerInterval of no interval is %d", got)
	}
	// marking some intervals
	if whole {
		all := map[int64]bool{}
		p := t.Int(0, 3)
		seed := rng{t.Uint64()}
		for i := range h.Ranges {
			for j := range h.Ranges[i].Intervals {
				if has := seed.below(4) < uint64(p); has {
					h.Ranges[i].Intervals[j].HasData = true
					all[h.Ranges[i].Intervals[j].Start.Ticks] = true
				}
			}
		}
		first := start.Round(iv).Unix()
		last := first + count*(ivs/1e9)
		d := ivs / 1e9
		for k := 1 + t.Int(0, 12); k > 0; k-- {
			i := int64(t.Int(-2, int(count)+2))
			var q int64
			switch t.Pick(40, 20, 40) {
			case 0:
				q = first + i*d
			case 1:
				q = first + i*d - 1
			case 2:
				q = first + i*d + int64(t.Int(0, int(d-1)))
			}
			want := q >= first && q < last && all[q-(q-first)%d]
			at := time.Unix(q, int64(t.Int(0, 1))*999999999).In(zones[t.Int(0, len(zones)-1)])
			if got := h.HasDataAtDate(at); got != want {
				t.Failf("HasDataAtDate(%d) is %v, want %v; the period is %d to %d by %d, with data: %v", q, got, want, first, last, d, all)
			}
			t.ClassIf(want, "date with data")
			t.ClassIf(q < first || q >= last, "date outside")
		}
	}
	// single instants
	it := klines.CreateIntervalTime(start)
	if !it.Time.Equal(start) || it.Ticks != start.Unix() {
		t.Failf("CreateIntervalTime(%v) is %+v", start, it)
	}
	for _, x := range []time.Time{start, end, start.Add(time.Second), start.Add(-time.Second), start.Truncate(time.Second), start.In(zones[1])} {
		if got := it.Equal(x); got != (x.Unix() == start.Unix()) {
			t.Failf("the time of %v equals %v: %v", start, x, got)
		}
	}
	if s := klines.Interval(iv).String(); s != iv.String() || klines.Interval(iv).Duration() != iv {
		t.Failf("the interval %v is given as %s", iv, s)
	}
}

// fixedRanges: every count up to 60 and every limit up to 70.
func fixedRanges(f *Fixed) {
	base := time.Unix(1600000000, 0).Truncate(time.Hour)
	for n := 1; n <= 60; n++ {
		for l := 0; l <= 70; l++ {
			end := base.Add(time.Duration(n) * time.Minute)
			h, err := klines.CalculateCandleDateRanges(base, end, klines.OneMin, uint32(l))
			if err != nil {
				f.Failf("%d intervals, limit %d: %v", n, l, err)
			}
			checkRanges(func(s string, a ...any) { f.Failf("%d intervals, limit %d: %s", n, l, fmt.Sprintf(s, a...)) }, h, base, end, time.Minute, int64(l))
			f.Count++
		}
	}
}

// ---------------------------------------------------------------- K04

func runK04(t *T) {
	ho := HOpt{Max: 60}
	if t.Chance(2) {
		ho.Max = 400
	}
	h := genHist(t, ho)
	it := h.Item()
	n := len(h.C)
	if t.Chance(10) { // flags and changes of their own
		for i := range h.C {
			h.C[i].IsBullMarket = t.Chance(50)
			h.C[i].ChangePercent = float64(t.Zig(100)) / 64
		}
		it = h.Item()
		t.Class("flags of their own")
	}
	h.classify(t)
	t.Notef("%v", h)
	t.NonTrivial(n > 2)
	if t.Chance(15) {
		it = usedItem(t, h, func(it *klines.Item) {
			it.GetOHLC()
			it.HL2()
			it.HLC3()
			it.OHLC4()
			it.ToHeikinAshi()
		})
	}
	if t.Chance(30) {
		roomy(t, it, nil)
	}
	unchanged := func(what string) {
		if m := sameItem(it, h.Item()); m != "" {
			t.Failf("%s changes the candles: %s", what, m)
		}
	}
	o := it.GetOHLC()
	unchanged("GetOHLC")
	if len(o.Open) != n || len(o.High) != n || len(o.Low) != n || len(o.Close) != n || len(o.Volume) != n || len(o.BullMarket) != n || len(o.TimeUnix) != n {
		t.Failf("GetOHLC of %d candles has lengths %d %d %d %d %d %d %d", n, len(o.Open), len(o.High), len(o.Low), len(o.Close), len(o.Volume), len(o.BullMarket), len(o.TimeUnix))
	}
	for i, c := range h.C {
		if o.Open[i] != c.Open || o.High[i] != c.High || o.Low[i] != c.Low || o.Close[i] != c.Close || o.Volume[i] != c.Volume || o.BullMarket[i] != c.IsBullMarket || o.TimeUnix[i] != c.TimeUnix {
			t.Failf("GetOHLC: candle %d is %v %v %v %v %v %v %v, want %+v", i, o.Open[i], o.High[i], o.Low[i], o.Close[i], o.Volume[i], o.BullMarket[i], o.TimeUnix[i], c)
		}
	}
	// what is done to a series reaches neither the candles nor the others
	all := [][]float64{o.Open, o.High, o.Low, o.Close, o.Volume}
	for k := range all {
		var keep [][]float64
		for _, s := range all {
			keep = append(keep, dup(s))
		}
		for i := range all[k] {
			all[k][i] = -987654.25
		}
		_ = append(all[k], -987654.25, -987654.25)
		for j := range all {
			if j != k {
				if d := sameList(all[j], keep[j], 0); d != "" {
					t.Failf("writing to one series (%d) of GetOHLC changes another (%d): %s", k, j, d)
				}
			}
		}
	}
	_ = append(o.TimeUnix, -1)
	for i := range o.Open {
		o.Open[i], o.High[i], o.Low[i], o.Close[i], o.Volume[i], o.TimeUnix[i] = -1, -1, -1, -1, -1, -1
	}
	unchanged("working on the series")
	ser := func(name string, got []float64, f func(c klines.Candle) E) {
		unchanged(name)
		if len(got) != n {
			t.Failf("%s of %d candles has %d values", name, n, len(got))
		}
		for i, c := range h.C {
			if e := f(c); !e.agree(got[i]) {
				t.Failf("%s: candle %d is %v, want %v", name, i, got[i], e)
			}
		}
		got = got[:cap(got)]
		for i := range got {
			got[i] = -987654.25
		}
		unchanged("writing to " + name)
	}
	mean := func(k float64, xs ...float64) E {
		s := ex(xs[0])
		for _, x := range xs[1:] {
			s = add(s, ex(x))
		}
		return div(s, ex(k))
	}
	ser("HL2", it.HL2(), func(c klines.Candle) E { return mean(2, c.High, c.Low) })
	ser("HLC3", it.HLC3(), func(c klines.Candle) E { return mean(3, c.High, c.Low, c.Close) })
	ser("OHLC4", it.OHLC4(), func(c klines.Candle) E { return mean(4, c.Open, c.High, c.Low, c.Close) })
	ha := it.ToHeikinAshi()
	unchanged("ToHeikinAshi")
	if ha.Interval != it.Interval || ha.Exchange != it.Exchange {
		t.Failf("ToHeikinAshi: interval %v, exchange %q", ha.Interval, ha.Exchange)
	}
	if len(ha.Candles) != n {
		t.Failf("ToHeikinAshi of %d candles has %d", n, len(ha.Candles))
	}
	for i, c := range h.C {
		g := ha.Candles[i]
		open := mean(2, c.Open, c.Close)
		if i > 0 {
			open = mean(2, h.C[i-1].Open, h.C[i-1].Close)
		}
		if !open.agree(g.Open) {
			t.Failf("Heikin-Ashi candle %d opens at %v, want %v", i, g.Open, open)
		}
		if e := mean(4, c.Open, c.High, c.Low, c.Close); !e.agree(g.Close) {
			t.Failf("Heikin-Ashi candle %d closes at %v, want %v", i, g.Close, e)
		}
		if e := maxE(ex(c.High), open); !e.agree(g.High) {
			t.Failf("Heikin-Ashi candle %d has high %v, want %v", i, g.High, e)
		}
		if e := minE(ex(c.Low), open); !e.agree(g.Low) {
			t.Failf("Heikin-Ashi candle %d has low %v, want %v", i, g.Low, e)
		}
		if g.Low > g.Open || g.Open > g.High || g.Low > c.Low || g.High < c.High {
			t.Failf("Heikin-Ashi candle %d: low %v open %v high %v, the candle spans %v to %v", i, g.Low, g.Open, g.High, c.Low, c.High)
		}
		if g.TimeUnix != c.TimeUnix || g.IsBullMarket != (c.Close > c.Open) {
			t.Failf("Heikin-Ashi candle %d: time %d, bull %v; want %d, %v", i, g.TimeUnix, g.IsBullMarket, c.TimeUnix, c.Close > c.Open)
		}
		if e := div(sub(ex(c.Close), ex(c.Open)), ex(c.Open)); !e.agree(g.ChangePercent) {
			t.Failf("Heikin-Ashi candle %d: change %v, want %v", i, g.ChangePercent, e)
		}
		t.ClassIf(i > 0 && (open.V > c.High || open.V < c.Low), "opens outside the candle")
	}
}

func init() {
	register(&Prop{ID: "K01", Quick: 500000, Thorough: 10000000, Run: runK01, Rule: "at least two windows that the history covers; a history with candles missing; every bad interval",
		Fixed:  []FixedCase{{"more than 100000 windows", fixedLong}, {"every length to 40 by every factor to 14", fixedLengths}},
		Known:  []KnownCase{{"6 hourly candles from hour 1 of a 4-hour window", knownConvert(1, 6, 4)}, {"8 hourly candles from hour 3 of a 4-hour window", knownConvert(3, 8, 4)}},
		Assume: []string{"intervals of whole seconds, prices above 0, starts after 1970", "for a start inside a window of the new interval only the windows the history covers are compared (recorded finding)"}})
	register(&Prop{ID: "K02", Quick: 1800000, Thorough: 36000000, Run: runK02, Rule: "a range, de-duplication or sort that changes the list but does not empty it",
		Assume: []string{"ranges whose start is before their end; the order of candles of the same time after sorting is left open"}})
	register(&Prop{ID: "K03", Quick: 375000, Thorough: 7500000, Run: runK03, Rule: "more than one range, or an error case",
		Fixed:  []FixedCase{{"every count to 60 and limit to 70", fixedRanges}},
		Assume: []string{"HasDataAtDate with intervals of whole seconds"}})
	register(&Prop{ID: "K04", Quick: 600000, Thorough: 12000000, Run: runK04, Rule: "more than two candles"})
}
