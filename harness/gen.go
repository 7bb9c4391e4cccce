package main

// Generation of candle histories. Prices are integers in units of a price
// unit, so that ties, flat stretches and exact arithmetic (dyadic units) are
// frequent, and every candle is a few small choices that shrink towards a
// flat market.

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/idoall/stockindicator/utils/klines"
)

type Hist struct {
	Interval klines.Interval
	C        []klines.Candle
	Unit     float64
	Exact    bool // prices are dyadic: sums and differences are exact
	head     int  // what the item says of itself: 0 everything, 1 nothing, 2 and 3 another interval
}

// Item is a fresh item with its own candles.
func (h *Hist) Item() *klines.Item { return h.Head(len(h.C)) }

func (h *Hist) Head(n int) *klines.Item {
	it := &klines.Item{Exchange: "X", Symbol: "S", Code: "C", Interval: h.Interval, Candles: make([]*klines.Candle, n)}
	switch h.head {
	case 1: // made by hand
		it.Exchange, it.Symbol, it.Code, it.Interval = "", "", "", 0
	case 2:
		it.Interval = klines.OneMonth
	case 3:
		it.Interval = klines.Interval(time.Second)
	}
	for i := 0; i < n; i++ {
		c := h.C[i]
		it.Candles[i] = &c
	}
	return it
}

func (h *Hist) N() int { return len(h.C) }

func (h *Hist) col(f func(c *klines.Candle) float64) []float64 {
	r := make([]float64, len(h.C))
	for i := range h.C {
		r[i] = f(&h.C[i])
	}
	return r
}
func (h *Hist) Close() []float64  { return h.col(func(c *klines.Candle) float64 { return c.Close }) }
func (h *Hist) Open() []float64   { return h.col(func(c *klines.Candle) float64 { return c.Open }) }
func (h *Hist) High() []float64   { return h.col(func(c *klines.Candle) float64 { return c.High }) }
func (h *Hist) Low() []float64    { return h.col(func(c *klines.Candle) float64 { return c.Low }) }
func (h *Hist) Volume() []float64 { return h.col(func(c *klines.Candle) float64 { return c.Volume }) }

func (h *Hist) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d candles every %v", len(h.C), h.Interval)
	for i, c := range h.C {
		if i >= 60 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " [%d o=%v h=%v l=%v c=%v v=%v]", c.TimeUnix, c.Open, c.High, c.Low, c.Close, c.Volume)
	}
	return b.String()
}

type HOpt struct {
	Hints    []int // periods the length should be related to
	Max      int   // longest history
	Long     int   // percent of long histories
	MinLen   int
	Dyadic   bool // only exact units
	InOrder  bool // no candle is older than the one before it
	NoGaps   bool // candles follow each other without gaps in time
	Tame     bool // no zero prices, moderate units (scale tests)
	Active   bool // no long flat stretches
	Stairs   bool // long trends with pullbacks
	Interval klines.Interval
	long     bool // thousands of candles, whatever Max says
}

const (
	rgWalk = iota
	rgFlat
	rgUp
	rgDown
	rgAlternate
	rgTies
	rgSpike
	rgBig
	rgSwing
	rgCount
	rgStairs // only when asked for
)

// genLen proposes a length.
func genLen(t *T, o HOpt) int {
	max := o.Max
	if max == 0 {
		max = 400
	}
	h := 10
	if len(o.Hints) > 0 {
		h = o.Hints[t.Hidden(len(o.Hints))]
		if h < 1 {
			h = 1
		}
	}
	var n int
	switch k := t.Hidden(100); {
	case k < 2:
		n = 0
	case k < 4:
		n = 1
	case k < 10:
		n = 2 + t.Hidden(5)
	case k < 28:
		n = h - 2 + t.Hidden(5) // around the period
	case k < 36:
		n = 2*h - 2 + t.Hidden(5)
	case k < 66:
		n = 8 + t.Hidden(40)
	case k < 66+27-o.Long:
		n = 40 + t.Hidden(80)
	default:
		n = 100 + t.Hidden(300)
	}
	if n > max {
		n = max - t.Hidden(10)
	}
	if h > 100 && max >= 100 && t.Hidden(5) == 0 { // long periods need histories to match
		n = h - 1 + t.Hidden(h)
	}
	if n < o.MinLen {
		n = o.MinLen
	}
	if n < 0 {
		n = 0
	}
	return n
}

func genHist(t *T, o HOpt) *Hist {
	h := &Hist{}
	units := []float64{1, 0.25, 0.01, 0.1, 1.0 / 3, 8, 0.0137, 1.0 / 1024, 123.456, 1e-8, 3e6}
	nu := len(units)
	if o.Dyadic {
		units = []float64{1, 0.25, 8, 1.0 / 64}
		nu = len(units)
	} else if o.Tame {
		units = units[:7]
		nu = 7
	}
	u := t.Int(0, nu-1)
	h.Unit = units[u]
	h.Exact = h.Unit == 1 || h.Unit == 0.25 || h.Unit == 8 || h.Unit == 1.0/1024 || h.Unit == 1.0/64
	ivs := []klines.Interval{klines.OneHour, klines.OneMin, klines.OneDay, klines.FifteenMin, klines.FourHour, klines.OneWeek, klines.Interval(15 * time.Second)}
	h.Interval = ivs[t.Int(0, len(ivs)-1)]
	if o.Interval != 0 {
		h.Interval = o.Interval
	} else {
		h.head = t.Pick(88, 6, 3, 3)
	}
	// the last one is a quiet market: a step is a millionth of the price
	base := []int{100, 1000, 20, 50000, 5, 1 << 20}[t.Int(0, 5)]
	volUnit := []float64{1, 0.5, 0.1, 1000, 1e-6, 1e7}[t.Int(0, 5)]
	if o.Dyadic {
		volUnit = []float64{1, 0.5, 2, 64}[t.Int(0, 3)]
	}
	// prices in proportion: big bases move in bigger steps
	mul := 1
	if base == 50000 {
		mul = 97
	}
	// what feeds say about a candle besides prices and volume: change and
	// direction of the body, nothing, or the change since the last close
	feed := t.Pick(70, 15, 15)
	tm := int64(1600000000) - 1600000000%int64(h.Interval.Duration().Seconds())
	// every possible minute of the day: the start is an arbitrary multiple of the interval
	tm += int64(t.Int(0, 40)) * int64(h.Interval.Duration().Seconds())
	backwards := false
	switch t.Pick(74, 8, 4, 4, 4, 3, 3) { // elsewhere in time: sessions that start at odd seconds, other epochs
	case 1:
		tm += int64(t.Int(0, 86399))
	case 2:
		tm -= 2000000000 // before 1970
	case 3:
		tm += 2500000000 // after 2038
	case 4:
		tm = int64(t.Int(0, 3)-2) * int64(h.Interval.Duration().Seconds()) // around 1970
	case 5: // some exchanges send the newest candle first
		backwards = !o.NoGaps && !o.InOrder
	case 6: // now: some candle is not over yet
		iv := int64(h.Interval.Duration().Seconds())
		tm = time.Now().Unix()/iv*iv - int64(t.Int(0, 60))*iv
	}

	n := genLen(t, o)
	if o.Max == 0 || o.Max >= 100 {
		if t.Hidden(400) == 0 { // far beyond any buffer
			n = 450 + t.Hidden(2200)
		}
	}
	if o.long {
		n = 8200 + t.Hidden(1500)
	}
	const max = 10000
	prev := base
	regime, left := t.Hidden(rgCount), 3+t.Hidden(25)
	vreg, vleft := t.Hidden(6), 3+t.Hidden(25)
	dir, drift, leg := 1, 1-2*t.Hidden(2), 0
	small := func(m int) int { // geometric-ish
		v := t.Hidden(m + 1)
		if t.Hidden(2) == 0 {
			v = t.Hidden(m/4 + 1)
		}
		return v
	}
	enc := func(v int) uint64 { // for Zig
		if v > 0 {
			return uint64(2*v - 1)
		}
		return uint64(-2 * v)
	}
	zig := func(m int, want int) int {
		if want > m {
			want = m
		}
		if want < -m {
			want = -m
		}
		v := int(t.choice(uint64(2*m), func(*rng) uint64 { return enc(want) }))
		if v%2 == 1 {
			return (v + 1) / 2
		}
		return -v / 2
	}
	nat := func(m, want int) int {
		return int(t.choice(uint64(m), func(*rng) uint64 { return uint64(want) }))
	}
	vlast := 10
	t.List(n, max, func(i int) {
		if left--; left < 0 {
			regime, left = t.Hidden(rgCount), 2+t.Hidden(30)
			if o.Active && regime == rgFlat {
				regime = rgSwing
			}
			if o.Stairs && t.Hidden(10) < 9 {
				regime, left = rgStairs, 40+t.Hidden(160)
				if t.Hidden(4) == 0 {
					drift = -drift
				}
			}
		}
		if vleft--; vleft < 0 {
			vreg, vleft = t.Hidden(6), 2+t.Hidden(30)
		}
		gap, step, up, dn := 0, 0, 0, 0
		switch regime {
		case rgWalk:
			step, up, dn = t.Hidden(11)-5, small(4), small(4)
			if t.Hidden(6) == 0 {
				gap = t.Hidden(9) - 4
			}
		case rgFlat:
			if t.Hidden(12) == 0 {
				up, dn = t.Hidden(2), t.Hidden(2)
			}
		case rgUp:
			step, up, dn = t.Hidden(6), small(3), small(2)
		case rgDown:
			step, up, dn = -t.Hidden(6), small(2), small(3)
		case rgAlternate:
			dir = -dir
			step = dir * (1 + t.Hidden(6))
			up, dn = t.Hidden(2), t.Hidden(2)
		case rgTies:
			step, up, dn = t.Hidden(3)-1, t.Hidden(2), t.Hidden(2)
		case rgSpike:
			step = t.Hidden(3) - 1
			if t.Hidden(5) == 0 {
				gap, step = t.Hidden(41)-20, t.Hidden(61)-30
			}
			if t.Hidden(4) == 0 {
				up, dn = t.Hidden(20), t.Hidden(20)
			}
		case rgBig:
			gap, step, up, dn = t.Hidden(21)-10, t.Hidden(61)-30, t.Hidden(20), t.Hidden(20)
		case rgStairs:
			if leg--; leg < 0 {
				dir, leg = -dir, 5+t.Hidden(5)
			}
			step, up, dn = dir*(1+t.Hidden(3)), small(2), small(2)
			if dir == drift {
				step += drift * (1 + t.Hidden(2))
			}
		case rgSwing:
			if t.Hidden(7) == 0 {
				dir = -dir
			}
			step, up, dn = dir*t.Hidden(7), small(3), small(3)
			if t.Hidden(5) == 0 {
				step = -step
			}
		}
		gap = zig(40, gap)
		step = zig(40, step)
		up = nat(40, up)
		dn = nat(40, dn)
		open := prev + gap*mul
		if open < 1 {
			open = 1
		}
		cl := open + step*mul
		if cl < 1 {
			cl = 1
		}
		hi, lo := open, open
		if cl > hi {
			hi = cl
		}
		if cl < lo {
			lo = cl
		}
		hi += up * mul
		lo -= dn * mul
		if lo < 1 {
			lo = 1
		}
		var v int
		switch vreg {
		case 0:
			v = 0
		case 1:
			v = vlast
		case 2:
			v = t.Hidden(2000)
		case 3:
			v = vlast + t.Hidden(9) - 4
		case 4:
			v = 1 + t.Hidden(20)
		case 5:
			v = 5
			if t.Hidden(6) == 0 {
				v = 100000 + t.Hidden(100000)
			}
			if t.Hidden(8) == 0 {
				v = 0
			}
		}
		if v < 0 {
			v = 0
		}
		v = nat(300000, v)
		vlast = v
		if !o.NoGaps {
			skip := 0
			if t.Hidden(40) == 0 {
				skip = 1 + t.Hidden(9)
			}
			step := int64(h.Interval.Duration().Seconds())
			switch skip = nat(9, skip); {
			case skip < 7:
				tm += int64(skip) * step
			case skip == 7: // over a weekend
				tm += (3*86400 + step - 1) / step * step
			case skip == 8: // months
				tm += (100*86400 + step - 1) / step * step
			case i > 0: // the time of the candle before once more
				tm = h.C[i-1].TimeUnix
			}
		}
		c := klines.Candle{
			Open: float64(open) * h.Unit, Close: float64(cl) * h.Unit,
			High: float64(hi) * h.Unit, Low: float64(lo) * h.Unit,
			Volume: float64(v) * volUnit, TimeUnix: tm,
		}
		c.IsBullMarket = c.Close > c.Open
		c.ChangePercent = (c.Close - c.Open) / c.Open
		if feed == 1 {
			c.IsBullMarket, c.ChangePercent = false, 0
		} else if feed == 2 && i > 0 {
			last := h.C[i-1].Close
			c.IsBullMarket, c.ChangePercent = c.Close > last, (c.Close-last)/last*100
		}
		// turnover and number of trades are the exchange's own
		c.Amount = c.Volume * (c.Low + float64(v%7)/6*(c.High-c.Low))
		switch (v + i) % 11 {
		case 3:
			c.Amount = 0
		case 4:
			c.Amount = float64(i%5+1) * c.Close
		}
		c.Count = int64(v % 1000)
		h.C = append(h.C, c)
		tm += int64(h.Interval.Duration().Seconds())
		prev = cl
	})
	if backwards {
		for i, j := 0, len(h.C)-1; i < j; i, j = i+1, j-1 {
			h.C[i].TimeUnix, h.C[j].TimeUnix = h.C[j].TimeUnix, h.C[i].TimeUnix
		}
	}
	return h
}

// scaled is the history with all prices multiplied by pf, all volumes by vf
// and all times shifted by dt.
func (h *Hist) scaled(pf, vf float64, dt int64) *Hist {
	r := *h
	r.C = append([]klines.Candle(nil), h.C...)
	for i := range r.C {
		c := &r.C[i]
		c.Open *= pf
		c.Close *= pf
		c.High *= pf
		c.Low *= pf
		c.Volume *= vf
		c.Amount *= pf * vf
		c.TimeUnix += dt
	}
	return &r
}

// classify counts what a history contains.
func (h *Hist) classify(t *T) {
	n := len(h.C)
	switch {
	case n == 0:
		t.Class("len 0")
	case n == 1:
		t.Class("len 1")
	case n < 10:
		t.Class("len 2-9")
	case n < 50:
		t.Class("len 10-49")
	case n < 150:
		t.Class("len 50-149")
	case n < 450:
		t.Class("len 150-449")
	default:
		t.Class("len 450+")
	}
	flat, zero := 0, 0
	for i := range h.C {
		if h.C[i].High == h.C[i].Low {
			flat++
		}
		if h.C[i].Volume == 0 {
			zero++
		}
	}
	t.ClassIf(flat > 3, "with candles without range")
	t.ClassIf(zero > 3, "with zero volumes")
	t.ClassIf(h.Exact, "exact prices")
}

// genSeries is a list of numbers of mixed kinds: small integers with many
// ties, quarters, decimals, wide ranges, negative numbers.
func genSeries(t *T, max int, positive bool) []float64 {
	kind := t.Int(0, 5)
	n := 0
	switch k := t.Hidden(20); {
	case k < 1:
		n = 0
	case k < 2:
		n = 1
	case k < 10:
		n = 2 + t.Hidden(12)
	case k < 18:
		n = 5 + t.Hidden(40)
	default:
		n = 40 + t.Hidden(max)
	}
	if n > max {
		n = max
	}
	if max >= 60 && t.Hidden(500) == 0 {
		n = 300 + t.Hidden(1500)
		if t.Hidden(40) == 0 {
			n = 2000 + t.Hidden(8500)
		}
	}
	var xs []float64
	t.List(n, 12000, func(i int) {
		var v float64
		switch kind {
		case 0:
			v = float64(t.Zig(3))
		case 1:
			v = float64(t.Zig(40)) / 4
		case 2:
			v = float64(t.Zig(2000)) * 0.01
		case 3:
			v = float64(t.Zig(1000000)) / 7
		case 4:
			v = float64(t.Zig(9)) * math.Pow(10, float64(t.Int(0, 8)-3))
		case 5:
			if t.Chance(30) && i > 0 {
				v = xs[t.Int(0, i-1)]
			} else {
				v = float64(t.Zig(100))
			}
		}
		if positive && v < 0 {
			v = -v
		}
		xs = append(xs, v)
	})
	return xs
}

// dayStart is about the first second of the calendar day (in the local zone)
// of a time: where the clock is set at midnight it may be an hour off, but is
// of the same day.
func dayStart(unix int64) int64 {
	d := dayOf(unix)
	u := d*86400 - offAt(unix)
	if dayOf(u) != d {
		u += 3600
	}
	if dayOf(u) != d {
		u -= 7200
	}
	if dayOf(u) != d {
		return unix
	}
	return u
}

// dayOf is the number of the calendar day (in the local zone) of a time.
func dayOf(unix int64) int64 {
	unix += offAt(unix)
	if unix < 0 {
		return (unix - 86399) / 86400
	}
	return unix / 86400
}
