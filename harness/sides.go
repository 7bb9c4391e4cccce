package main

// C06: the crossing rule of each indicator, applied to its own data.

import (
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

type sideIn struct {
	o    *Obs
	h    *Hist
	p    P
	day  *Obs // Camarilla: data of the second history
	dayT []int64
}

func (x sideIn) c(name string, i int) float64 {
	v, ok := x.o.V[name]
	if !ok {
		panic(failure{"no field " + name + " in the data"})
	}
	return v[i]
}

func bs(buy, sell bool) utils.Side {
	if buy {
		return utils.Buy
	}
	if sell {
		return utils.Sell
	}
	return utils.Hold
}

// crosses: a was strictly below b and is strictly above now, and the reverse.
func crosses(a0, b0, a1, b1 float64) (up, down bool) {
	return a0 < b0 && a1 > b1, a0 > b0 && a1 < b1
}

func crossCols(a, b string) func(x sideIn, i int) utils.Side {
	return func(x sideIn, i int) utils.Side {
		return bs(crosses(x.c(a, i-1), x.c(b, i-1), x.c(a, i), x.c(b, i)))
	}
}

func crossZero(a string) func(x sideIn, i int) utils.Side {
	return func(x sideIn, i int) utils.Side { return bs(crosses(x.c(a, i-1), 0, x.c(a, i), 0)) }
}

// levels: buy when crossing below lo; sell when crossing hi (upwards or not).
func levels(a string, lo, hi float64, sellUp bool) func(x sideIn, i int) utils.Side {
	return func(x sideIn, i int) utils.Side {
		_, buy := crosses(x.c(a, i-1), lo, x.c(a, i), lo)
		up, down := crosses(x.c(a, i-1), hi, x.c(a, i), hi)
		if sellUp {
			return bs(buy, up)
		}
		return bs(buy, down)
	}
}

func begins(x sideIn, i int) utils.Side {
	return bs(x.c("UpTrendBegin", i) != 0, x.c("DownTrendBegin", i) != 0)
}

func crossMiddle(x sideIn, i int) utils.Side {
	c := x.h.C
	return bs(crosses(c[i-1].Close, x.c("Middle", i-1), c[i].Close, x.c("Middle", i)))
}

// sideRules are asked for every candle but the first.
var sideRules = map[string]func(x sideIn, i int) utils.Side{
	"AiCoinCCI": levels("Value", -100, 100, true), "Cci": levels("Value", -100, 100, true),
	"Rsi": levels("Value", 20, 80, false), "WilliamsR": levels("Value", -80, -20, true),
	"MoneyFlowIndex": levels("Value", 10, 90, true),
	"StochRsi":       crossCols("K", "D"), "StochasticOscillator": crossCols("K", "D"),
	"PercentagePriceOscillator": crossCols("PPO", "Signal"), "StochasticHeat": crossCols("Slow", "Fast"),
	"AbsolutePriceOscillator": crossZero("Value"), "AwesomeOscillator": crossZero("Value"), "ChaikinOscillator": crossZero("Value"),
	"SuperTrend": begins, "PivotPointSuperTrend": begins,
	"DonchianChannel": crossMiddle, "KeltnerChannel": crossMiddle,
	"UTBot": crossCols("Close", "Value"),
	"ProjectionOscillator": func(x sideIn, i int) utils.Side {
		return bs(x.c("Po", i) > x.c("Spo", i), x.c("Po", i) < x.c("Spo", i))
	},
	"Kdj": func(x sideIn, i int) utils.Side {
		ku, kd := crosses(x.c("K", i-1), x.c("D", i-1), x.c("K", i), x.c("D", i))
		ju, jd := crosses(x.c("J", i-1), x.c("D", i-1), x.c("J", i), x.c("D", i))
		return bs(ku && ju, kd && jd)
	},
	"Macd": func(x sideIn, i int) utils.Side {
		up, down := crosses(x.c("DIF", i-1), x.c("DEA", i-1), x.c("DIF", i), x.c("DEA", i))
		f, a := x.c("DIF", i), x.c("DEA", i)
		return bs(up && f > 0 && a > 0, down && f < 0 && a < 0)
	},
	"Boll": func(x sideIn, i int) utils.Side {
		up, _ := crosses(x.h.C[i-1].Close, x.c("Upper", i-1), x.h.C[i].Close, x.c("Upper", i))
		_, down := crosses(x.h.C[i-1].Close, x.c("Lower", i-1), x.h.C[i].Close, x.c("Lower", i))
		return bs(up, down)
	},
	"IchimokuCloud": func(x sideIn, i int) utils.Side {
		if i < x.p.I[0] {
			return utils.Hold
		}
		c0, c1 := x.h.C[i-1].Close, x.h.C[i].Close
		au, ad := crosses(c0, x.c("LeadingSpanA", i-1), c1, x.c("LeadingSpanA", i))
		bu, bd := crosses(c0, x.c("LeadingSpanB", i-1), c1, x.c("LeadingSpanB", i))
		return bs(au && bu, ad && bd)
	},
	"EMAVegas": func(x sideIn, i int) utils.Side {
		if i < 11 {
			return utils.Hold
		}
		golden, dead := false, false
		for k := i - 10; k < i; k++ { // the ten candles before this one
			up, down := crosses(x.c("Short2Value", k-1), x.c("Long2Value", k-1), x.c("Short2Value", k), x.c("Long2Value", k))
			golden, dead = golden || up, dead || down
		}
		v, s1, s2, l1, l2 := x.c("Value", i), x.c("Short1Value", i), x.c("Short2Value", i), x.c("Long1Value", i), x.c("Long2Value", i)
		bull := x.h.C[i].IsBullMarket
		buy := golden && bull && v > s1 && s1 > l1 && s1 > l2 && s2 > l1 && s2 > l2
		sell := dead && !bull && v < s1 && s1 < l1 && s1 < l2 && s2 < l1 && s2 < l2
		return bs(buy, sell)
	},
	"TraderXO": func(x sideIn, i int) utils.Side {
		// a signal where the fast line gets above (below) the slow one, unless
		// the last time they differed it was already there
		last := 0
		for k := 1; k < i; k++ {
			if f, s := x.c("Fast", k), x.c("Slow", k); f > s {
				last = 1
			} else if f < s {
				last = -1
			}
		}
		f, s := x.c("Fast", i), x.c("Slow", i)
		return bs(f > s && last != 1, f < s && last != -1)
	},
}

func camarillaSides(x sideIn) []utils.Side {
	r := make([]utils.Side, x.h.N())
	day := func(u int64) string { return time.Unix(u, 0).Format("2006-01-02") }
	first := map[string]int{}
	for k, u := range x.dayT {
		if _, ok := first[day(u)]; !ok {
			first[day(u)] = k
		}
	}
	at := -1
	for i, c := range x.h.C {
		if k, ok := first[day(c.TimeUnix)]; ok {
			at = k
		}
		r[i] = utils.Hold
		if at < 0 {
			continue
		}
		lvl, ema := x.day.V["High4"][at], x.c("EMA", i)
		r[i] = bs(c.Close < ema && c.Close > lvl && c.Open < lvl, c.Close > ema && c.Close < lvl && c.Open > lvl)
	}
	return r
}

// sideHist2 is a second history for Camarilla whose levels lie near the prices.
func sideHist2(t *T, h *Hist) *Hist {
	d := &Hist{Interval: klines.OneDay}
	seen := map[int64]bool{}
	for i := range h.C {
		c := h.C[i]
		day := dayStart(c.TimeUnix)
		if seen[day] {
			continue
		}
		seen[day] = true
		if len(d.C) > 300 && i%16 != 0 { // each candle is compared with each of these
			continue
		}
		switch t.Pick(70, 15, 15) {
		case 1: // a day without a candle
			continue
		case 2: // a day with two: the first counts
			e := c
			e.TimeUnix = day + 3600
			e.High += e.Close - e.Low
			e.TimeUnix -= 3600
			d.C = append(d.C, e)
		}
		// a level is close + 0.55 x range: pull the close down so that it is hit
		c.TimeUnix = day + 86400/2*int64(t.Int(0, 1))
		switch t.Int(0, 2) {
		case 1:
			c.Close = c.Low
		case 2:
			c.Close, c.High = c.Open, c.High+(c.High-c.Low)
		}
		d.C = append(d.C, c)
	}
	if len(d.C) > 1 && t.Chance(8) { // the newest first, as some exchanges give them
		for i, j := 0, len(d.C)-1; i < j; i, j = i+1, j-1 {
			d.C[i], d.C[j] = d.C[j], d.C[i]
		}
		t.Class("the second history has the newest first")
	}
	return d
}

// tie is a value that lies exactly on the line it can cross.
type tie struct {
	a, b  string // b "": the level
	level float64
}

func lvl(a string, ls ...float64) (r []tie) {
	for _, l := range ls {
		r = append(r, tie{a, "", l})
	}
	return
}

var ties = map[string][]tie{
	"AiCoinCCI": lvl("Value", -100, 100), "Cci": lvl("Value", -100, 100), "Rsi": lvl("Value", 20, 80),
	"WilliamsR": lvl("Value", -80, -20), "MoneyFlowIndex": lvl("Value", 10, 90),
	"StochRsi": {{"K", "D", 0}}, "StochasticOscillator": {{"K", "D", 0}}, "PercentagePriceOscillator": {{"PPO", "Signal", 0}},
	"StochasticHeat": {{"Slow", "Fast", 0}}, "ProjectionOscillator": {{"Po", "Spo", 0}},
	"AbsolutePriceOscillator": {{"Value", "0", 0}}, "AwesomeOscillator": {{"Value", "0", 0}}, "ChaikinOscillator": {{"Value", "0", 0}},
	"Macd":            {{"DIF", "DEA", 0}, {"DIF", "0", 0}, {"DEA", "0", 0}},
	"Kdj":             {{"K", "D", 0}, {"J", "D", 0}},
	"DonchianChannel": {{"close", "Middle", 0}}, "KeltnerChannel": {{"close", "Middle", 0}}, "UTBot": {{"close", "Value", 0}},
	"Boll":          {{"close", "Upper", 0}, {"close", "Lower", 0}},
	"IchimokuCloud": {{"close", "LeadingSpanA", 0}, {"close", "LeadingSpanB", 0}},
	"TraderXO":      {{"Fast", "Slow", 0}},
	"EMAVegas":      {{"Short2Value", "Long2Value", 0}, {"Value", "Short1Value", 0}, {"Short1Value", "Long1Value", 0}, {"Short1Value", "Long2Value", 0}, {"Short2Value", "Long1Value", 0}},
}

// seekTie changes one candle so that a value of the indicator lies exactly on
// its line there, when some change of its close (its volume, for money flows)
// by a few units does that.
func seekTie(t *T, s *Spec, p P, h *Hist, ts []tie) *Hist {
	n := h.N()
	if n < 2 {
		return h
	}
	if n > 60 {
		n = 60
	}
	if s.Key == "MoneyFlowIndex" && t.Chance(60) {
		return flowTie(t, p, h)
	}
	w := ts[t.Int(0, len(ts)-1)]
	i := n - 1 - t.Int(0, n-2)
	if s.Key == "Rsi" && p.I[0] < n && t.Chance(60) {
		i = p.I[0] // the first value: a ratio of small numbers
	}
	first := t.Int(0, 80)
	r := *h
	r.C = append([]klines.Candle(nil), h.C...)
	old := r.C[i]
	col := func(o *Obs, name string) float64 {
		switch name {
		case "":
			return w.level
		case "0":
			return 0
		case "close":
			return r.C[i].Close
		}
		v, ok := o.V[name]
		if !ok {
			panic(failure{"no field " + name + " in the data"})
		}
		return v[i]
	}
	for k := 0; k <= 80; k++ {
		c := old
		d := float64((first+k*33)%81 - 40)
		if s.Key == "MoneyFlowIndex" {
			c.Volume = d + 40
		} else {
			if c.Close += d * h.Unit; c.Close <= 0 {
				continue
			}
			c.High, c.Low = max(c.High, c.Close), min(c.Low, c.Close)
		}
		c.IsBullMarket = c.Close > c.Open
		c.ChangePercent = (c.Close - c.Open) / c.Open
		r.C[i] = c
		o := getObs(make1(s, r.Head(i+1), p, false))
		if o.N == i+1 && col(o, w.a) == col(o, w.b) {
			t.Class("tie of %s sought", s.Key)
			t.Notef("with candle %d: close %v volume %v", i, c.Close, c.Volume)
			return &r
		}
	}
	r.C[i] = old
	return &r
}

// flowTie makes volumes whose money flow index is exactly 10 (or 90): one flow
// in one direction and nine times as much in the other, then a few more.
func flowTie(t *T, p P, h *Hist) *Hist {
	a := t.Int(20, 70)
	dir := 1 - 2*t.Int(0, 1)
	vols := []int{a - dir, a} // the first lies before the window
	for sum, last := 0, a; sum < 9*a; {
		last -= dir * (1 + t.Int(0, 3)/2)
		if last < 1 {
			return h
		}
		left := 9*a - sum
		if dir > 0 && left < last || dir < 0 && left < 2*last+2 && left > last-dir {
			last = left
		}
		if left < last {
			return h
		}
		sum += last
		vols = append(vols, last)
	}
	p.I[0] = len(vols) - 1
	for k := t.Int(0, 3); k >= 0; k-- {
		vols = append(vols, t.Int(0, 2*a))
	}
	r := &Hist{Interval: h.Interval, Unit: 1, Exact: true}
	price := float64(t.Int(1, 100))
	for i, v := range vols {
		r.C = append(r.C, klines.Candle{TimeUnix: 1600000000 + int64(i)*60, Open: price, Close: price, High: price, Low: price, Volume: float64(v)})
	}
	t.Class("tie of MoneyFlowIndex made")
	t.Notef("period %d, %v", p.I[0], r)
	return r
}

// emaPair are the periods of two exponential averages whose crossing counts.
func emaPair(key string, p P) (int, int) {
	switch key {
	case "AwesomeOscillator":
		return 5, 34
	case "TraderXO", "AbsolutePriceOscillator":
		return p.I[0], p.I[1]
	case "EMAVegas":
		return p.I[2], p.I[4]
	case "Macd":
		return p.I[0], p.I[2]
	}
	return 0, 0
}

// emaTie starts a history with a move by x and one to m after it such that the
// two averages differ after the first and are exactly equal after the second.
// All values are integers.
func emaTie(t *T, h *Hist, f, s int) *Hist {
	a, b := int64(f+1), int64(s+1)
	// 2m/a + (a-2)2x/a^2 = 2m/b + (b-2)2x/b^2, with x = (ab)^2/g
	num := (b-2)*a*a - (a-2)*b*b // m (1/a - 1/b) = x num / (ab)^2
	den := a * b * (b - a)
	x, m := den, num
	gcd := func(u, v int64) int64 {
		for v != 0 {
			u, v = v, u%v
		}
		return max(u, -u)
	}
	g := gcd(x, m)
	x, m = x/g, m/g
	k := a * b / gcd(a, b) // all averages integers
	x, m = x*k*k, m*k*k
	if max(x, -x) > 1<<28 || max(m, -m) > 1<<28 {
		return h
	}
	if t.Chance(50) {
		x, m = -x, -m
	}
	base := 2 * (max(x, -x) + max(m, -m))
	r := &Hist{Interval: h.Interval, Unit: 1, Exact: true}
	prev := base
	add := func(c int64) {
		hi, lo := max(prev, c), min(prev, c)
		if t.Chance(50) {
			hi, lo, prev = c, c, c // HL2 is the close
		}
		r.C = append(r.C, klines.Candle{TimeUnix: 1600000000 + int64(len(r.C))*int64(h.Interval.Duration().Seconds()),
			Open: float64(prev), Close: float64(c), High: float64(hi), Low: float64(lo), Volume: 1, IsBullMarket: c > prev})
		prev = c
	}
	for k := t.Int(0, 12); k >= 0; k-- {
		add(base)
	}
	add(base + x)
	add(base + m)
	if t.Chance(50) { // the mid prices count
		for i := range r.C {
			c := &r.C[i]
			c.Open, c.High, c.Low = c.Close, c.Close, c.Close
		}
	}
	for i := 1; i < min(h.N(), 40); i++ {
		add(max(1, int64(float64(prev)*h.C[i].Close/h.C[i-1].Close)))
	}
	t.Class("two averages exactly equal")
	t.Notef("with %v", r)
	return r
}

func init() {
	register(&Prop{ID: "C06", Quick: 450000, Thorough: 6000000,
		Rule: "the rule gives at least one BUY or SELL",
		Assume: []string{"the rule of each indicator is applied to the data the indicator itself reports (its values are decided by T01..V01)",
			"Vegas tunnel: the cross must lie in the ten candles before; Ichimoku: sides start once the conversion period is complete; Projection: side of Po against Spo"},
		Run: func(t *T) {
			list := []*Spec{}
			for _, s := range specs {
				if s.Side {
					list = append(list, s)
				}
			}
			s, p, h := genInd(t, HOpt{Max: 220, Active: true}, list)
			if ts := ties[s.Key]; len(ts) > 0 {
				pct := 6
				if ts[0].b == "" {
					pct = 40 // levels: hardly met by chance
				}
				if f, sl := emaPair(s.Key, p); f != sl && t.Chance(12) {
					h = emaTie(t, h, f, sl)
				} else if t.Chance(pct) {
					h = seekTie(t, s, p, h, ts)
				}
			}
			ohlc := t.Chance(20)
			obj := make1(s, newItem(t, s, p, h, ohlc), p, ohlc)
			x := sideIn{o: getObs(obj), h: h, p: p}
			if x.o.N != h.N() {
				return // C01
			}
			var sd utils.SideData
			var want []utils.Side
			if s.Key == "Camarilla" {
				h2 := sideHist2(t, h)
				cam := oscillator.NewCamarilla(h2.Item(), p.I[0])
				x.day = getObs(cam)
				x.dayT = x.day.Times
				sd = getSides(s, obj, h2.Item())
				want = camarillaSides(x)
			} else {
				rule := sideRules[s.Key]
				sd = getSides(s, obj, nil)
				want = make([]utils.Side, h.N())
				for i := range want {
					want[i] = utils.Hold
					if i > 0 {
						want[i] = rule(x, i)
					}
				}
			}
			for i, w := range want {
				if w != utils.Hold {
					t.NonTrivial(true)
				}
				t.ClassIf(w == utils.Buy, "buys of "+s.Key)
				t.ClassIf(w == utils.Sell, "sells of "+s.Key)
				if sd.Data[i] != w {
					t.Failf("%s(%v): side of candle %d is %v, the rule says %v", s.Key, p, i, sd.Data[i], w)
				}
			}
		}})
}
