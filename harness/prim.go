package main

// A01..A03: the technical-analysis library against direct evaluation.

import (
	"math"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

// sameIn fails when a function changed one of its inputs.
func sameIn(t *T, name string, in, copy []float64) {
	for i := range in {
		if math.Float64bits(in[i]) != math.Float64bits(copy[i]) {
			t.Failf("%s changed its input: element %d is %v, was %v", name, i, in[i], copy[i])
		}
	}
}

// room is the slice as the beginning of a longer one, of which nothing may
// change.
func room[E comparable](t *T, s []E, fill E) []E {
	n := len(s)
	all := make([]E, n+6)
	copy(all, s)
	for i := n; i < len(all); i++ {
		all[i] = fill
	}
	t.rooms = append(t.rooms, func() {
		for i := n; i < len(all); i++ {
			if all[i] != fill {
				t.Failf("something was written behind the %d elements of an input: %v", n, all[i])
			}
		}
	})
	return all[:n]
}

// roomy gives candles and series room behind.
func roomy(t *T, it *klines.Item, o *klines.OHLC) {
	if it != nil {
		c := &klines.Candle{Open: 1.5, High: 2, Low: 1, Close: 1.75, Volume: 3, TimeUnix: 7}
		keep := *c
		it.Candles = room(t, it.Candles, c)
		t.rooms = append(t.rooms, func() {
			if *c != keep {
				t.Failf("a candle behind the candles of an item was changed: %+v", *c)
			}
		})
	}
	if o != nil {
		for _, s := range []*[]float64{&o.Open, &o.High, &o.Low, &o.Close, &o.Volume} {
			*s = room(t, *s, -123456.5)
		}
		o.TimeUnix = room(t, o.TimeUnix, -5)
		o.BullMarket = room(t, o.BullMarket, false)
	}
}

// ownResults writes to everything the library handed out, to where it ends: the
// inputs, compared afterwards, must not see it.
func ownResults(t *T) {
	for _, g := range t.handed {
		g = g[:cap(g)]
		for i := range g {
			g[i] = -987654.25
		}
	}
	t.handed = nil
}

func agreeAll(t *T, name string, got []float64, want []E) {
	if len(got) != len(want) {
		t.Failf("%s: %d results for %d values", name, len(got), len(want))
	}
	for i := range got {
		if !want[i].agree(got[i]) {
			t.Failf("%s: element %d is %v, direct evaluation gives %v", name, i, got[i], want[i])
		}
	}
	t.handed = append(t.handed, got)
}

func dup(xs []float64) []float64 { return append([]float64(nil), xs...) }

// mVariance of each full window.
func mVariance(p int, xs []float64) []E {
	n := len(xs)
	r := eZeros(n)
	big, tot := 0.0, 0.0
	exact := sumsExact(exs(xs)) && sumsExact(exs(sq(xs)))
	for i := range xs {
		big += xs[i] * xs[i]
		tot += math.Abs(xs[i])
		if i < p-1 {
			continue
		}
		w := xs[i-p+1 : i+1]
		m := 0.0
		for _, x := range w {
			m += x
		}
		m /= float64(p)
		v, flat := 0.0, true
		for _, x := range w {
			v += (x - m) * (x - m)
			flat = flat && x == w[0]
		}
		// both sum(x^2)/p - mean^2 with running sums and the two-pass form
		r[i] = fin(E{V: v / float64(p), U: float64(i+8) * ulps * 4 * (big/float64(p) + tot/float64(p)*tot/float64(p))})
		if flat && exact && isPow2(float64(p)) {
			r[i] = ex(0)
		}
	}
	return r
}

// mDevAround is the mean distance of each full window from c.
func mDevAround(p int, xs, c []E) []E {
	r := eZeros(len(xs))
	for i := p - 1; i < len(xs); i++ {
		d := ex(0)
		for j := i - p + 1; j <= i; j++ {
			d = add(d, absE(sub(xs[j], c[i])))
		}
		r[i] = div(d, ex(float64(p)))
	}
	return r
}

func mFull(p int, xs []E) []E { // mean of full windows, 0 before
	s := winFresh(p, xs)
	r := eZeros(len(xs))
	for i := p - 1; i < len(xs); i++ {
		r[i] = div(s[i], ex(float64(p)))
	}
	return r
}

// hlc makes consistent high, low and close series.
func hlc(t *T, max int) (h, l, c []float64) {
	hist := genHist(t, HOpt{Max: max, Hints: []int{5, 14}})
	return room(t, hist.High(), -123456.5), room(t, hist.Low(), -123456.5), room(t, hist.Close(), -123456.5)
}

var a01Funcs = []struct {
	name string
	min  int // smallest period
	f    func(t *T, p int, x []float64) ([]float64, []E)
}{
	{"Max", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Max(p, x), mMax(p, exs(x)) }},
	{"Min", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Min(p, x), mMin(p, exs(x)) }},
	{"Sum", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Sum(p, x), winFresh(p, exs(x)) }},
	{"Sma", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Sma(p, x), mSma(p, exs(x)) }},
	{"MA", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.MA(x, p), mFull(p, exs(x)) }},
	{"Rma", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Rma(p, x), mRma(p, exs(x)) }},
	{"Ema", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Ema(p, x), mEma(p, exs(x)) }},
	{"Dema", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Dema(p, x), mDema(p, exs(x)) }},
	{"Wma", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Wma(p, x), mWma(p, exs(x)) }},
	{"MeanDeviation", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		ma := ta.Sma(p, x)
		keep := dup(ma)
		g := ta.MeanDeviation(x, p, ma)
		sameIn(t, "MeanDeviation (averages)", ma, keep)
		return g, mDevAround(p, exs(x), exs(ma))
	}},
	{"Dev", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		return ta.Dev(x, p), mDevAround(p, exs(x), mFull(p, exs(x)))
	}},
	{"Variance", 1, func(t *T, p int, x []float64) ([]float64, []E) { return ta.Variance(x, p), mVariance(p, x) }},
	{"StdDev", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		k := []float64{1, 2, 0.5, 3}[t.Int(0, 3)]
		r := mVariance(p, x)
		for i, v := range r {
			switch {
			case v.V+v.U < 1e-14*(1-1e-9):
				r[i] = ex(0)
			case v.V-v.U < 1e-14*(1+1e-9):
				m := math.Sqrt(v.V+v.U) * k
				r[i] = E{V: m / 2, U: m / 2}
			default:
				r[i] = scale(sqrtE(v), k)
			}
		}
		return ta.StdDev(x, p, k), r
	}},
	{"LinearReg", 2, func(t *T, p int, x []float64) ([]float64, []E) {
		v, _, _ := mLinReg(p, exs(x))
		return ta.LinearReg(x, p), v
	}},
	{"LinearRegIntercept", 2, func(t *T, p int, x []float64) ([]float64, []E) {
		_, b, _ := mLinReg(p, exs(x))
		return ta.LinearRegIntercept(x, p), b
	}},
	{"LinearRegSlope", 2, func(t *T, p int, x []float64) ([]float64, []E) {
		_, _, m := mLinReg(p, exs(x))
		return ta.LinearRegSlope(x, p), m
	}},
	{"LinearRegAngle", 2, func(t *T, p int, x []float64) ([]float64, []E) {
		_, _, m := mLinReg(p, exs(x))
		return ta.LinearRegAngle(x, p), each(m, func(e E) E {
			a := math.Atan(e.V) * 180 / math.Pi
			// the slope of the arc tangent is at most 1
			return E{V: a, U: e.U*180/math.Pi + 1e-13*math.Abs(a), Bad: e.Bad}
		})
	}},
	{"SD", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		v := mVariance(len(x), x)
		if len(x) == 0 {
			return []float64{ta.SD(x)}, []E{ex(0)}
		}
		e := v[len(x)-1]
		// the two-pass form is exact up to a few units
		tot, big := 0.0, 0.0
		for _, a := range x {
			tot += math.Abs(a)
			big += a * a
		}
		n := float64(len(x))
		dm := (n + 4) * ulps * tot / n
		e.U = math.Min(e.U, dm*dm+(n+8)*ulps*e.V+2*dm*dm)
		return []float64{ta.SD(x)}, []E{sqrtE(e)}
	}},
	{"Mean and Cum", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		s := winFresh(len(x)+1, exs(x))
		if len(x) == 0 {
			return []float64{ta.Cum(x)}, []E{ex(0)}
		}
		e := s[len(x)-1]
		return []float64{ta.Cum(x), ta.Mean(x)}, []E{e, div(e, ex(float64(len(x))))}
	}},
	{"CCI", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		q := per(t)
		ma := mSma(q, exs(x))
		r := eZeros(len(x))
		for i := p - 1; i < len(x); i++ {
			r[i] = mCciAt(i, p, exs(x), ma[i])
		}
		return ta.CCI(x, p, q), r
	}},
	{"AiCoinCCI", 1, func(t *T, p int, x []float64) ([]float64, []E) {
		ma := mFull(p, exs(x))
		r := eZeros(len(x))
		for i := p - 1; i < len(x); i++ {
			r[i] = mCciAt(i, p, exs(x), ma[i])
		}
		g := ta.AiCoinCCI(x, p, 0.015)
		if h := trend.ComputeCCI(x, ta.MA(x, p), ta.Dev(x, p)); len(h) == len(g) {
			agreeAll(t, "ComputeCCI", h, r)
		} else {
			t.Failf("ComputeCCI: %d results for %d values", len(h), len(g))
		}
		return g, r
	}},
}

// hugePeriod checks the full windows of periods beyond 16 bits, of which the
// sums are exact: a pattern of small whole numbers, repeated.
func hugePeriod(t *T) {
	p := 65530 + t.Hidden(5000)
	pat := make([]float64, t.Int(1, 9))
	for i := range pat {
		pat[i] = float64(t.Int(1, 200))
	}
	n := p + 3
	x := make([]float64, n)
	for i := range x {
		x[i] = pat[i*i%7%len(pat)]
	}
	t.Notef("period %d of %d values, value i the %v-th of %v", p, n, "i*i%7", pat)
	t.Class("a period beyond 16 bits")
	x0 := dup(x)
	got := map[string][]float64{"Sum": ta.Sum(p, x), "Sma": ta.Sma(p, x), "MA": ta.MA(x, p), "Wma": ta.Wma(p, x)}
	for i := p - 1; i < n; i++ {
		s, w := 0.0, 0.0
		for j := i - p + 1; j <= i; j++ {
			s += x[j]
			w += x[j] * float64(j-i+p)
		}
		want := map[string]float64{"Sum": s, "Sma": s / float64(p), "MA": s / float64(p), "Wma": w / (float64(p) * float64(p+1) / 2)}
		for _, f := range []string{"Sum", "Sma", "MA", "Wma"} {
			if len(got[f]) != n {
				t.Failf("%s: %d results for %d values", f, len(got[f]), n)
			}
			if e := want[f]; !(math.Abs(got[f][i]-e) <= 1e-9*(1+math.Abs(e))) {
				t.Failf("%s: element %d is %v, direct evaluation gives %v", f, i, got[f][i], e)
			}
		}
	}
	sameIn(t, "the primitives", x, x0)
	t.NonTrivial(true)
}

func runA01(t *T) {
	nk := len(a01Funcs) + 3
	k := t.Round(nk)
	if t.r != nil && t.Index%70001 == 1003 {
		hugePeriod(t)
		return
	}
	if k < len(a01Funcs) {
		f := a01Funcs[k]
		// now and then thousands of values and a period of thousands
		long := t.r != nil && t.Index/nk%18000 == 1000
		var x []float64
		if long {
			t.List(4100+t.Hidden(1500), 12000, func(int) { x = append(x, float64(t.Zig(100000))/8) })
		} else {
			x = genSeries(t, 160, false)
		}
		x = room(t, x, -123456.5)
		p := per(t)
		if long {
			t.Class("thousands of values")
			p = t.Int(2200, 4000)
		}
		if t.Chance(25) && len(x) > 0 { // the whole series, one less, one more
			p = len(x) - 1 + t.Int(0, 2)
		}
		if p < f.min {
			p = f.min
		}
		t.Notef("%s with period %d of %v", f.name, p, x)
		keep := dup(x)
		got, want := f.f(t, p, x)
		sameIn(t, f.name, x, keep)
		agreeAll(t, f.name, got, want)
		ownResults(t)
		sameIn(t, f.name+" and writing to the result", x, keep)
		t.Class("%s", f.name)
		full := 0
		for i, e := range want {
			if i >= p && !e.Bad && e.V != 0 {
				full++
			}
		}
		t.NonTrivial(full > 1 || f.name == "SD" && want[0].V > 0 || f.name == "Mean and Cum" && len(x) > 2)
		return
	}
	h, l, c := hlc(t, 160)
	p := per(t)
	if t.Chance(25) && len(c) > 0 {
		p = len(c) - 1 + t.Int(0, 2)
	}
	if p < 1 {
		p = 1
	}
	t.Notef("period %d of high %v low %v close %v", p, h, l, c)
	h0, l0, c0 := dup(h), dup(l), dup(c)
	H, L, C := exs(h), exs(l), exs(c)
	switch k - len(a01Funcs) {
	case 0:
		tr := mTR(H, L, C, false)
		agreeAll(t, "TRange", ta.TRange(h, l, c), tr)
		agreeAll(t, "TrueRange", ta.TrueRange(h, l, c), tr)
		t.Class("TRange")
	case 1:
		agreeAll(t, "Atr", ta.Atr(h, l, c, p), mAtr(H, L, C, p))
		tr := mTR(H, L, C, false)
		w := eZeros(len(c))
		if p == 1 {
			w = tr
		} else if len(c) > p {
			prev := div(winFresh(p, tr)[p], ex(float64(p)))
			for i := p; i < len(c); i++ {
				if i > p {
					prev = div(add(scale(prev, float64(p-1)), tr[i]), ex(float64(p)))
				}
				w[i] = scale(div(prev, C[i]), 100)
			}
		}
		agreeAll(t, "Natr", ta.Natr(h, l, c, p), w)
		t.Class("Atr and Natr")
	case 2:
		s := series{h: H, l: L, c: C}
		wk := mStoch(p, s)
		k, d := ta.Stochastic(c, h, l, p)
		agreeAll(t, "Stochastic K", k, pct(wk))
		agreeAll(t, "Stochastic D", d, pct(mSma(3, wk)))
		t.Class("Stochastic")
	}
	ownResults(t)
	sameIn(t, "high", h, h0)
	sameIn(t, "low", l, l0)
	sameIn(t, "close", c, c0)
	t.NonTrivial(len(c) > p)
}

// allSeries calls f with every series up to the length over the values.
func allSeries(max int, vals []float64, f func(x []float64)) {
	var rec func(x []float64)
	rec = func(x []float64) {
		f(x)
		if len(x) == max {
			return
		}
		for _, v := range vals {
			rec(append(x, v))
		}
	}
	rec(make([]float64, 0, max))
}

func fixedWindows(f *Fixed) {
	n := 6
	if f.Tier == "thorough" {
		n = 8
	}
	allSeries(n, []float64{0, -1, 2}, func(x []float64) {
		for p := 1; p <= len(x)+1; p++ {
			mx, mn, sm, ma := ta.Max(p, x), ta.Min(p, x), ta.Sum(p, x), ta.Sma(p, x)
			for i := range x {
				lo := i - p + 1
				if lo < 0 {
					lo = 0
				}
				a, b, s := x[lo], x[lo], 0.0
				for _, v := range x[lo : i+1] {
					a, b, s = math.Max(a, v), math.Min(b, v), s+v
				}
				m := s / float64(i-lo+1)
				if mx[i] != a || mn[i] != b || sm[i] != s || ma[i] != m {
					f.Failf("period %d of %v: element %d has maximum %v minimum %v sum %v mean %v, want %v %v %v %v", p, x, i, mx[i], mn[i], sm[i], ma[i], a, b, s, m)
				}
			}
			f.Count++
		}
	})
}

// ---------------------------------------------------------------- A02

func elem(t *T, name string, x, got []float64, f func(i int) float64) {
	if len(got) != len(x) {
		t.Failf("%s: %d results for %d values", name, len(got), len(x))
	}
	for i := range x {
		w := f(i)
		if math.IsNaN(w) && math.IsNaN(got[i]) || got[i] == w {
			continue
		}
		if math.Abs(got[i]-w) <= 1e-14*math.Abs(w) {
			continue
		}
		t.Failf("%s: element %d is %v, want %v", name, i, got[i], w)
	}
	t.handed = append(t.handed, got)
}

func runA02(t *T) {
	x := room(t, genSeries(t, 60, false), -123456.5)
	n := len(x)
	if n > 0 && t.Chance(20) {
		x[t.Int(0, n-1)] = 0
	}
	y := make([]float64, n)
	for i := range y {
		switch t.Pick(50, 15, 35) {
		case 0:
			y[i] = float64(t.Zig(40)) / 4
		case 1:
			y[i] = 0
		case 2:
			y[i] = float64(t.Zig(3000)) * 0.01
		}
	}
	k := []float64{2, 0, -1, 0.5, 3, 0.1, 1e6}[t.Int(0, 6)]
	sh := t.Int(0, 8)
	if t.Chance(20) {
		sh = n - 1 + t.Int(0, 2)
	}
	if sh < 0 {
		sh = 0
	}
	t.Notef("x=%v y=%v factor %v shift %d", x, y, k, sh)
	x0, y0 := dup(x), dup(y)
	t.NonTrivial(n > 1)
	kind := t.Round(10)
	t.Class("kind %d", kind)
	at := func(a []float64, i int) float64 {
		if i < 0 {
			return 0
		}
		return a[i]
	}
	switch kind {
	case 0:
		elem(t, "Add", x, ta.Add(x, y), func(i int) float64 { return x[i] + y[i] })
		elem(t, "Subtract", x, ta.Subtract(x, y), func(i int) float64 { return x[i] - y[i] })
		elem(t, "AddBy", x, ta.AddBy(x, k), func(i int) float64 { return x[i] + k })
		elem(t, "Add after Subtract", x, ta.Subtract(ta.Add(x, x), x), func(i int) float64 { return x[i] })
	case 1:
		elem(t, "Multiply", x, ta.Multiply(x, y), func(i int) float64 { return x[i] * y[i] })
		elem(t, "MultiplyBy", x, ta.MultiplyBy(x, k), func(i int) float64 { return x[i] * k })
	case 2:
		elem(t, "Divide", x, ta.Divide(x, y), func(i int) float64 {
			if y[i] == 0 {
				return 0
			}
			return x[i] / y[i]
		})
		if k != 0 {
			elem(t, "DivideBy", x, ta.DivideBy(x, k), func(i int) float64 { return x[i] / k })
		}
		for _, v := range y {
			t.ClassIf(v == 0, "divisions by zero")
		}
	case 3:
		elem(t, "ShiftRightAndFillBy", x, ta.ShiftRightAndFillBy(sh, k, x), func(i int) float64 {
			if i < sh {
				return k
			}
			return x[i-sh]
		})
		elem(t, "ShiftRight", x, ta.ShiftRight(sh, x), func(i int) float64 { return at(x, i-sh) })
		two := ta.ShiftRight(1, ta.ShiftRight(sh, x))
		elem(t, "two shifts", x, two, func(i int) float64 { return at(x, i-sh-1) })
	case 4:
		elem(t, "Diff", x, ta.Diff(x, sh), func(i int) float64 { return x[i] - at(x, i-sh) })
		pos := make([]float64, n)
		for i := range pos {
			pos[i] = math.Abs(x[i]) + 0.25
		}
		p0 := dup(pos)
		// the quotient less 1 is as good as the difference divided
		pd := ta.PercentDiff(pos, sh)
		elem(t, "PercentDiff", pos, pd, func(i int) float64 {
			if i < sh {
				return 0
			}
			w := (pos[i] - pos[i-sh]) / pos[i-sh]
			if i < len(pd) && math.Abs(pd[i]-w) <= 2*ulps*(1+math.Abs(w)) {
				return pd[i]
			}
			return w
		})
		sameIn(t, "PercentDiff", pos, p0)
	case 5:
		p, q := ta.KeepPositives(x), ta.KeepNegatives(x)
		elem(t, "KeepPositives", x, p, func(i int) float64 { return math.Max(x[i], 0) })
		elem(t, "KeepNegatives", x, q, func(i int) float64 { return math.Min(x[i], 0) })
		elem(t, "positives and negatives", x, ta.Add(p, q), func(i int) float64 { return x[i] })
		s := ta.ExtractSign(x)
		elem(t, "ExtractSign", x, s, func(i int) float64 {
			if x[i] < 0 {
				return -1
			}
			return 1
		})
		elem(t, "sign times absolute value", x, ta.Multiply(s, ta.Abs(x)), func(i int) float64 { return x[i] })
	case 6:
		elem(t, "Abs", x, ta.Abs(x), func(i int) float64 { return math.Abs(x[i]) })
		a := ta.Abs(x)
		r := ta.Sqrt(a)
		elem(t, "Sqrt", x, r, func(i int) float64 { return math.Sqrt(a[i]) })
		elem(t, "Pow(2) of Sqrt", x, ta.Pow(r, 2), func(i int) float64 { return r[i] * r[i] })
		e := []float64{2, 3, 1, 0, 0.5, -1}[t.Int(0, 5)]
		b := ta.AddBy(a, 0.5)
		elem(t, "Pow", x, ta.Pow(b, e), func(i int) float64 {
			switch e {
			case 2:
				return b[i] * b[i]
			case 3:
				return b[i] * b[i] * b[i]
			case 1:
				return b[i]
			case 0:
				return 1
			case 0.5:
				return math.Sqrt(b[i])
			}
			return 1 / b[i]
		})
	case 7:
		d := t.Int(0, 6)
		got := ta.RoundDigitsAll(x, d)
		elem(t, "RoundDigitsAll", x, got, func(i int) float64 { return ta.RoundDigits(x[i], d) })
		for i := range x {
			checkRounded(t, "RoundDigitsAll", x[i], d, got[i])
		}
	case 8:
		z := dup(x)
		for i := range z {
			if t.Chance(30) {
				z[i] = math.NaN()
				t.Class("NaN replaced")
			}
		}
		z0 := dup(z)
		g := ta.Nzs(z, k)
		want := func(i int) float64 {
			if math.IsNaN(z0[i]) {
				return k
			}
			return z0[i]
		}
		elem(t, "Nzs", x, g, want)
		elem(t, "Nzs in place", x, z, want)
		for i := range z0 {
			if v := ta.Nz(z0[i], k); v != want(i) {
				t.Failf("Nz(%v, %v) is %v", z0[i], k, v)
			}
		}
	case 9:
		begin := float64(t.Zig(40)) / 4
		step := []float64{1, 0.5, 0.25, 0.1, 2, 0.3}[t.Int(0, 5)]
		if t.Chance(30) {
			step = -step
		}
		m := t.Int(0, 50)
		if t.Hidden(300) == 0 {
			m = 1000 + t.Hidden(50000)
			if t.Hidden(100) == 0 {
				m = 1000000 + t.Hidden(1000000)
			}
		}
		end := begin + step*float64(m)
		g := ta.GenerateNumbers(begin, end, step)
		if len(g) != m {
			t.Failf("GenerateNumbers(%v, %v, %v): %d numbers, want %d", begin, end, step, len(g), m)
		}
		for i, v := range g {
			if w := begin + step*float64(i); math.Abs(v-w) > 1e-12*math.Max(1, math.Abs(w)) {
				t.Failf("GenerateNumbers(%v, %v, %v): number %d is %v, want %v", begin, end, step, i, v, w)
			}
		}
		t.NonTrivial(m > 1)
	}
	sameIn(t, "the operation", x, x0)
	ownResults(t)
	sameIn(t, "the operation and writing to the result", x, x0)
	sameIn(t, "the operation", y, y0)
}

// ---------------------------------------------------------------- A03

func runA03(t *T) {
	x := room(t, genSeries(t, 80, false), -123456.5)
	n := len(x)
	x0 := dup(x)
	kind := t.Round(4)
	ext := func(lo, hi int, max bool) float64 { // extreme of x[lo..hi] clipped
		if lo < 0 {
			lo = 0
		}
		if hi > n-1 {
			hi = n - 1
		}
		e := x[lo]
		for _, v := range x[lo : hi+1] {
			if max && v > e || !max && v < e {
				e = v
			}
		}
		return e
	}
	switch kind {
	case 0:
		l, r := t.Int(0, 6), t.Int(0, 6)
		t.Notef("pivots with %d to the left and %d to the right of %v", l, r, x)
		ph, pl := ta.PivotHigh(x, l, r), ta.PivotLow(x, l, r)
		if len(ph) != n || len(pl) != n {
			t.Failf("%d and %d results for %d values", len(ph), len(pl), n)
		}
		for i := range x {
			wh, wl := 0.0, 0.0
			if i >= l+r {
				if v := x[i-r]; v == ext(i-l-r, i, true) {
					wh = v
					t.Class("pivot highs")
				}
				if v := x[i-r]; v == ext(i-l-r, i, false) {
					wl = v
				}
				t.NonTrivial(l+r > 0)
			}
			if ph[i] != wh || pl[i] != wl {
				t.Failf("left %d right %d: pivot high %v low %v at %d, want %v and %v", l, r, ph[i], pl[i], i, wh, wl)
			}
		}
	case 1:
		if n == 0 {
			return
		}
		i, l, r := t.Int(0, n-1), t.Int(0, 10), t.Int(0, 10)
		t.Notef("extremes around %d, %d to the left and %d to the right, of %v", i, l, r, x)
		for _, max := range []bool{true, false} {
			v, p := ta.PivotMin(x, i, l, r)
			name := "PivotMin"
			if max {
				v, p = ta.PivotMax(x, i, l, r)
				name = "PivotMax"
			}
			w := ext(i-l, i+r, max)
			if v != w {
				t.Failf("%s(index %d, %d, %d) is %v, the window's extreme is %v", name, i, l, r, v, w)
			}
			if p < 0 || p >= n || p < i-l || p > i+r || x[p] != v {
				t.Failf("%s(index %d, %d, %d): position %d does not hold %v", name, i, l, r, p, v)
			}
			t.ClassIf(i-l < 0 || i+r > n-1, "window clipped")
			t.ClassIf(p != i, "extreme away from the index")
			t.NonTrivial(p != i)
		}
	case 2:
		if n == 0 {
			return
		}
		k := t.Int(1, n+2)
		if t.Chance(10) {
			k = t.Int(1, 5*n+40)
		}
		t.Notef("extremes of the last %d of %v", k, x)
		if g, w := ta.Highest(x, k), ext(n-k, n-1, true); g != w {
			t.Failf("Highest over %d is %v, want %v", k, g, w)
		}
		if g, w := ta.Lowest(x, k), ext(n-k, n-1, false); g != w {
			t.Failf("Lowest over %d is %v, want %v", k, g, w)
		}
		t.NonTrivial(n > 1 && k > 1)
	case 3:
		if n < 2 {
			return
		}
		lvl := x[t.Int(0, n-1)]
		if t.Chance(60) {
			lvl = (x[n-1] + x[n-2]) / 2
		}
		if t.Chance(25) { // by the last digit
			for i := n - 2; i < n; i++ {
				x[i] = lvl
				if d := t.Int(0, 2); d > 0 {
					x[i] = math.Nextafter(lvl, math.Inf(2*d-3))
				}
			}
			x0 = append([]float64(nil), x...)
		}
		t.Notef("crossing of %v by %v", lvl, x)
		over, under := ta.CrossOver(x, lvl), ta.CrossUnder(x, lvl)
		a, b := x[n-2], x[n-1]
		if over != (a < lvl && b > lvl) {
			t.Failf("CrossOver of %v from %v to %v is %v", lvl, a, b, over)
		}
		if under != (a > lvl && b < lvl) {
			t.Failf("CrossUnder of %v from %v to %v is %v", lvl, a, b, under)
		}
		t.ClassIf(over, "crossings over")
		t.ClassIf(under, "crossings under")
		t.ClassIf(a == lvl || b == lvl, "touches")
		t.NonTrivial(over || under || a == lvl || b == lvl)
	}
	sameIn(t, "the operation", x, x0)
}

func fixedPivots(f *Fixed) {
	allSeries(6, []float64{1, -2, 0}, func(x []float64) {
		n := len(x)
		for l := 0; l <= 3; l++ {
			for r := 0; r <= 3; r++ {
				ph, pl := ta.PivotHigh(x, l, r), ta.PivotLow(x, l, r)
				for i := range x {
					wh, wl := 0.0, 0.0
					if i >= l+r {
						hi, lo := true, true
						for _, v := range x[i-l-r : i+1] {
							hi, lo = hi && v <= x[i-r], lo && v >= x[i-r]
						}
						if hi {
							wh = x[i-r]
						}
						if lo {
							wl = x[i-r]
						}
					}
					if ph[i] != wh || pl[i] != wl {
						f.Failf("pivots %d,%d of %v at %d: %v and %v, want %v and %v", l, r, x, i, ph[i], pl[i], wh, wl)
					}
					a, b := i-l, i+r+1
					if a < 0 {
						a = 0
					}
					if b > n {
						b = n
					}
					mx, mn := math.Inf(-1), math.Inf(1)
					for _, v := range x[a:b] {
						mx, mn = math.Max(mx, v), math.Min(mn, v)
					}
					if v, p := ta.PivotMax(x, i, l, r); v != mx || p < a || p >= b || x[p] != v {
						f.Failf("PivotMax(%v, %d, %d, %d) is %v at %d, want %v", x, i, l, r, v, p, mx)
					}
					if v, p := ta.PivotMin(x, i, l, r); v != mn || p < a || p >= b || x[p] != v {
						f.Failf("PivotMin(%v, %d, %d, %d) is %v at %d, want %v", x, i, l, r, v, p, mn)
					}
				}
				f.Count++
			}
		}
		for k := 1; k <= n+1 && n > 0; k++ {
			a := n - k
			if a < 0 {
				a = 0
			}
			mx, mn := math.Inf(-1), math.Inf(1)
			for _, v := range x[a:] {
				mx, mn = math.Max(mx, v), math.Min(mn, v)
			}
			if ta.Highest(x, k) != mx || ta.Lowest(x, k) != mn {
				f.Failf("Highest and Lowest over %d of %v are %v and %v, want %v and %v", k, x, ta.Highest(x, k), ta.Lowest(x, k), mx, mn)
			}
			f.Count++
		}
	})
}

func init() {
	register(&Prop{ID: "A01", Quick: 1200000, Thorough: 24000000, Run: runA01,
		Rule:   "at least two full windows have a value other than zero",
		Assume: []string{"periods from 1 (linear regression from 2)", "values are compared within the accumulated rounding error of a running sum over the series"},
		Fixed:  []FixedCase{{"all short series and periods: maximum, minimum, sum, mean", fixedWindows}}})
	register(&Prop{ID: "A02", Quick: 3200000, Thorough: 64000000, Run: runA02, Rule: "more than one element"})
	register(&Prop{ID: "A03", Quick: 1500000, Thorough: 30000000, Run: runA03,
		Rule:  "the window holds more than its own index, or the level is touched or crossed",
		Fixed: []FixedCase{{"all short series: pivots and extremes", fixedPivots}}})
}
