package main

// C01..C05, C07..C09: guarantees common to all indicators.

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

func make1(s *Spec, it *klines.Item, p P, ohlc bool) any {
	if ohlc && s.OHLC != nil {
		return s.OHLC(it, p)
	}
	return s.New(it, p)
}

// dayItem is a second history for Camarilla: one candle per day (or longer)
// around the first one.
func dayItem(h *Hist) *klines.Item {
	d := &Hist{Interval: klines.OneDay}
	seen := map[int64]bool{}
	for i, c := range h.C {
		day := dayStart(c.TimeUnix)
		if seen[day] || i%5 == 3 || len(d.C) > 300 && i%16 != 0 { // each candle is compared with each day
			continue
		}
		seen[day] = true
		c.TimeUnix = day
		c.High += (c.High - c.Low) * 0.5
		d.C = append(d.C, c)
	}
	return d.Item()
}

func init() {
	register(&Prop{ID: "C01", Quick: 540000, Thorough: 7200000,
		Rule: "the history is not empty",
		Run: func(t *T) {
			s, p, h := genInd(t, HOpt{}, specs)
			wild := t.Chance(12) // candles without any value, as padding inserts them
			if wild {
				for i := range h.C {
					if t.Chance(20) {
						h.C[i] = klines.Candle{TimeUnix: h.C[i].TimeUnix}
					}
				}
				t.Class("with empty candles")
			}
			ohlc := t.Chance(30)
			t.NonTrivial(h.N() > 0)
			it := h.Item()
			obj := make1(s, it, p, ohlc)
			if t.Chance(50) {
				obj = calc(obj)
			}
			o := getObs(obj)
			if o.N != h.N() {
				t.Failf("%s: %d entries for %d candles", s.Key, o.N, h.N())
			}
			for i := range h.C {
				if o.Times[i] != h.C[i].TimeUnix {
					t.Failf("%s: entry %d has time %d, its candle %d", s.Key, i, o.Times[i], h.C[i].TimeUnix)
				}
			}
			for m, l := range getLists(s, obj) {
				if len(l) != h.N() {
					t.Failf("%s.%s: %d values for %d candles", s.Key, m, len(l), h.N())
				}
			}
			okSide := func(x utils.Side) bool { return x == utils.Buy || x == utils.Sell || x == utils.Hold }
			for i, x := range o.Sides {
				if !okSide(x) {
					t.Failf("%s: side %d of entry %d", s.Key, x, i)
				}
			}
			if s.Side {
				ob := obj
				if t.Chance(30) {
					ob = make1(s, it, p, ohlc) // sides asked first
				}
				sd := getSides(s, ob, dayItem(h))
				if len(sd.Data) != h.N() {
					t.Failf("%s: %d sides for %d candles", s.Key, len(sd.Data), h.N())
				}
				for i, x := range sd.Data {
					if !okSide(x) {
						t.Failf("%s: side %d of candle %d", s.Key, x, i)
					}
				}
			}
			if a, ok := obj.(*trend.Atr); ok {
				l, sh := a.ChandelierExit(per(t))
				if len(l) != h.N() || len(sh) != h.N() {
					t.Failf("chandelier exit: %d and %d values for %d candles", len(l), len(sh), h.N())
				}
			}
		}})

	register(&Prop{ID: "C02", Quick: 320000, Thorough: 3200000,
		Rule: "the shorter history has at least one candle and the longer one more",
		Run: func(t *T) {
			list := []*Spec{}
			for _, s := range specs {
				if s.Key != "SmartMoneyConcepts" { // lines are drawn back by design; see T05
					list = append(list, s)
				}
			}
			s, p, h := genInd(t, HOpt{MinLen: 2}, list)
			n := h.N()
			if n < 2 {
				return
			}
			t.NonTrivial(true)
			ohlc := t.Chance(30)
			full := make1(s, newItem(t, s, p, h, ohlc), p, ohlc)
			fo := getObs(full)
			var fs utils.SideData
			day := dayItem(h)
			if s.Side {
				fs = getSides(s, full, day)
			}
			var cx, cn []float64
			cp := per(t)
			if a, ok := full.(*trend.Atr); ok {
				cx, cn = a.ChandelierExit(cp)
			}
			ks := []int{n - 1, t.Int(1, n-1)}
			if len(p.I) > 0 {
				ks = append(ks, p.I[t.Int(0, len(p.I)-1)]+t.Int(0, 2)-1)
			}
			for _, k := range ks {
				if k < 1 || k >= n {
					continue
				}
				obj := make1(s, h.Head(k), p, ohlc)
				o := getObs(obj)
				if m := sameObs(o, fo, k, 1e-9); m != "" {
					t.Failf("%s(%v): with %d candles and with %d of them: %s", s.Key, p, n, k, m)
				}
				if s.Side {
					sd := getSides(s, obj, day)
					if m := sameSides(sd.Data, fs.Data, k); m != "" {
						t.Failf("%s(%v): with %d candles and with %d of them: %s", s.Key, p, k, n, m)
					}
				}
				if a, ok := obj.(*trend.Atr); ok {
					x, y := a.ChandelierExit(cp)
					for i := 0; i < k; i++ {
						if !near(x[i], cx[i], 1e-9, math.Abs(cx[i])) || !near(y[i], cn[i], 1e-9, math.Abs(cn[i])) {
							t.Failf("chandelier exit %d: %v/%v and %v/%v", i, x[i], y[i], cx[i], cn[i])
						}
					}
				}
			}
		}})

	register(&Prop{ID: "C03", Quick: 320000, Thorough: 3200000,
		Rule: "at least three calls are made on an object over a non-empty history",
		Run:  runC03})

	register(&Prop{ID: "C04", Quick: 8000, Thorough: 60000, Procs: 4,
		Rule: "at least two indicators share a non-empty history",
		Run:  runC04})

	register(&Prop{ID: "C05", Quick: 720000, Thorough: 7200000,
		Rule: "the history is not empty",
		Run: func(t *T) {
			s, p, h := genInd(t, HOpt{}, specs)
			t.NonTrivial(h.N() > 0)
			obj := make1(s, h.Item(), p, t.Chance(20))
			o := getObs(obj)
			for _, c := range o.Cols {
				r, bounded := s.Range[colBase(c)]
				for i, v := range o.V[c] {
					if math.IsNaN(v) || math.IsInf(v, 0) {
						t.Failf("%s(%v): %s of entry %d is %v", s.Key, p, c, i, v)
					}
					if bounded {
						tol := 1e-9 * math.Max(1, math.Abs(v))
						if v < r[0]-tol || v > r[1]+tol {
							t.Failf("%s(%v): %s of entry %d is %v, outside %v..%v", s.Key, p, c, i, v, r[0], r[1])
						}
					}
				}
			}
			for k := 1; k < len(s.Order); k++ {
				lo, hi := o.V[s.Order[k-1]], o.V[s.Order[k]]
				for i := range lo {
					if lo[i] > hi[i]+1e-9*math.Max(1, math.Abs(hi[i])) {
						t.Failf("%s(%v): %s of entry %d is %v, above %s %v", s.Key, p, s.Order[k-1], i, lo[i], s.Order[k], hi[i])
					}
				}
			}
			if a, ok := obj.(*trend.Atr); ok {
				x, y := a.ChandelierExit(per(t))
				for i := range x {
					if math.IsNaN(x[i]+y[i]) || math.IsInf(x[i]+y[i], 0) {
						t.Failf("chandelier exit %d: %v %v", i, x[i], y[i])
					}
				}
			}
		}})

	register(&Prop{ID: "C07", Quick: 240000, Thorough: 3200000,
		Rule: "the history has at least three candles and the unit, the volume unit or the clock changes",
		Run:  runC07})

	register(&Prop{ID: "C08", Quick: 240000, Thorough: 1600000,
		Rule: "the history is not empty",
		Run:  runC08})

	register(&Prop{ID: "C09", Quick: 240000, Thorough: 3200000,
		Rule: "at least two strategies are run over a non-empty history",
		Run:  runC09})

	register(&Prop{ID: "C10", Quick: 320000, Thorough: 3200000,
		Rule: "the history is not empty and the second parameters differ from the first",
		Run:  runC10})

	register(&Prop{ID: "C11", Quick: 200000, Thorough: 3000000,
		Rule: "the indicator reads the candles whenever it calculates, and calculates again at least once",
		Run:  runC11})
}

// ---- C03

type freshRes struct {
	obs   *Obs
	lists map[string][]float64
	sides utils.SideData
	exit  [2][]float64
	extra string
}

func fresh(s *Spec, h *Hist, p P, ohlc bool, day *klines.Item, exitPer int) *freshRes {
	mk := func() any { return make1(s, h.Item(), p, ohlc) }
	f := &freshRes{}
	o := mk()
	f.obs = getObs(o)
	f.extra = smcExtra(o)
	f.lists = getLists(s, mk())
	if s.Side {
		f.sides = getSides(s, mk(), day)
	}
	if s.Key == "Atr" {
		f.exit[0], f.exit[1] = mk().(*trend.Atr).ChandelierExit(exitPer)
	}
	return f
}

func sameList(a, b []float64, tol float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d values", len(a), len(b))
	}
	size := 0.0
	for i := range a {
		size = math.Max(size, math.Max(fabs(a[i]), fabs(b[i])))
		if !near(a[i], b[i], tol, size) {
			return fmt.Sprintf("value %d: %v and %v", i, a[i], b[i])
		}
	}
	return ""
}

func sameSideData(a, b utils.SideData) string {
	if a.Name != b.Name {
		return fmt.Sprintf("names %q and %q", a.Name, b.Name)
	}
	if len(a.Data) != len(b.Data) {
		return fmt.Sprintf("%d and %d sides", len(a.Data), len(b.Data))
	}
	return sameSides(a.Data, b.Data, len(a.Data))
}

const exactTol = 1e-12

func runC03(t *T) {
	s, p, h := genInd(t, HOpt{Max: 160}, specs)
	ohlc := t.Chance(30)
	day := dayItem(h)
	xp := per(t)
	f := fresh(s, h, p, ohlc, day, xp)
	type variant struct {
		day   *klines.Item
		sides utils.SideData
	}
	var variants []variant // second histories for Camarilla
	if s.Key == "Camarilla" {
		for i, n := 0, 1+t.Int(0, 2); i < n; i++ {
			d := sideHist2(t, h)
			d.C = d.C[min(t.Int(0, 3), len(d.C)):]
			variants = append(variants, variant{d.Item(), getSides(s, make1(s, h.Item(), p, ohlc), d.Item())})
		}
	}
	// the value lists agree with the data
	for m, cols := range s.Lists {
		for _, c := range cols {
			if d := sameList(f.lists[m+"/"+c], f.obs.V[c], exactTol); d != "" {
				t.Failf("%s(%v).%s and field %s of its data: %s", s.Key, p, m, c, d)
			}
		}
	}
	type snap struct {
		raw reflect.Value
		obs *Obs
		op  string
	}
	var snaps []snap
	it := h.Item()
	obj := make1(s, it, p, ohlc)
	var ops []string
	var sideSnaps [][2][]utils.Side
	type listSnap struct {
		raw, copy []float64
		op        string
	}
	var listSnaps []listSnap
	calls := 3 + t.Hidden(5)
	if t.Hidden(60) == 0 { // an object in use for long
		calls = 20 + t.Hidden(12000/(h.N()+60))
	}
	t.List(calls, 240, func(i int) {
		op := t.Int(0, 4)
		switch op {
		case 0:
			ops = append(ops, "GetData")
			raw := rawData(obj)
			o := observeData(raw)
			if d := sameObs(o, f.obs, f.obs.N, exactTol); d != "" || o.N != f.obs.N {
				t.Failf("%s(%v) after %v: data differ from a fresh object's: %s (%d and %d entries)", s.Key, p, ops, d, o.N, f.obs.N)
			}
			if x := smcExtra(obj); x != f.extra {
				t.Failf("%s(%v) after %v: %s, on a fresh object %s", s.Key, p, ops, x, f.extra)
			}
			snaps = append(snaps, snap{raw, o, fmt.Sprint(ops)})
		case 1:
			ops = append(ops, "Calculation")
			obj = calc(obj)
		case 2:
			ops = append(ops, "values")
			for m, l := range rawLists(s, obj) {
				if d := sameList(l[1], f.lists[m], exactTol); d != "" {
					t.Failf("%s(%v) after %v: %s differs from a fresh object's: %s", s.Key, p, ops, m, d)
				}
				listSnaps = append(listSnaps, listSnap{l[0], l[1], m})
				_ = append(l[0], -987654.25) // whoever holds a list may add to it
			}
		case 3:
			if !s.Side {
				return
			}
			ops = append(ops, "AnalysisSide")
			dayIt, want := day, f.sides
			if len(variants) > 0 {
				if k := t.Int(0, len(variants)); k > 0 {
					dayIt, want = variants[k-1].day, variants[k-1].sides
					t.Class("Camarilla against another history")
				}
			}
			sd := getSides(s, obj, dayIt)
			if d := sameSideData(sd, want); d != "" {
				t.Failf("%s(%v) after %v: sides differ from a fresh object's: %s", s.Key, p, ops, d)
			}
			sideSnaps = append(sideSnaps, [2][]utils.Side{sd.Data, append([]utils.Side(nil), sd.Data...)})
		case 4:
			a, ok := obj.(*trend.Atr)
			if !ok {
				return
			}
			xq, want := xp, f.exit
			if t.Chance(40) { // another period for once
				xq = per(t)
				want[0], want[1] = make1(s, h.Item(), p, ohlc).(*trend.Atr).ChandelierExit(xq)
			}
			ops = append(ops, fmt.Sprintf("ChandelierExit(%d)", xq))
			x, y := a.ChandelierExit(xq)
			listSnaps = append(listSnaps, listSnap{x, append([]float64(nil), x...), "of long exits"}, listSnap{y, append([]float64(nil), y...), "of short exits"})
			_, _ = append(x, -987654.25), append(y, -987654.25)
			d := sameList(x, want[0], exactTol) + sameList(y, want[1], exactTol)
			if d != "" {
				t.Failf("Atr(%v) after %v: chandelier exit differs: %s", p, ops, d)
			}
		}
	})
	t.Notef("calls %v", ops)
	t.NonTrivial(len(ops) >= 3 && h.N() > 0)
	switch t.Pick(50, 30, 20) {
	case 1: // other parameters
		q := s.Gen(t)
		setPars(obj, make1(s, it, q, ohlc))
		obj = calc(obj)
		getObs(obj)
		if s.Side {
			getSides(s, obj, day)
		}
		getLists(s, obj)
		ops = append(ops, fmt.Sprintf("set to %v", q), "Calculation")
		t.Class("other parameters after it")
	case 2: // the item moves on
		if n := h.N(); n > 0 && (!ohlc || s.OHLC == nil) {
			c := h.C[n/2]
			c.TimeUnix = h.C[n-1].TimeUnix + int64(h.Interval.Duration().Seconds())
			it.Candles = append(it.Candles[t.Int(0, 1):], &c)
			getObs(calc(make1(s, it, p, ohlc)))
			ops = append(ops, "another over the item with one more candle")
			t.Class("the item moves on after it")
		}
	}
	if c, ok := obj.(interface{ Clear() }); ok && t.Chance(30) {
		c.Clear()
		ops = append(ops, "Clear")
	}
	for _, sn := range snaps {
		o := observeData(sn.raw)
		if d := sameObs(o, sn.obs, sn.obs.N, 0); d != "" || o.N != sn.obs.N {
			t.Failf("%s(%v): data handed out after %s were altered by the calls up to %v: %s", s.Key, p, sn.op, ops, d)
		}
	}
	for _, ls := range listSnaps {
		if d := sameList(ls.raw, ls.copy, 0); d != "" {
			t.Failf("%s(%v): the list %s handed out was altered by the calls %v: %s", s.Key, p, ls.op, ops, d)
		}
	}
	for _, ss := range sideSnaps {
		if d := sameSides(ss[0], ss[1], len(ss[1])); d != "" {
			t.Failf("%s(%v): sides handed out were altered by the calls %v: %s", s.Key, p, ops, d)
		}
	}
}

// ---- C04

func itemCopy(it *klines.Item) *klines.Item {
	r := *it
	r.Candles = make([]*klines.Candle, len(it.Candles))
	for i, c := range it.Candles {
		cc := *c
		r.Candles[i] = &cc
	}
	return &r
}

func sameItem(a, b *klines.Item) string {
	if a.Exchange != b.Exchange || a.Interval != b.Interval || a.Symbol != b.Symbol || a.Code != b.Code {
		return "head differs"
	}
	if len(a.Candles) != len(b.Candles) {
		return fmt.Sprintf("%d and %d candles", len(a.Candles), len(b.Candles))
	}
	for i := range a.Candles {
		if *a.Candles[i] != *b.Candles[i] {
			return fmt.Sprintf("candle %d: %+v and %+v", i, *a.Candles[i], *b.Candles[i])
		}
	}
	return ""
}

func ohlcCopy(o *klines.OHLC) *klines.OHLC {
	f := func(x []float64) []float64 { return append([]float64(nil), x...) }
	return &klines.OHLC{Open: f(o.Open), High: f(o.High), Low: f(o.Low), Close: f(o.Close), Volume: f(o.Volume),
		BullMarket: append([]bool(nil), o.BullMarket...), TimeUnix: append([]int64(nil), o.TimeUnix...)}
}

func sameOHLC(a, b *klines.OHLC) string {
	if !reflect.DeepEqual(a.TimeUnix, b.TimeUnix) && len(a.TimeUnix)+len(b.TimeUnix) > 0 {
		return "times"
	}
	if !reflect.DeepEqual(a.BullMarket, b.BullMarket) && len(a.BullMarket)+len(b.BullMarket) > 0 {
		return "bull flags"
	}
	for k, x := range [][2][]float64{{a.Open, b.Open}, {a.High, b.High}, {a.Low, b.Low}, {a.Close, b.Close}, {a.Volume, b.Volume}} {
		if d := sameList(x[0], x[1], 0); d != "" {
			return []string{"open", "high", "low", "close", "volume"}[k] + " " + d
		}
	}
	return ""
}

// newShared builds an indicator over a shared item, or over a shared OHLC.
func newShared(s *Spec, it *klines.Item, o *klines.OHLC, hl2 []float64, p P, ohlc bool) any {
	if !ohlc || s.OHLC == nil {
		return s.New(it, p)
	}
	switch s.Key {
	case "AverageDirectionalIndex":
		return trend.NewAverageDirectionalIndexOHLC(o, p.I[0], p.I[1])
	case "BreakoutProbability":
		return trend.NewBreakoutProbabilityOHLC(o, p.F, p.I[0])
	case "Dema":
		return trend.NewDemaOHLC(o, p.I[0])
	case "EMAVegas":
		return trend.NewEMAVegasOHLC(o, p.I[0], p.I[1], p.I[2], p.I[3], p.I[4])
	case "LinearRegressionCandles":
		return trend.NewLinearRegressionCandlesOHLC(o, p.I[0], p.I[1], p.B)
	case "PivotPointSuperTrend":
		return trend.NewPivotPointSuperTrendOHLC(o, p.I[0], p.I[1], p.F)
	case "SmartMoneyConcepts":
		return trend.NewSmartMoneyConceptsOHLC(o.Open, o.High, o.Low, o.Close, o.TimeUnix, p.I[0], p.I[1], p.I[2])
	case "SuperTrend":
		return trend.NewSuperTrendOHLC(o, hl2, p.I[0], p.I[1], p.B)
	case "TraderXO":
		return trend.NewTraderXOOHLC(o, p.I[0], p.I[1])
	case "UTBot":
		return trend.NewUTBotOHLC(o, p.I[0], p.I[1])
	}
	return s.New(it, p)
}

type useRes struct {
	obs   *Obs
	lists map[string][]float64
	sides utils.SideData
	extra string
}

func use(s *Spec, obj any, day *klines.Item) useRes {
	var r useRes
	r.obs = getObs(calc(obj))
	r.lists = getLists(s, obj)
	if s.Side {
		r.sides = getSides(s, obj, day)
	}
	if a, ok := obj.(*trend.Atr); ok {
		x, y := a.ChandelierExit(3)
		r.lists["exit long"], r.lists["exit short"] = x, y
	}
	r.extra = smcExtra(obj)
	return r
}

func sameUse(a, b useRes) string {
	if a.obs.N != b.obs.N {
		return fmt.Sprintf("%d and %d entries", a.obs.N, b.obs.N)
	}
	if d := sameObs(a.obs, b.obs, a.obs.N, exactTol); d != "" {
		return d
	}
	for k := range a.lists {
		if d := sameList(a.lists[k], b.lists[k], exactTol); d != "" {
			return k + ": " + d
		}
	}
	if d := sameSideData(a.sides, b.sides); d != "" {
		return d
	}
	if a.extra != b.extra {
		return a.extra + " and " + b.extra
	}
	return ""
}

// ownCandles runs indicators of one kind at the same time, over and over, each
// with candles of its own.
func ownCandles(t *T, s *Spec) {
	max := 300
	if s.Key == "StochasticHeat" {
		max = 50
	}
	k := 2 + t.Int(0, 4)
	rounds := 1 + t.Int(0, 4)
	items := make([]*klines.Item, k)
	ps := make([]P, k)
	days := make([]*klines.Item, k)
	alone := make([]useRes, k)
	one := t.Chance(50) // with the same parameters
	for i := range items {
		ps[i] = s.Gen(t)
		if one {
			ps[i] = ps[0]
		}
		h := genHist(t, HOpt{Max: max, Hints: []int{80}})
		items[i], days[i] = h.Item(), dayItem(h)
		it := h.Item()
		alone[i] = use(s, newShared(s, it, it.GetOHLC(), it.HL2(), ps[i], false), itemCopy(days[i]))
	}
	t.Class("mode candles of their own")
	t.Class("ind %s", s.Key)
	t.Notef("%d times %d of %s(%v) at the same time, each with its own candles", rounds, k, s.Key, ps)
	t.NonTrivial(len(items[0].Candles) > 0)
	var wg sync.WaitGroup
	errs := make([]any, k)
	start := make(chan bool)
	for i := range items {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Sprint(e)
				}
			}()
			<-start
			for n := 0; n < rounds && errs[i] == nil; n++ {
				it := items[i]
				if d := sameUse(alone[i], use(s, newShared(s, it, it.GetOHLC(), it.HL2(), ps[i], false), days[i])); d != "" {
					errs[i] = fmt.Errorf("alone and with others at work differ: %s", d)
					return
				}
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, e := range errs {
		if err, ok := e.(error); ok {
			t.Failf("%s(%v): %v", s.Key, ps[i], err)
		} else if e != nil {
			t.Failf("%s(%v) panics with others of its kind at work: %v", s.Key, ps[i], e)
		}
	}
}

func runC04(t *T) {
	type ind struct {
		s    *Spec
		p    P
		ohlc bool
	}
	var inds []ind
	first := t.Round(len(specs))
	mode := t.Pick(27, 27, 34, 12) // one after another, interleaved, concurrent; one kind, each with its own candles
	if mode == 3 {
		ownCandles(t, specs[first])
		return
	}
	max := 110
	add := func(s *Spec) {
		if s.Key == "StochasticHeat" {
			max = 60
		}
		inds = append(inds, ind{s, s.Gen(t), t.Chance(40)})
	}
	add(specs[first])
	t.List(1+t.Hidden(4), 6, func(int) {
		if t.Chance(35) {
			add(specs[first]) // the same kind again
			return
		}
		add(specs[t.Int(0, len(specs)-1)])
	})
	h := genHist(t, HOpt{Max: max, Hints: []int{20}})
	h.classify(t)
	for _, x := range inds {
		t.Class("ind %s", x.s.Key)
		t.Notef("%s(%v)", x.s.Key, x.p)
	}
	t.Class("mode %s", []string{"sequential", "interleaved", "concurrent"}[mode])
	t.Notef("%s on %v", []string{"sequential", "interleaved", "concurrent"}[mode], h)
	t.NonTrivial(len(inds) >= 2 && h.N() > 0)
	day := dayItem(h)
	dayBefore := itemCopy(day)
	alone := make([]useRes, len(inds))
	for i, x := range inds {
		it := h.Item()
		alone[i] = use(x.s, newShared(x.s, it, it.GetOHLC(), it.HL2(), x.p, x.ohlc), itemCopy(day))
	}
	it := h.Item()
	if t.Chance(30) { // others like them were at work before
		it = usedItem(t, h, func(it *klines.Item) {
			for _, x := range inds {
				use(x.s, newShared(x.s, it, it.GetOHLC(), it.HL2(), x.p, x.ohlc), itemCopy(day))
			}
		})
	}
	before := itemCopy(it)
	o := it.GetOHLC()
	hl2 := it.HL2()
	if t.Chance(50) { // the beginning of more
		roomy(t, it, o)
		roomy(t, day, nil)
		hl2 = room(t, hl2, -123456.5)
	}
	ptrs := append([]*klines.Candle(nil), it.Candles...)
	obefore := ohlcCopy(o)
	hl2before := append([]float64(nil), hl2...)
	got := make([]useRes, len(inds))
	switch mode {
	case 0:
		for i, x := range inds {
			got[i] = use(x.s, newShared(x.s, it, o, hl2, x.p, x.ohlc), day)
		}
	case 1:
		objs := make([]any, len(inds))
		for i, x := range inds {
			objs[i] = newShared(x.s, it, o, hl2, x.p, x.ohlc)
		}
		for i := range inds {
			objs[i] = calc(objs[i])
		}
		for i := len(inds) - 1; i >= 0; i-- {
			rawData(objs[i])
		}
		for i := range inds {
			got[i].obs = getObs(objs[i])
			got[i].extra = smcExtra(objs[i])
		}
		for i, x := range inds {
			got[i].lists = getLists(x.s, objs[i])
			if a, ok := objs[i].(*trend.Atr); ok {
				got[i].lists["exit long"], got[i].lists["exit short"] = a.ChandelierExit(3)
			}
		}
		for i, x := range inds {
			if x.s.Side {
				got[i].sides = getSides(x.s, objs[i], day)
			}
		}
	case 2:
		var wg sync.WaitGroup
		start := make(chan bool)
		errs := make([]any, len(inds))
		more := t.Int(0, 3) // as many more of each at the same time
		twins := make([]useRes, len(inds)*more)
		errs = append(errs, make([]any, len(twins))...)
		for i := range errs {
			i := i
			x := inds[i%len(inds)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { errs[i] = recover() }()
				<-start
				r := use(x.s, newShared(x.s, it, o, hl2, x.p, x.ohlc), day)
				if i < len(inds) {
					got[i] = r
				} else {
					twins[i-len(inds)] = r
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, e := range errs {
			if e != nil {
				t.Failf("%s running concurrently panics: %v", inds[i%len(inds)].s.Key, e)
			}
		}
		for i, r := range twins {
			x := inds[i%len(inds)]
			if d := sameUse(alone[i%len(inds)], r); d != "" {
				t.Failf("%s(%v) alone and with others like it at the same time differ: %s", x.s.Key, x.p, d)
			}
		}
	}
	for i, x := range inds {
		if d := sameUse(alone[i], got[i]); d != "" {
			t.Failf("%s(%v) alone and with the others (%d) differ: %s", x.s.Key, x.p, mode, d)
		}
	}
	if d := sameItem(it, before); d != "" {
		t.Failf("the candles were changed: %s", d)
	}
	for i := range ptrs {
		if it.Candles[i] != ptrs[i] {
			t.Failf("candle %d of the item was replaced", i)
		}
	}
	if d := sameItem(day, dayBefore); d != "" {
		t.Failf("the candles of the second history were changed: %s", d)
	}
	if d := sameOHLC(o, obefore); d != "" {
		t.Failf("the series were changed: %s", d)
	}
	if d := sameList(hl2, hl2before, 0); d != "" {
		t.Failf("the mid prices were changed: %s", d)
	}
}

// ---- C07

func runC07(t *T) {
	s, p, h := genInd(t, HOpt{Tame: true, Max: 330}, specs)
	pe := t.Int(0, 10)
	if pe > 6 {
		pe = 6 - pe // -1..-4
	}
	if t.Chance(25) { // between coins priced at millionths and indices priced at billions
		pe = t.Int(-24, 27)
	}
	ve := t.Int(0, 9)
	if ve > 6 {
		ve = 6 - ve
	}
	if t.Chance(15) {
		ve = t.Int(-20, 24)
	}
	dt := int64(0)
	switch t.Int(0, 3) {
	case 1:
		dt = 86400 * int64(t.Int(1, 900))
	case 2:
		dt = -86400 * int64(t.Int(1, 900))
	case 3:
		dt = int64(t.Int(1, 100000))
		if s.Key == "Camarilla" {
			dt = 86400
		}
	}
	if pe == 0 && ve == 0 && dt == 0 {
		return
	}
	t.NonTrivial(h.N() >= 3)
	t.Notef("prices x 2^%d, volumes x 2^%d, times + %d", pe, ve, dt)
	pf, vf := math.Pow(2, float64(pe)), math.Pow(2, float64(ve))
	g := h.scaled(pf, vf, dt)
	ohlc := t.Chance(20)
	a, b := make1(s, h.Item(), p, ohlc), make1(s, g.Item(), p, ohlc)
	if e, ok := a.(*trend.SmartMoneyConcepts); ok && t.Chance(20) && h.N() <= 1500 { // quadratic
		e.EQHEQL_Enable = true
		b.(*trend.SmartMoneyConcepts).EQHEQL_Enable = true
	}
	oa, ob := getObs(a), getObs(b)
	if oa.N != ob.N {
		t.Failf("%s(%v): %d and %d entries", s.Key, p, oa.N, ob.N)
	}
	for c, v := range oa.V {
		e := s.exp(colBase(c))
		f := math.Pow(pf, e[0]) * math.Pow(vf, e[1])
		for i := range v {
			v[i] *= f
		}
	}
	n := oa.N
	if s.Key == "Rsi" || s.Key == "StochRsi" {
		// average changes that have decayed towards the absolute bound (1e-14)
		// below which RSI takes them for zero: not compared from there on
		k := p.I[0]
		if s.Key == "StochRsi" {
			k = p.I[2]
		}
		n = min(rsiTiny(h.Close(), k), rsiTiny(g.Close(), k))
		t.ClassIf(n < oa.N, "cut before decayed changes")
	}
	for i := range oa.Times {
		oa.Times[i] += dt
	}
	if d := sameObs(oa, ob, n, 1e-9); d != "" {
		t.Failf("%s(%v) after prices x 2^%d, volumes x 2^%d, times + %d (expected and got): %s", s.Key, p, pe, ve, dt, d)
	}
	if s.Side {
		sa := getSides(s, a, dayItem(h))
		sb := getSides(s, b, dayItem(g))
		if n < len(sa.Data) && n < len(sb.Data) {
			sa.Data, sb.Data = sa.Data[:n], sb.Data[:n]
		}
		if d := sameSideData(sa, sb); d != "" {
			t.Failf("%s(%v) after prices x 2^%d, volumes x 2^%d, times + %d: %s", s.Key, p, pe, ve, dt, d)
		}
	}
	if x, ok := a.(*trend.SmartMoneyConcepts); ok {
		y := b.(*trend.SmartMoneyConcepts)
		cmpOB := func(name string, l, m trend.SmartMoneyConceptsDataOrderBlockList) {
			if len(l) != len(m) {
				t.Failf("%s order blocks: %d and %d", name, len(l), len(m))
			}
			for i := range l {
				if l[i].IsTop != m[i].IsTop || l[i].Time.Unix()+dt != m[i].Time.Unix() || !near(l[i].High*pf, m[i].High, 1e-12, m[i].High) ||
					!near(l[i].Low*pf, m[i].Low, 1e-12, m[i].Low) || !near(l[i].Open*pf, m[i].Open, 1e-12, m[i].Open) || !near(l[i].Close*pf, m[i].Close, 1e-12, m[i].Close) {
					t.Failf("%s order block %d: %+v and %+v", name, i, l[i], m[i])
				}
			}
		}
		cmpOB("bullish", x.OrderBlockBullish, y.OrderBlockBullish)
		cmpOB("bearish", x.OrderBlockBearish, y.OrderBlockBearish)
		for k, q := range [][2]trend.SmartMoneyConceptsDataStrongWeak{{x.StrongHigh, y.StrongHigh}, {x.WeakHigh, y.WeakHigh}, {x.StrongLow, y.StrongLow}, {x.WeakLow, y.WeakLow}} {
			ta, tb := q[0].Time, q[1].Time
			if ta.IsZero() != tb.IsZero() || !ta.IsZero() && ta.Unix()+dt != tb.Unix() || !near(q[0].Value*pf, q[1].Value, 1e-12, q[1].Value) {
				t.Failf("strong/weak extreme %d: %+v and %+v", k, q[0], q[1])
			}
		}
	}
}

// rsiTiny is the first position where the averaged changes of a close series
// are positive but next to nothing.
func rsiTiny(c []float64, p int) int {
	g := 0.0
	for i := 1; i < len(c); i++ {
		d := math.Abs(c[i] - c[i-1])
		if i <= p {
			g += d / float64(p)
		} else {
			g = (g*float64(p-1) + d) / float64(p)
		}
		if g > 0 && g < 1e-13 {
			return i
		}
	}
	return len(c)
}

// ---- C08

// fieldsOf are the exported plain fields of an indicator.
func fieldsOf(obj any) map[string]any {
	r := map[string]any{}
	v := reflect.ValueOf(obj).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		switch f.Type.Kind() {
		case reflect.Int, reflect.Float64, reflect.Bool, reflect.String, reflect.Uint32:
			r[f.Name] = v.Field(i).Interface()
		}
	}
	return r
}

// parFields are the fields the constructor's parameters go to, in order.
var parFields = map[string][]string{
	"AiCoinCCI": {"Period"}, "Atr": {"Period"}, "AverageDirectionalIndex": {"Period", "Len"},
	"BreakoutProbability": {"NumberOfLines"}, "Cci": {"Period", "SMAPeriod"}, "Dema": {"Period"},
	"EMAVegas": {"Period", "PeriodShort1", "PeriodShort2", "PeriodLong1", "PeriodLong2"}, "Ema": {"Period"}, "Kdj": {"Period"},
	"LinearRegressionCandles": {"SignalSmoothing", "LinearRegressionLength"}, "Ma": {"Period"},
	"Macd": {"PeriodShort", "PeriodSignal", "PeriodLong"}, "PivotPointSuperTrend": {"Period", "AtrPeriod"}, "Rma": {"Period"},
	"Rsi": {"Period"}, "Sma": {"Period"}, "SmartMoneyConcepts": {"SwingLenght", "EQHEQL_BarsConfirmation", "EQHEQL_Threshold"},
	"StochRsi": {"SmoothK", "SmoothD", "RsiLength", "StochLength"}, "StochasticHeat": {"Increment", "SmoothFast", "SmoothSlow", "PlotNum", "MATypes"},
	"SuperTrend": {"AtrPeriod", "AtrMultiplier"}, "TraderXO": {"FastPeriod", "SlowPeriod"}, "UTBot": {"Period", "AtrPeriod"}, "Vortex": {"Period"},
	"Boll": {"PeriodN", "PeriodK"}, "DonchianChannel": {"Period"}, "KeltnerChannel": {"Period"}, "UlcerIndex": {"Period"},
	"Camarilla": {"EMAPeriod"}, "ChaikinOscillator": {"FastPeriod", "SlowPeriod"},
	"IchimokuCloud":             {"ConversionPeriod", "LeadingSpanBPeriod", "LaggingLinePeriod"},
	"PercentagePriceOscillator": {"FastPeriod", "SlowPeriod", "SignalPeriod"}, "ProjectionOscillator": {"Period", "Smooth"},
	"StochasticOscillator": {"Period"}, "VolumeOscillator": {"ShortLength", "LongLength"}, "WilliamsR": {"Period"},
	"ChaikinMoneyFlow": {"Period"}, "EaseOfMovement": {"Period"}, "ForceIndex": {"Period"}, "MoneyFlowIndex": {"Period"},
	"VolumePriceTrend": {"Period"}, "Vwma": {"Period"},
}

func runC08(t *T) {
	s, p, h := genInd(t, HOpt{Max: 260}, specs)
	t.NonTrivial(h.N() > 0)
	day := dayItem(h)
	check := func(what string, a, b any) {
		if d := sameUse(use(s, a, day), use(s, b, day)); d != "" {
			t.Failf("%s: %s: %s", s.Key, what, d)
		}
	}
	// constructors from series
	if s.OHLC != nil {
		t.Class("series constructor")
		check(fmt.Sprintf("from candles and from series, %v", p), s.New(h.Item(), p), s.OHLC(h.Item(), p))
	}
	for _, ohlc := range []bool{false, true} {
		f := fieldsOf(make1(s, h.Item(), p, ohlc))
		for i, name := range parFields[s.Key] {
			if v, ok := f[name]; !ok {
				continue
			} else if fmt.Sprint(v) != fmt.Sprint(p.I[i]) {
				t.Failf("%s: parameter %d (%d) is not what %s is (%v)", s.Key, i, p.I[i], name, v)
			}
		}
		if v, ok := f["AtrFactor"]; ok && v != p.F {
			t.Failf("%s: factor %v is not %v", s.Key, v, p.F)
		}
		if v, ok := f["PercentageStep"]; ok && v != p.F {
			t.Failf("%s: step %v is not %v", s.Key, v, p.F)
		}
		if v, ok := f["ChangeAtr"]; ok && v != p.B {
			t.Failf("%s: ChangeAtr %v is not %v", s.Key, v, p.B)
		}
		if v, ok := f["SMASignal"]; ok && v != p.B {
			t.Failf("%s: SMASignal %v is not %v", s.Key, v, p.B)
		}
	}
	// defaults
	if s.Def != nil {
		d, g := s.Def(h.Item()), s.New(h.Item(), s.DefP)
		if fd, fg := fieldsOf(d), fieldsOf(g); !reflect.DeepEqual(fd, fg) {
			t.Failf("%s: default %v, with the default parameters %v", s.Key, fd, fg)
		}
		check("default and general constructor", d, g)
	}
	// clamping
	if s.Key == "BreakoutProbability" {
		out := []int{0, -1, -100, 6, 7, 1000}[t.Int(0, 5)]
		want := 1
		if out > 5 {
			want = 5
		}
		q, w := p, p
		q.I, w.I = []int{out}, []int{want}
		check(fmt.Sprintf("%d lines and %d", out, want), s.New(h.Item(), q), s.New(h.Item(), w))
		check(fmt.Sprintf("%d lines and %d, from series", out, want), s.OHLC(h.Item(), q), s.OHLC(h.Item(), w))
	}
}

// ---- C10

// nameFormats give the name from the parameters.
var nameFormats = map[string]func(p P) string{}

func init() {
	list := func(key, label string, idx ...int) {
		nameFormats[key] = func(p P) string {
			var xs []string
			for _, i := range idx {
				xs = append(xs, fmt.Sprint(p.I[i]))
			}
			return label + strings.Join(xs, "-")
		}
	}
	for key, fields := range parFields {
		var idx []int
		for i := range fields {
			idx = append(idx, i)
		}
		list(key, key, idx...)
	}
	for _, key := range []string{"AbsolutePriceOscillator", "AwesomeOscillator", "ReversalSignals", "AccumulationDistribution", "NegativeVolumeIndex", "Obv"} {
		list(key, key)
	}
	// labels of their own
	list("AiCoinCCI", "AiCoinCCI-", 0)
	list("Camarilla", "Camarilla-", 0)
	list("EMAVegas", "EMAVegas", 1, 2, 3, 4)
	list("UTBot", "UTBot", 0)
	nameFormats["Cci"] = func(p P) string { return fmt.Sprintf("CCI%d-SMA%d", p.I[0], p.I[1]) }
	nameFormats["BreakoutProbability"] = func(p P) string { return fmt.Sprintf("BreakoutProbability%.2f-%d", p.F, p.I[0]) }
	nameFormats["PivotPointSuperTrend"] = func(p P) string {
		return fmt.Sprintf("PivotPointSuperTrend%d-%d-%f", p.I[0], p.I[1], p.F)
	}
}

// setPars gives obj the exported parameters of other.
func setPars(obj, other any) {
	from, to := reflect.ValueOf(other).Elem(), reflect.ValueOf(obj).Elem()
	for i := 0; i < from.NumField(); i++ {
		if f := from.Type().Field(i); f.IsExported() {
			switch f.Type.Kind() {
			case reflect.Int, reflect.Float64, reflect.Bool, reflect.Uint, reflect.Uint8, reflect.Uint32, reflect.Uint64:
				to.Field(i).Set(from.Field(i))
			}
		}
	}
}

func runC10(t *T) {
	s, p, h := genInd(t, HOpt{Max: 120}, specs)
	q := s.Gen(t)
	ohlc := t.Chance(30)
	day := dayItem(h)
	obj := make1(s, h.Item(), p, ohlc)
	name := nameFormats[s.Key](p)
	if got := fieldsOf(obj)["Name"]; got != name {
		t.Failf("%s(%v) is named %q, not %q", s.Key, p, got, name)
	}
	if s.Side {
		if sd := getSides(s, make1(s, h.Item(), p, ohlc), day); sd.Name != name {
			t.Failf("%s(%v): sides named %q, not %q", s.Key, p, sd.Name, name)
		}
	}
	// parameters set through the fields
	t.NonTrivial(h.N() > 0 && fmt.Sprint(p) != fmt.Sprint(q))
	if t.Chance(50) {
		getObs(obj)
		if s.Side {
			getSides(s, obj, day)
		}
		t.Class("changed after a calculation")
	}
	if t.Chance(30) {
		getLists(s, obj)
		if a, ok := obj.(*trend.Atr); ok {
			a.ChandelierExit(per(t))
		}
	}
	setPars(obj, make1(s, h.Item(), q, ohlc))
	t.Notef("then set to %v", q)
	obj = calc(obj)
	got, want := read(t, s, obj, day), use(s, make1(s, h.Item(), q, ohlc), day)
	got.sides.Name = want.sides.Name
	if d := sameUse(got, want); d != "" {
		t.Failf("%s made with %v, fields then set to %v and calculated: %s", s.Key, p, q, d)
	}
}

// read asks for everything an indicator gives, in any order, without
// calculating again.
func read(t *T, s *Spec, obj any, day *klines.Item) useRes {
	r := useRes{lists: map[string][]float64{}}
	first := t.Int(0, 3)
	for i := 0; i < 4; i++ {
		switch (first + i) % 4 {
		case 0:
			r.obs = getObs(obj)
		case 1:
			for k, l := range getLists(s, obj) {
				r.lists[k] = l
			}
		case 2:
			if s.Side {
				r.sides = getSides(s, obj, day)
			}
		case 3:
			if a, ok := obj.(*trend.Atr); ok {
				r.lists["exit long"], r.lists["exit short"] = a.ChandelierExit(3)
			}
		}
	}
	r.extra = smcExtra(obj)
	return r
}

// ---- C11

// runC11: the history behind an indicator moves on, and it calculates again.
func runC11(t *T) {
	s, p, full := genInd(t, HOpt{Max: 130, MinLen: 1}, specs)
	n := full.N()
	if s.Series != nil && n > 0 && t.Chance(40) {
		runC11Series(t, s, p, full)
		return
	}
	k := t.Int(0, n) // candles so far
	if t.Chance(50) {
		k = n - min(t.Int(0, 6), n)
	}
	it := full.Head(k)
	obj := s.New(it, p)
	keeps := s.OHLC != nil // takes its series when it is made
	var before useRes
	if keeps {
		before = use(s, s.New(itemCopy(it), p), dayItem(full))
	}
	var ops []string
	if t.Chance(80) {
		ops = append(ops, "read")
		read(t, s, obj, dayItem(full))
	} else {
		t.Class("not read before")
	}
	day := dayItem(full)
	steps, grown := 0, false
	changes := 1 + t.Hidden(4)
	if t.Hidden(60) == 0 && n < 60 { // in use for long
		changes = 10 + t.Hidden(60)
	}
	t.List(changes, 80, func(int) {
		m := len(it.Candles)
		switch t.Pick(45, 15, 10, 10, 10, 5, 5) {
		case 0: // more candles
			j := min(k+1+t.Int(0, 3), n)
			for ; k < j; k++ {
				c := full.C[k]
				it.Candles = append(it.Candles, &c)
				grown = true
			}
			ops = append(ops, fmt.Sprintf("%d candles", len(it.Candles)))
		case 1: // the last candle moves
			if m > 0 {
				c := it.Candles[m-1]
				if t.Chance(50) { // another object
					cc := *c
					c = &cc
					it.Candles[m-1] = c
				}
				move(t, c)
				ops = append(ops, "last candle moved")
			}
		case 2: // an earlier one is corrected
			if m > 0 {
				move(t, it.Candles[t.Int(0, m-1)])
				ops = append(ops, "a candle corrected")
			}
		case 3: // the oldest leave
			j := min(1+t.Int(0, 3), m)
			if t.Chance(50) {
				it.Candles = it.Candles[j:]
			} else {
				it.Candles = append([]*klines.Candle(nil), it.Candles[j:]...)
			}
			ops = append(ops, "oldest dropped")
		case 4: // a sliding window: one leaves, one comes
			if m > 0 && k < n {
				c := full.C[k]
				k++
				it.Candles = append(it.Candles[1:], &c)
				ops = append(ops, "window slid")
				t.Class("window of the same length")
			}
		case 5: // all of it again
			it.Clear()
			k = t.Int(0, n)
			it.Candles = full.Head(k).Candles
			ops = append(ops, fmt.Sprintf("loaded anew with %d", k))
		case 6: // the latest are taken back
			j := min(1+t.Int(0, 3), m)
			it.Candles = it.Candles[:m-j]
			ops = append(ops, "latest taken back")
		}
		obj = calc(obj)
		got := read(t, s, obj, day)
		steps++
		want := use(s, s.New(itemCopy(it), p), day)
		d := sameUse(got, want)
		if d == "" {
			return
		}
		if keeps && sameUse(got, before) == "" {
			return
		}
		t.Failf("%s(%v) calculated again after %v: a new one over the same %d candles differs: %s", s.Key, p, ops, len(it.Candles), d)
	})
	t.Notef("%v", ops)
	t.ClassIf(grown, "history grew")
	t.NonTrivial(steps > 0 && !keeps)
}

// runC11Series: values of the series an indicator was made over are overwritten.
func runC11Series(t *T, s *Spec, p P, full *Hist) {
	it := itemCopy(full.Item())
	n := len(it.Candles)
	o, hl2 := it.GetOHLC(), it.HL2()
	obj := s.Series(o, hl2, p)
	day := dayItem(full)
	before := use(s, s.OHLC(itemCopy(it), p), day)
	if t.Chance(80) {
		read(t, s, obj, day)
	}
	t.Class("series overwritten")
	var other *Hist
	changes := 0
	t.List(1+t.Hidden(3), 20, func(int) {
		switch t.Pick(40, 30, 30) {
		case 0:
			move(t, it.Candles[n-1])
		case 1:
			move(t, it.Candles[t.Int(0, n-1)])
		case 2: // all of them, at the times they have
			if other == nil {
				other = genHist(t, HOpt{Max: n, MinLen: n})
			}
			for i := range it.Candles {
				if other.N() == 0 { // shrunk away
					break
				}
				c := other.C[(i+changes)%len(other.C)]
				c.TimeUnix = it.Candles[i].TimeUnix
				*it.Candles[i] = c
			}
		}
		changes++
		q := it.GetOHLC()
		copy(o.Open, q.Open)
		copy(o.High, q.High)
		copy(o.Low, q.Low)
		copy(o.Close, q.Close)
		copy(o.Volume, q.Volume)
		copy(o.BullMarket, q.BullMarket)
		copy(hl2, it.HL2())
		obj = calc(obj)
		got := read(t, s, obj, day)
		want := use(s, s.OHLC(itemCopy(it), p), day)
		d := sameUse(got, want)
		if d == "" || sameUse(got, before) == "" {
			return
		}
		t.Failf("%s(%v) over series calculated again after %d changes of their values: a new one over them differs: %s", s.Key, p, changes, d)
	})
	t.NonTrivial(changes > 0 && n > 2)
}

// move changes a candle as trades do.
func move(t *T, c *klines.Candle) {
	c.Close = c.Low + (c.High-c.Low)*float64(t.Int(0, 8))/8
	switch t.Int(0, 3) {
	case 1:
		c.High *= 1.0625
	case 2:
		c.Low *= 0.9375
	}
	c.Volume += float64(t.Int(0, 5))
	c.IsBullMarket = c.Close > c.Open
	if c.Open != 0 {
		c.ChangePercent = (c.Close - c.Open) / c.Open
	}
}

// ---- C09

func runC09(t *T) {
	var list []*Spec
	for _, s := range specs {
		if s.Side && s.Key != "Camarilla" {
			list = append(list, s)
		}
	}
	hs := []*Hist{genHist(t, HOpt{Max: 60, Hints: []int{10}}), genHist(t, HOpt{Max: 30, Hints: []int{5}})}
	items := []*klines.Item{hs[0].Item(), hs[1].Item()}
	var strategies []utils.IStrategy
	var want []utils.SideData
	var names []string
	first := t.Round(len(list) + 1)
	k := 0
	many := first%7 + t.Hidden(4)
	if t.Hidden(150) == 0 {
		many = 12 + t.Hidden(120)
	}
	t.List(many, 140, func(i int) {
		if len(strategies) > 0 && t.Chance(15) { // the same object again
			j := t.Int(0, len(strategies)-1)
			strategies = append(strategies, strategies[j])
			want = append(want, want[j])
			names = append(names, names[j])
			return
		}
		s := list[t.Int(0, len(list)-1)]
		if k == 0 && first < len(list) {
			s = list[first]
		}
		k++
		p := s.Gen(t)
		w := t.Pick(70, 30)
		if s.Key == "StochasticHeat" {
			w = 1
		}
		o := s.New(items[w], p)
		if t.Chance(30) {
			o = calc(o)
		}
		f := fieldsOf(s.New(hs[w].Item(), p))
		sd := s.New(hs[w].Item(), p).(utils.IStrategy).AnalysisSide()
		if sd.Name != f["Name"] {
			t.Failf("%s: sides named %q, the indicator %q", s.Key, sd.Name, f["Name"])
		}
		t.Class("ind %s", s.Key)
		strategies = append(strategies, o.(utils.IStrategy))
		want = append(want, sd)
		names = append(names, sd.Name)
	})
	t.ClassIf(len(strategies) > 12, "more than 12 strategies")
	t.Notef("strategies %v on %d and %d candles", names, hs[0].N(), hs[1].N())
	t.NonTrivial(len(strategies) >= 2 && hs[0].N() > 0)
	got := utils.RunStrategies(strategies...)
	if len(got) != len(strategies) {
		t.Failf("%d results for %d strategies", len(got), len(strategies))
	}
	for i := range got {
		if d := sameSideData(got[i], want[i]); d != "" {
			t.Failf("strategy %d of %v, together and alone: %s", i, names, d)
		}
	}
	// names of sides
	var sides utils.Sides
	many = t.Hidden(6)
	if t.Hidden(500) == 0 {
		many = 100 + t.Hidden(2000)
	}
	t.List(many, 3000, func(int) {
		sides = append(sides, Of(t, utils.Buy, utils.Sell, utils.Hold, utils.Side(1), utils.Side(3), utils.Side(5), utils.Side(t.Int(0, 12)), utils.Side(math.MaxUint32)))
	})
	ss := sides.Strings()
	if len(ss) != len(sides) {
		t.Failf("%d names for %d sides", len(ss), len(sides))
	}
	for i, x := range sides {
		w := "UNKNOWN"
		switch x {
		case utils.Buy:
			w = "BUY"
		case utils.Sell:
			w = "SELL"
		case utils.Hold:
			w = "HOLD"
		}
		if x.String() != w || ss[i] != w {
			t.Failf("side %d is named %q and in a list %q", uint32(x), x.String(), ss[i])
		}
	}
}
