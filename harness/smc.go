package main

// T05: Smart Money Concepts against a bar-by-bar reference, and the order
// block list against an ordered set.

import (
	"fmt"
	"time"

	"github.com/idoall/stockindicator/trend"
)

// swing: a high (low) that all of the following L candles stay below (above)
// is confirmed L candles later; highs and lows alternate.
type swing struct {
	at    int // the candle
	price float64
	top   bool
}

func mSwings(h *Hist, from, L int) map[int]swing {
	r := map[int]swing{}
	lastTop := true // the first swing is a low
	for i := from; i < h.N(); i++ {
		p := i - L
		isTop, isLow := true, true
		for j := p + 1; j <= i; j++ {
			isTop = isTop && h.C[j].High < h.C[p].High
			isLow = isLow && h.C[j].Low > h.C[p].Low
		}
		switch {
		case isTop && !lastTop:
			r[i] = swing{p, h.C[p].High, true}
			lastTop = true
		case !isTop && isLow && lastTop:
			r[i] = swing{p, h.C[p].Low, false}
			lastTop = false
		}
	}
	return r
}

type smcBlock struct {
	top bool
	at  int
}

type smcRef struct {
	cols         map[string][]float64
	blocks       [2][]smcBlock // after short breaks; after long breaks
	blocksKnown  bool
	strongHigh   *swing
	weakHigh     *swing
	strongLow    *swing
	weakLow      *swing
	eqUpto       int // -1: all rows of EQH/EQL are decided
	breaks, turn int
}

func mSMC(h *Hist, L, eqN int, eqThr int, eq bool, number int) smcRef {
	n := h.N()
	r := smcRef{cols: map[string][]float64{}, blocksKnown: true, eqUpto: -1}
	for _, c := range []string{"HighBOSShort", "HighCHoCHShort", "HighBOSLong", "HighCHoCHLong", "LowBOSShort", "LowChoCHShort", "LowBOSLong", "LowChoCHLong", "EQH", "EQL"} {
		r.cols[c] = make([]float64, n)
	}
	draw := func(col string, s swing, to int) {
		for i := s.at; i <= to; i++ {
			r.cols[col][i] = s.price
		}
	}
	s := seriesOf(h)
	atr := mAtr(s.h, s.l, s.c, 200)
	// the block of a break: the first of the lowest lows (highest highs) of the
	// calm candles from the swing to the break
	addBlock := func(list int, sw swing, i int, max bool) {
		at := -1
		for j := i; j >= sw.at; j-- {
			k, ok := cmp(sub(s.h[j], s.l[j]), scale(atr[j], 2))
			if !ok {
				r.blocksKnown = false
			}
			if k >= 0 {
				continue
			}
			if at < 0 || max && h.C[j].High >= h.C[at].High || !max && h.C[j].Low <= h.C[at].Low {
				at = j
			}
		}
		if at < 0 {
			at = 1
		}
		b := smcBlock{max, at}
		for _, x := range r.blocks[list] {
			if x == b {
				return
			}
		}
		r.blocks[list] = append([]smcBlock{b}, r.blocks[list]...)
	}
	long, short := mSwings(h, L, L), mSwings(h, L, 5)
	type level struct {
		sw   swing
		open bool
	}
	// [0] short, [1] long
	var tops, lows [2]level
	var dir [2]int
	var up, dn swing
	if n > 1 {
		up, dn = swing{0, h.C[1].High, true}, swing{0, h.C[1].Low, false}
	}
	var eqTop, eqLow swing
	for i := L; i < n; i++ {
		c0, c1 := h.C[i-1].Close, h.C[i].Close
		for k, m := range []map[int]swing{short, long} {
			if sw, ok := m[i]; ok {
				if sw.top {
					tops[k] = level{sw, true}
				} else {
					lows[k] = level{sw, true}
				}
			}
		}
		if sw, ok := long[i]; ok {
			if sw.top {
				up = sw
			} else {
				dn = sw
			}
		}
		if h.C[i].High >= up.price {
			up = swing{i, h.C[i].High, true}
		}
		if h.C[i].Low <= dn.price {
			dn = swing{i, h.C[i].Low, false}
		}
		for k := 0; k < 2; k++ {
			t := &tops[k]
			if t.open && c0 < t.sw.price && c1 > t.sw.price && !(k == 0 && t.sw.price == tops[1].sw.price) {
				col := [2][2]string{{"HighBOSShort", "HighCHoCHShort"}, {"HighBOSLong", "HighCHoCHLong"}}[k]
				if dir[k] < 0 {
					draw(col[1], t.sw, i)
					r.turn++
				} else {
					draw(col[0], t.sw, i)
				}
				r.breaks++
				t.open = false
				dir[k] = 1
				addBlock(k, t.sw, i, false)
			}
		}
		for k := 0; k < 2; k++ {
			t := &lows[k]
			if t.open && c0 > t.sw.price && c1 < t.sw.price && !(k == 0 && t.sw.price == lows[1].sw.price) {
				col := [2][2]string{{"LowBOSShort", "LowChoCHShort"}, {"LowBOSLong", "LowChoCHLong"}}[k]
				if dir[k] > 0 {
					draw(col[1], t.sw, i)
					r.turn++
				} else {
					draw(col[0], t.sw, i)
				}
				r.breaks++
				t.open = false
				dir[k] = -1
				addBlock(k, t.sw, i, true)
			}
		}
		// blocks the close has gone through are dropped, and the old ones
		for k := range r.blocks {
			var keep []smcBlock
			for j, b := range r.blocks[k] {
				x := h.C[b.at]
				if j > number || !b.top && c1 < x.Close || b.top && c1 > x.High {
					continue
				}
				keep = append(keep, b)
			}
			r.blocks[k] = keep
		}
		if eq && i >= 2*eqN {
			p := i - eqN
			isTop, isLow := true, true
			for j := p - eqN; j <= i; j++ {
				isTop = isTop && h.C[j].High <= h.C[p].High
				isLow = isLow && h.C[j].Low >= h.C[p].Low
			}
			thr := div(scale(atr[i], float64(eqThr)), ex(10))
			mark := func(is bool, price float64, last *swing, col string) {
				if !is {
					return
				}
				a, b := price, last.price
				if a < b {
					a, b = b, a
				}
				var k int
				var ok bool
				if col == "EQH" {
					k, ok = cmp(ex(a), add(ex(b), thr))
					k = -k
				} else {
					k, ok = cmp(ex(b), sub(ex(a), thr))
				}
				if thr.V == 0 && thr.U == 0 {
					k, ok = 0, true
				}
				if !ok && r.eqUpto < 0 {
					r.eqUpto = last.at
				}
				if k > 0 {
					for j := last.at; j <= p; j++ {
						r.cols[col][j] = last.price
					}
				}
				*last = swing{p, price, col == "EQH"}
			}
			mark(isTop, h.C[p].High, &eqTop, "EQH")
			mark(isLow, h.C[p].Low, &eqLow, "EQL")
		}
		u, d := up, dn
		if dir[1] < 0 {
			r.strongHigh = &u
		} else {
			r.weakHigh = &u
		}
		if dir[1] > 0 {
			r.strongLow = &d
		} else {
			r.weakLow = &d
		}
	}
	return r
}

func runSMC(t *T) {
	L := Of(t, 5, 6, 10, 20, 50)
	if t.Chance(25) {
		L = t.Int(5, 70)
	}
	eqN, thr := t.Int(1, 4), t.Int(1, 5)
	if t.Chance(5) {
		eqN = t.Int(1, 30)
	}
	eq := t.Chance(15)
	o := HOpt{Max: 330, Hints: []int{L, 2 * L}, Active: t.Chance(80)}
	switch t.Hidden(10) {
	case 0, 1: // beyond the period of the average true range
		o.MinLen, o.Max = 205, 420
		o.Stairs = t.Hidden(2) == 0
		if o.Stairs {
			o.MinLen = 330
		}
	case 2, 3, 4, 5:
		o.MinLen = 6 * L
	}
	h := genHist(t, o)
	h.classify(t)
	t.Notef("swings of %d, confirmation %d, threshold %d, equal levels %v on %v", L, eqN, thr, eq, h)
	spec, par, ohlc := specOf("SmartMoneyConcepts"), P{I: []int{L, eqN, thr}}, t.Chance(25)
	it := newItem(t, spec, par, h, ohlc)
	obj := make1(spec, it, par, ohlc)
	e := obj.(*trend.SmartMoneyConcepts)
	e.EQHEQL_Enable = eq
	number := 5 // the default
	if t.Chance(25) {
		number = t.Int(0, 9)
		e.OrderBlockNumber = number
	}
	for k := t.Int(0, 1); k >= 0; k-- {
		e.Calculation()
	}
	ob := getObs(e)
	if ob.N != h.N() {
		t.Failf("%d entries for %d candles", ob.N, h.N())
	}
	if h.N() == 0 {
		return
	}
	r := mSMC(h, L, eqN, thr, eq, number)
	marked := false
	for _, c := range ob.Cols {
		want, ok := r.cols[c]
		if !ok {
			t.Failf("column %s has no reference", c)
		}
		for i, v := range ob.V[c] {
			if (c == "EQH" || c == "EQL") && r.eqUpto >= 0 && i >= r.eqUpto {
				break
			}
			if v != want[i] {
				t.Failf("%s of candle %d is %v, the reference gives %v", c, i, v, want[i])
			}
			if v != 0 {
				marked = true
				if c == "EQH" || c == "EQL" {
					t.Class("candles with %s", c)
				}
			}
		}
	}
	for c, w := range r.cols {
		if _, ok := ob.V[c]; !ok {
			for i := range w {
				if w[i] != 0 {
					t.Failf("no column %s", c)
				}
			}
		}
	}
	if r.blocksKnown {
		for k, list := range []trend.SmartMoneyConceptsDataOrderBlockList{e.OrderBlockBullish, e.OrderBlockBearish} {
			got := []string{}
			for _, b := range list {
				got = append(got, fmt.Sprintf("%v@%d o=%v h=%v l=%v c=%v", b.IsTop, b.Time.Unix(), b.Open, b.High, b.Low, b.Close))
			}
			want := []string{}
			for _, b := range r.blocks[k] {
				c := h.C[b.at]
				want = append(want, fmt.Sprintf("%v@%d o=%v h=%v l=%v c=%v", b.top, c.TimeUnix, c.Open, c.High, c.Low, c.Close))
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("order blocks (%s) at the end: %v, the reference gives %v", []string{"short", "long"}[k], got, want)
			}
			t.ClassIf(len(got) > 0, "order blocks left at the end")
			t.ClassIf(len(got) > 5, "six order blocks")
			for _, b := range r.blocks[k] {
				t.ClassIf(b.at != 1, "order block at a calm candle")
			}
		}
	} else {
		t.Class("order blocks undecided")
	}
	sw := func(name string, got trend.SmartMoneyConceptsDataStrongWeak, want *swing) {
		if want == nil {
			if got.Value != 0 || !got.Time.IsZero() {
				t.Failf("%s is %v, the reference gives none", name, got)
			}
			return
		}
		if got.Value != want.price || got.Time.Unix() != h.C[want.at].TimeUnix {
			t.Failf("%s is %v at %d, the reference gives %v at %d", name, got.Value, got.Time.Unix(), want.price, h.C[want.at].TimeUnix)
		}
	}
	sw("StrongHigh", e.StrongHigh, r.strongHigh)
	sw("WeakHigh", e.WeakHigh, r.weakHigh)
	sw("StrongLow", e.StrongLow, r.strongLow)
	sw("WeakLow", e.WeakLow, r.weakLow)
	t.ClassIf(r.turn > 0, "with changes of character")
	t.ClassIf(r.breaks > 5, "more than five breaks")
	t.NonTrivial(marked)
}

func runBlocks(t *T) {
	type key struct {
		top bool
		at  int64
	}
	zones := []*time.Location{time.UTC, time.FixedZone("a", 8*3600), time.FixedZone("b", -5*3600)}
	mk := func() trend.SmartMoneyConceptsDataOrderBlock {
		return trend.SmartMoneyConceptsDataOrderBlock{IsTop: t.Chance(50), Time: time.Unix(int64(t.Int(0, 4)), 0).In(zones[t.Int(0, 2)]), Close: float64(t.Int(0, 3)), Open: 2}
	}
	id := func(b trend.SmartMoneyConceptsDataOrderBlock) key { return key{b.IsTop, b.Time.Unix()} }
	var list trend.SmartMoneyConceptsDataOrderBlockList
	var model []key
	var olds []trend.SmartMoneyConceptsDataOrderBlockList
	var oldKeys [][]key
	adds, removes := 0, 0
	t.List(5+t.Hidden(30), 60, func(i int) {
		b := mk()
		k := id(b)
		pos := -1
		for j, x := range model {
			if x == k {
				pos = j
			}
		}
		if list.Contains(b) != (pos >= 0) {
			t.Failf("Contains(%v) is %v in %v", k, pos < 0, model)
		}
		switch t.Int(0, 1) {
		case 0:
			list = list.Add(b)
			if pos < 0 {
				model = append([]key{k}, model...)
			}
			adds++
		case 1:
			olds, oldKeys = append(olds, list), append(oldKeys, append([]key(nil), model...))
			list = list.Remove(b)
			if pos >= 0 {
				model = append(append([]key{}, model[:pos]...), model[pos+1:]...)
				removes++
			}
		}
		same := func(l trend.SmartMoneyConceptsDataOrderBlockList, m []key, what string) {
			if len(l) != len(m) {
				t.Failf("%s has %d blocks, the set has %d", what, len(l), len(m))
			}
			for j := range l {
				if id(l[j]) != m[j] {
					t.Failf("%s: block %d is %v, the set has %v", what, j, id(l[j]), m[j])
				}
			}
		}
		same(list, model, "the list")
		for q := range olds {
			same(olds[q], oldKeys[q], "an earlier list")
		}
	})
	t.Class("order block lists")
	t.NonTrivial(adds > 2 && removes > 0)
}

func init() {
	register(&Prop{ID: "T05", Quick: 12000, Thorough: 200000,
		Rule:   "at least one break of structure is marked (lists: blocks are added and removed)",
		Assume: []string{"swing length at least 5 (the length of the short swings)", "order blocks whose choice hangs on a range within rounding of twice the average true range are not compared"},
		Run: func(t *T) {
			if t.Round(10) == 9 {
				runBlocks(t)
				return
			}
			runSMC(t)
		}})
	modelProp("O02", 200000, 3000000, "IchimokuCloud", "Camarilla")
	base := props["O02"].Run
	props["O02"].Run = func(t *T) {
		if t.Round(4) != 3 {
			base(t)
			return
		}
		s := specOf("Camarilla")
		p := s.Gen(t)
		h := genHist(t, HOpt{Max: 150, Hints: p.I, Active: true})
		h.classify(t)
		h2 := sideHist2(t, h)
		t.Notef("sides of Camarilla(%v) on %v against %v", p, h, h2)
		m := models["Camarilla"](h, seriesOf(h), p)
		d := models["Camarilla"](h2, seriesOf(h2), p)
		sd := getSides(s, s.New(newItem(t, s, p, h, false), p), h2.Item())
		if len(sd.Data) != h.N() {
			t.Failf("%d sides for %d candles", len(sd.Data), h.N())
		}
		at := -1
		for i, c := range h.C {
			for k := range h2.C {
				if dayOf(c.TimeUnix) == dayOf(h2.C[k].TimeUnix) {
					at = k
					break
				}
			}
			want := "HOLD"
			if at >= 0 {
				lvl, ema := d.c["High4"][at], m.c["EMA"][i]
				a, ok1 := cmp(ex(c.Close), ema)
				b, ok2 := cmp(ex(c.Close), lvl)
				o, ok3 := cmp(ex(c.Open), lvl)
				if !ok1 || !ok2 || !ok3 {
					continue
				}
				if a < 0 && b > 0 && o < 0 {
					want = "BUY"
				} else if a > 0 && b < 0 && o > 0 {
					want = "SELL"
				}
			}
			if got := sd.Data[i].String(); got != want {
				t.Failf("Camarilla(%v): side of candle %d is %s, its day's level gives %s", p, i, got, want)
			}
			if want != "HOLD" {
				t.Class("%s", "Camarilla "+want)
				t.NonTrivial(true)
			}
		}
	}
}
