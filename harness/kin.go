package main

// Earlier uses: before an indicator is judged on a history, it (or another of
// its kind) may have been used on candles that merely resemble them, or on the
// same item when it held other candles. Nothing of that may be remembered.

import (
	"math"

	"github.com/idoall/stockindicator/utils/klines"
)

// kin is a history of the same length that shares much with h.
func kin(t *T, h *Hist) *Hist {
	k := *h
	k.C = append([]klines.Candle(nil), h.C...)
	n := len(k.C)
	if n == 0 {
		return &k
	}
	set := func(i int, o, hi, lo, c float64) {
		k.C[i].Open, k.C[i].High, k.C[i].Low, k.C[i].Close = o, hi, lo, c
	}
	switch t.Int(0, 7) {
	case 0: // one candle replaced by the prices of another
		i, j := t.Int(0, n-1), t.Int(0, n-1)
		c := h.C[j]
		set(i, c.Open, c.High, c.Low, c.Close)
	case 1: // the candles between the first and the last reversed
		for i := 1; i < n-1; i++ {
			c := h.C[n-1-i]
			set(i, c.Open, c.High, c.Low, c.Close)
		}
	case 2: // twice the prices
		for i, c := range h.C {
			set(i, 2*c.Open, 2*c.High, 2*c.Low, 2*c.Close)
		}
	case 3: // at another time
		for i := range k.C {
			k.C[i].TimeUnix += 86400
		}
	case 4: // other volumes
		for i := range k.C {
			k.C[i].Volume = h.C[n-1-i].Volume*2 + float64(i%3)
		}
	case 5: // other extremes, closes as they are
		for i, c := range h.C {
			set(i, c.Open, math.Max(c.Open, c.Close)*1.25, math.Min(c.Open, c.Close)*0.75, c.Close)
		}
	case 6: // the last close
		c := h.C[n-1]
		set(n-1, c.Open, math.Max(c.High, c.Close*1.5), c.Low, c.Close*1.5)
	case 7: // two neighbours exchanged
		if n > 1 {
			i := t.Int(1, n-1)
			a, b := h.C[i-1], h.C[i]
			set(i, a.Open, a.High, a.Low, a.Close)
			set(i-1, b.Open, b.High, b.Low, b.Close)
		}
	}
	return &k
}

// usedItem is an item with the candles of h; what is checked was used before
// on resembling candles or on the item itself with other content.
func usedItem(t *T, h *Hist, use1 func(it *klines.Item)) *klines.Item {
	n := h.N()
	switch t.Int(0, 4) {
	case 0: // another item
		t.Class("used before on other candles")
		use1(kin(t, h).Item())
		return h.Item()
	case 1: // this item, when its candles had other values
		t.Class("used before: the candles changed in place")
		it := kin(t, h).Item()
		use1(it)
		for i := range it.Candles {
			*it.Candles[i] = h.C[i]
		}
		return it
	case 2: // this item, before its last candles came
		t.Class("used before: the item grew")
		k := n
		if n > 0 {
			k = n - t.Int(1, min(n, 3))
		}
		it := h.Head(k)
		use1(it)
		it.Candles = append(it.Candles, h.Item().Candles[k:]...)
		return it
	case 3: // this item, before its first candles were dropped
		t.Class("used before: the window moved")
		it := h.Item()
		if n > 0 {
			c := h.C[n-1]
			c.TimeUnix = h.C[0].TimeUnix - int64(h.Interval.Duration().Seconds())
			it.Candles = append([]*klines.Candle{&c}, it.Candles...)
			use1(it)
			it.Candles = it.Candles[1:]
		}
		return it
	default: // this item with the same length: a candle at the end for one at the start
		t.Class("used before: the window moved by one")
		it := h.Item()
		if n > 0 {
			c := h.C[n-1]
			c.TimeUnix = h.C[0].TimeUnix - int64(h.Interval.Duration().Seconds())
			last := it.Candles[n-1]
			it.Candles = append([]*klines.Candle{&c}, it.Candles[:n-1]...)
			use1(it)
			it.Candles = append(it.Candles[1:], last)
		}
		return it
	}
}

// newItem is an item with the candles of h, in some cases one used before.
func newItem(t *T, s *Spec, p P, h *Hist, ohlc bool) *klines.Item {
	if h.N() < 400 && t.Chance(10) {
		return usedItem(t, h, func(it *klines.Item) {
			o := make1(s, it, p, ohlc)
			getObs(o)
			if s.Side {
				getSides(s, o, it)
			}
		})
	}
	return h.Item()
}
