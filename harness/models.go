package main

// T01..T04, N01, O01, O02, V01: each indicator against a direct evaluation of
// its definition on numbers with error bounds.

import (
	"math"
	"sort"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
)

type cols map[string][]E

// model gives the expected columns; rows from `upto` on are not decided
// (a comparison the recurrence depends on was too close to call).
type model struct {
	c    cols
	upto int
}

func all(n int, c cols) model { return model{c, n} }

type series struct {
	o, h, l, c, v []E
	mid           []E // given in place of the middle of high and low
}

func seriesOf(h *Hist) series {
	return series{exs(h.Open()), exs(h.High()), exs(h.Low()), exs(h.Close()), exs(h.Volume()), nil}
}

// pct allows for the absolute error of other ways to compute a percentage.
func pct(a []E) []E {
	return each(a, func(e E) E {
		e.U += 1e-11
		return e
	})
}

func hl2E(s series) []E {
	if s.mid != nil {
		return s.mid
	}
	return zip(s.h, s.l, func(a, b E) E { return div(add(a, b), ex(2)) })
}

func hlc3E(s series) []E {
	r := make([]E, len(s.c))
	for i := range r {
		r[i] = div(add(add(s.h[i], s.l[i]), s.c[i]), ex(3))
	}
	return r
}

// winFresh is the sum of the last p values of each position (fewer at the
// start), with the error of adding up that window alone.
func winFresh(p int, xs []E) []E {
	r := make([]E, len(xs))
	for i := range xs {
		lo := i - p + 1
		if lo < 0 {
			lo = 0
		}
		w := xs[lo : i+1]
		s := ex(0)
		tot, u := 0.0, 0.0
		bad := false
		for _, x := range w {
			s = add(s, x)
			tot += math.Abs(x.V)
			u += x.U
			bad = bad || x.Bad
		}
		r[i] = fin(E{V: s.V, U: u + float64(len(w))*ulps*tot, X: sumsExact(w), Bad: bad})
		if tot == 0 {
			r[i].U = u
		}
	}
	return r
}

func mRsi(p int, c []E) []E {
	n := len(c)
	r := eZeros(n)
	if p < 2 || n <= p {
		return r
	}
	g, l := ex(0), ex(0)
	for i := 1; i < n; i++ {
		d := sub(c[i], c[i-1])
		up, dn := ex(0), ex(0)
		if d.V > 0 {
			up = d
		} else if d.V < 0 {
			dn = neg(d)
		}
		if i <= p {
			g, l = add(g, up), add(l, dn)
			if i < p {
				continue
			}
			g, l = div(g, ex(float64(p))), div(l, ex(float64(p)))
		} else {
			g = div(add(scale(g, float64(p-1)), up), ex(float64(p)))
			l = div(add(scale(l, float64(p-1)), dn), ex(float64(p)))
		}
		tot := add(g, l)
		switch {
		case tot.V+tot.U < 1e-14*(1-1e-9): // nothing moved
			r[i] = ex(0)
		case tot.V-tot.U <= 1e-14*(1+1e-9):
			r[i] = E{V: 50, U: 50 + 1e-9}
		case g.V == 0:
			r[i] = ex(0)
		case l.V == 0:
			r[i] = ex(100)
		default:
			r[i] = between(scale(div(g, tot), 100), 0, 100)
		}
	}
	return r
}

func mMA(kind, p int, xs []E) []E {
	switch kind {
	case maEMA:
		return mEma(p, xs)
	case maSMA:
		return mSma(p, xs)
	}
	return mWma(p, xs)
}

func mStoch(p int, s series) []E {
	hi, lo := mMax(p, s.h), mMin(p, s.l)
	r := make([]E, len(s.c))
	for i := range r {
		r[i] = stochE(s.c[i], lo[i], hi[i])
	}
	return r
}

// mCci with mean deviation from ma over the window.
func mCciAt(i, p int, x []E, ma E) E {
	dev := ex(0)
	for j := i - p + 1; j <= i; j++ {
		dev = add(dev, absE(sub(x[j], ma)))
	}
	dev = div(dev, ex(float64(p)))
	return div0(sub(x[i], ma), mul(E{V: 0.015, U: 1e-18}, dev), 0).orZero(dev)
}

// orZero: the value is 0 when the divisor is exactly 0.
func (a E) orZero(d E) E {
	if d.X && !d.Bad && d.V == 0 {
		return ex(0)
	}
	return a
}

func mSuperTrend(s series, p int, mult float64, rma bool) model {
	n := len(s.c)
	var atr []E
	if rma {
		atr = mAtr(s.h, s.l, s.c, p)
	} else {
		atr = mSma(p, mTR(s.h, s.l, s.c, false))
	}
	mid := hl2E(s)
	up, dn, ub, db := eZeros(n), eZeros(n), eZeros(n), eZeros(n)
	m := model{cols{"UpTrend": up, "DownTrend": dn, "UpTrendBegin": ub, "DownTrendBegin": db}, n}
	side := 1
	for i := 1; i < n; i++ {
		w := scale(atr[i], mult)
		u, d := sub(mid[i], w), add(mid[i], w)
		// the stop only ratchets while the close before is on its side
		k, ok := cmp(s.c[i-1], up[i-1])
		if !ok && !(u.V-u.U > up[i-1].V+up[i-1].U) {
			m.upto = i
			return m
		}
		if k > 0 {
			u = maxE(u, up[i-1])
		}
		k, ok = cmp(s.c[i-1], dn[i-1])
		if !ok && !(d.V+d.U < dn[i-1].V-dn[i-1].U) {
			m.upto = i
			return m
		}
		if k < 0 {
			d = minE(d, dn[i-1])
		}
		was := side
		if was == -1 {
			k, ok = cmp(s.c[i], dn[i-1])
			if k > 0 {
				side = 1
			}
		} else {
			k, ok = cmp(s.c[i], up[i-1])
			if k < 0 {
				side = -1
			}
		}
		if !ok {
			m.upto = i
			return m
		}
		up[i], dn[i] = u, d
		if was == -1 && side == 1 {
			ub[i] = u
		}
		if was == 1 && side == -1 {
			db[i] = d
		}
	}
	return m
}

func mPivotSuperTrend(s series, prd, atrP int, factor float64) model {
	n := len(s.c)
	atr := mAtr(s.h, s.l, s.c, atrP)
	U, D, UB, DB := eZeros(n), eZeros(n), eZeros(n), eZeros(n)
	m := model{cols{"UpTrend": U, "DownTrend": D, "UpTrendBegin": UB, "DownTrendBegin": DB}, n}
	center := ex(0)
	has := false
	pu, pd := ex(0), ex(0) // stops of the previous candle
	side := 0
	for i := 1; i < n; i++ {
		// a pivot is confirmed prd candles later
		if i >= 2*prd {
			isHi, isLo := true, true
			for j := i - 2*prd; j <= i; j++ {
				isHi = isHi && s.h[j].V <= s.h[i-prd].V
				isLo = isLo && s.l[j].V >= s.l[i-prd].V
			}
			var last E
			if isHi {
				last = s.h[i-prd]
			} else {
				last = s.l[i-prd]
			}
			if isHi || isLo {
				if has {
					center = div(add(scale(center, 2), last), ex(3))
				} else {
					center, has = last, true
				}
			}
		}
		w := scale(atr[i], factor)
		u, d := sub(center, w), add(center, w)
		k, ok := cmp(s.c[i-1], pu)
		if !ok && !(u.V-u.U > pu.V+pu.U) {
			m.upto = i
			return m
		}
		if k > 0 {
			u = maxE(u, pu)
		}
		k, ok = cmp(s.c[i-1], pd)
		if !ok && !(d.V+d.U < pd.V-pd.U) {
			m.upto = i
			return m
		}
		if k < 0 {
			d = minE(d, pd)
		}
		was := side
		k, ok = cmp(s.c[i], pd)
		k2, ok2 := cmp(s.c[i], pu)
		if !ok || k <= 0 && !ok2 {
			m.upto = i
			return m
		}
		if k > 0 {
			side = 1
		} else if k2 < 0 {
			side = -1
		}
		switch {
		case side == 1 && was == 1:
			U[i] = u
		case side == 1 && was == -1:
			UB[i] = u
		case side == -1 && was == -1:
			D[i] = d
		case side == -1 && was == 1:
			DB[i] = d
		}
		pu, pd = u, d
	}
	return m
}

func mUTBot(s series, mult float64, atrP int) model {
	n := len(s.c)
	atr := mAtr(s.h, s.l, s.c, atrP)
	cl, v := eZeros(n), eZeros(n)
	m := model{cols{"Close": cl, "Value": v}, n}
	for i := 1; i < n; i++ {
		w := scale(atr[i], mult)
		k1, ok1 := cmp(s.c[i], v[i-1])
		k0, ok0 := cmp(s.c[i-1], v[i-1])
		if !ok1 || !ok0 {
			m.upto = i
			return m
		}
		cl[i] = s.c[i]
		switch {
		case k1 > 0 && k0 > 0:
			v[i] = maxE(v[i-1], sub(s.c[i], w))
		case k1 < 0 && k0 < 0:
			v[i] = minE(v[i-1], add(s.c[i], w))
		case k1 > 0:
			v[i] = sub(s.c[i], w)
		default:
			v[i] = add(s.c[i], w)
		}
	}
	return m
}

func mADX(s series, period, length int) model {
	n := len(s.c)
	tr := mTR(s.h, s.l, s.c, false)
	plus, minus := eZeros(n), eZeros(n)
	for i := 1; i < n; i++ {
		u, d := sub(s.h[i], s.h[i-1]), sub(s.l[i-1], s.l[i])
		k, ok := cmp(u, d)
		switch {
		case ok && k > 0 && u.V > 0:
			plus[i] = u
		case ok && k < 0 && d.V > 0:
			minus[i] = d
		case !ok && u.V > 0 && d.V > 0: // equal up to rounding: either or none
			plus[i] = E{V: u.V / 2, U: u.V/2 + u.U}
			minus[i] = E{V: d.V / 2, U: d.V/2 + d.U}
		}
	}
	smooth := func(x []E) []E {
		r := eZeros(n)
		for i := 1; i < n; i++ {
			r[i] = add(sub(r[i-1], div(r[i-1], ex(float64(length)))), x[i])
			if length == 1 {
				r[i] = x[i]
			}
		}
		return r
	}
	st, sp, sm := smooth(tr), smooth(plus), smooth(minus)
	dip, dim, dx := eZeros(n), eZeros(n), eZeros(n)
	for i := period - 1; i < n; i++ {
		dip[i] = between(scale(div0(sp[i], st[i], 0), 100), 0, 100)
		dim[i] = between(scale(div0(sm[i], st[i], 0), 100), 0, 100)
		switch {
		case dip[i].X && dim[i].X && dip[i].V == 0 && dim[i].V == 0:
		case sp[i].X && sm[i].X && sp[i].V == 0 && sm[i].V == 0:
		case sp[i].X && sp[i].V == 0 || sm[i].X && sm[i].V == 0:
			dx[i] = E{V: 100, U: 1e-11}
		default:
			dx[i] = between(scale(div(absE(sub(sp[i], sm[i])), add(sp[i], sm[i])), 100), 0, 100)
			dx[i].U += 1e-11
		}
	}
	return all(n, cols{"DIPlus": pct(dip), "DIMins": pct(dim), "ADX": pct(mSma(length, dx))})
}

// mBreakout: levels, percentages and back test of the breakout probability.
func mBreakout(h *Hist, step float64, lines int) model {
	n := h.N()
	c := cols{"Win": eZeros(n), "Loss": eZeros(n)}
	name := func(f string, k int) string { return "List." + f + "[" + string(rune('0'+k)) + "]" }
	for k := 0; k < 10; k++ {
		for _, f := range []string{"Price", "Per", "Up"} {
			c[name(f, k)] = eZeros(n)
		}
	}
	type cell struct {
		hits int
		pct  E
	}
	// [line][previous candle green or red][up or down]
	var tab [5][2][2]cell
	for a := range tab {
		for b := range tab[a] {
			tab[a][b] = [2]cell{{0, ex(0)}, {0, ex(0)}}
		}
	}
	count := [2]int{}
	win, loss, unsure := 0, 0, 0
	for i := 1; i < n; i++ {
		p, q := h.C[i-1], h.C[i]
		st := q.Close * (step / 100)
		colour := -1
		if p.Close > p.Open {
			colour = 0
		} else if p.Close < p.Open {
			colour = 1
		}
		if colour >= 0 {
			count[colour]++
			for k := 0; k < 5; k++ {
				x := E{V: st * float64(k), U: st * float64(k) * 4 * ulps, X: k == 0}
				if st == 0 {
					x = ex(0)
				}
				hit := [2]int{}
				var ok [2]bool
				hit[0], ok[0] = cmp(ex(q.High), add(ex(p.High), x))
				hit[1], ok[1] = cmp(sub(ex(p.Low), x), ex(q.Low))
				// high > high + x is decided by rounding when x is tiny
				for d := 0; d < 2; d++ {
					if !ok[d] {
						return model{c, i}
					}
					if hit[d] > 0 {
						e := &tab[k][colour][d]
						e.hits++
						e.pct = scale(div(ex(float64(e.hits)), ex(float64(count[colour]))), 100)
					}
				}
			}
			for k := 0; k < lines; k++ {
				a, b := tab[k][colour][0].pct, tab[k][colour][1].pct
				if a.V > 0 && b.V > 0 {
					x := E{V: st * float64(k), U: st * float64(k) * 4 * ulps}
					c[name("Price", k)][i] = add(ex(q.High), x)
					c[name("Per", k)][i] = a
					c[name("Up", k)][i] = ex(1)
					c[name("Price", 5+k)][i] = sub(ex(q.Low), x)
					c[name("Per", 5+k)][i] = b
				}
			}
		}
		// back test: the likelier side of the first line must be reached
		b := 1
		if colour == 0 {
			b = 0
		}
		up := tab[0][b][0].hits >= tab[0][b][1].hits
		// percentages compare as of their last hit
		if k, ok := cmp(tab[0][b][0].pct, tab[0][b][1].pct); ok {
			up = k >= 0
		} else if tab[0][b][0].pct.V != tab[0][b][1].pct.V {
			return model{c, i}
		} else {
			up = true
		}
		byHigh, byLow := q.High >= p.High, q.Low <= p.Low
		good := byHigh
		if !up {
			good = byLow
			if p.High == p.Low && byHigh != byLow { // the level is both
				unsure++
			}
		}
		if good {
			win++
		} else {
			loss++
		}
		c["Win"][i] = E{V: float64(win), U: float64(unsure), X: unsure == 0}
		c["Loss"][i] = E{V: float64(loss), U: float64(unsure), X: unsure == 0}
	}
	return all(n, c)
}

// mReversal are the sides of the nine-count.
func mReversal(h *Hist) []utils.Side {
	n := h.N()
	r := make([]utils.Side, n)
	run, dir := 0, 0
	for i := range r {
		r[i] = utils.Hold
		if i < 4 {
			continue
		}
		d := 1
		if h.C[i].Close < h.C[i-4].Close {
			d = -1
		}
		if d != dir {
			run, dir = 0, d
		}
		run++
		if run != 9 {
			continue
		}
		lo := func(k int) float64 { return h.C[i-k].Low }
		hi := func(k int) float64 { return h.C[i-k].High }
		if d < 0 {
			if lo(0) <= math.Min(lo(3), lo(2)) || lo(1) < lo(3) && lo(1) <= lo(2) {
				r[i] = utils.Buy
			}
		} else if hi(0) >= math.Max(hi(3), hi(2)) || hi(1) >= math.Max(hi(3), hi(2)) {
			r[i] = utils.Sell
		}
	}
	return r
}

// mMovingLS: slope and intercept of the line through the last p points.
func mMovingLS(p int, x []float64, y []E) (m, b []E) {
	n := len(x)
	m, b = make([]E, n), make([]E, n)
	tx, ty, txy, txx := 0.0, 0.0, 0.0, 0.0
	for i := 0; i < n; i++ {
		tx += math.Abs(x[i])
		txx += x[i] * x[i]
		ty += math.Abs(y[i].V) + y[i].U
		txy += math.Abs(x[i]) * (math.Abs(y[i].V) + y[i].U)
		lo := i - p + 1
		if lo < 0 {
			lo = 0
		}
		k := float64(i - lo + 1)
		mx, my := 0.0, 0.0
		for j := lo; j <= i; j++ {
			mx += x[j]
			my += y[j].V
		}
		mx /= k
		my /= k
		sxx, sxy, sx, uy := 0.0, 0.0, 0.0, 0.0
		for j := lo; j <= i; j++ {
			sxx += (x[j] - mx) * (x[j] - mx)
			sxy += (x[j] - mx) * (y[j].V - my)
			sx += x[j]
			uy += y[j].U
		}
		eps := float64(i+10) * ulps
		// numerator k*Sxy - Sx*Sy and divisor k*Sxx - Sx*Sx with their errors
		un := 2*eps*(k*txy+tx*ty) + uy*(math.Abs(sx)+k*tx)
		num := E{V: k * sxy, U: un}
		den := E{V: k * sxx, U: 2 * eps * (k*txx + tx*tx)}
		if sumsExact(exs(sq(x[:i+1]))) {
			den.U = 0
		}
		if k < 2 || sxx == 0 {
			m[i], b[i] = E{Bad: true}, E{Bad: true}
			continue
		}
		m[i] = div(num, den)
		b[i] = div(sub(E{V: my * k, U: uy + 2*eps*ty}, mul(m[i], E{V: sx, U: 2 * eps * tx})), ex(k))
	}
	return
}

func sq(x []float64) []float64 {
	r := make([]float64, len(x))
	for i := range x {
		r[i] = x[i] * x[i]
	}
	return r
}

func mProjection(s series, p, smooth int) model {
	n := len(s.c)
	x := make([]float64, n)
	for i := range x {
		x[i] = float64(i)
	}
	mh, _ := mMovingLS(p, x, s.h)
	ml, _ := mMovingLS(p, x, s.l)
	po := eZeros(n)
	for i := p; i < n; i++ { // the first point has no slope
		hi, lo := E{}, E{}
		for j := i - p + 1; j <= i; j++ {
			a, b := add(s.h[j], scale(mh[j], x[j])), add(s.l[j], scale(ml[j], x[j]))
			if j == i-p+1 {
				hi, lo = a, b
			} else {
				hi, lo = maxE(hi, a), minE(lo, b)
			}
		}
		po[i] = div(scale(sub(s.c[i], lo), 100), sub(hi, lo))
	}
	return all(n, cols{"Po": po, "Spo": mEma(smooth, po)})
}

func moneyE(s series) []E { // money flow multiplier
	r := make([]E, len(s.c))
	for i := range r {
		num := sub(sub(s.c[i], s.l[i]), sub(s.h[i], s.c[i]))
		r[i] = between(div0(num, sub(s.h[i], s.l[i]), 0), -1, 1)
		if r[i].U > 0 {
			r[i].U += 4 * ulps
		}
	}
	return r
}

func cum(xs []E) []E {
	s := ex(0)
	r := make([]E, len(xs))
	for i := range xs {
		s = add(s, xs[i])
		r[i] = s
	}
	return r
}

func diff1(xs []E) []E {
	r := make([]E, len(xs))
	for i := range xs {
		r[i] = xs[i]
		if i > 0 {
			r[i] = sub(xs[i], xs[i-1])
		}
	}
	return r
}

// divZ is a/b with 0 where b is exactly 0.
func divZ(a, b []E) []E {
	return zip(a, b, func(x, y E) E { return div0(x, y, 0) })
}

var models = map[string]func(h *Hist, s series, p P) model{
	"Sma":  func(h *Hist, s series, p P) model { return all(h.N(), cols{"Value": mSma(p.I[0], s.c)}) },
	"Ma":   func(h *Hist, s series, p P) model { return all(h.N(), cols{"Value": mSma(p.I[0], s.c)}) },
	"Ema":  func(h *Hist, s series, p P) model { return all(h.N(), cols{"Value": mEma(p.I[0], s.c)}) },
	"Rma":  func(h *Hist, s series, p P) model { return all(h.N(), cols{"Value": mRma(p.I[0], s.c)}) },
	"Dema": func(h *Hist, s series, p P) model { return all(h.N(), cols{"Value": mDema(p.I[0], s.c)}) },
	"EMAVegas": func(h *Hist, s series, p P) model {
		return all(h.N(), cols{"Value": mEma(p.I[0], s.c), "Short1Value": mEma(p.I[1], s.c), "Short2Value": mEma(p.I[2], s.c),
			"Long1Value": mEma(p.I[3], s.c), "Long2Value": mEma(p.I[4], s.c)})
	},
	"TraderXO": func(h *Hist, s series, p P) model {
		return all(h.N(), cols{"Fast": mEma(p.I[0], s.c), "Slow": mEma(p.I[1], s.c)})
	},
	// ---- momentum
	"Macd": func(h *Hist, s series, p P) model {
		dif := zip(mEma(p.I[0], s.c), mEma(p.I[2], s.c), sub)
		dea := mEma(p.I[1], dif)
		return all(h.N(), cols{"DIF": dif, "DEA": dea, "Macd": zip(dif, dea, func(a, b E) E { return scale(sub(a, b), 2) })})
	},
	"Rsi": func(h *Hist, s series, p P) model { return all(h.N(), cols{"Value": pct(mRsi(p.I[0], s.c))}) },
	"StochRsi": func(h *Hist, s series, p P) model {
		r := mRsi(p.I[2], s.c)
		hi, lo := mMax(p.I[3], r), mMin(p.I[3], r)
		st := make([]E, len(r))
		for i := range r {
			st[i] = stochE(r[i], lo[i], hi[i])
			if rg := sub(hi[i], lo[i]); !rg.X && rg.V > 0 { // another form of RSI differs in absolute terms
				st[i].U += 100 * 4e-12 / rg.V
			}
		}
		k := mEma(p.I[0], st)
		return all(h.N(), cols{"K": pct(k), "D": pct(mEma(p.I[1], k))})
	},
	"Kdj": func(h *Hist, s series, p P) model {
		n := h.N()
		hi, lo := mMax(p.I[0], s.h), mMin(p.I[0], s.l)
		rsv, k, d, j := eZeros(n), eZeros(n), eZeros(n), eZeros(n)
		pk, pd := ex(50), ex(50)
		for i := 0; i < n; i++ {
			if i >= p.I[0]-1 {
				if hi[i].V == lo[i].V {
					rsv[i] = ex(100)
				} else {
					rsv[i] = stochE(s.c[i], lo[i], hi[i])
				}
				pk = div(add(scale(pk, 2), rsv[i]), ex(3))
				pd = div(add(scale(pd, 2), pk), ex(3))
			}
			k[i], d[i], j[i] = pk, pd, sub(scale(pk, 3), scale(pd, 2))
		}
		return all(n, cols{"RSV": pct(rsv), "K": pct(k), "D": pct(d), "J": pct(j)})
	},
	"Cci": func(h *Hist, s series, p P) model {
		x := hlc3E(s)
		ma := mSma(p.I[1], x)
		r := eZeros(h.N())
		for i := p.I[0] - 1; i < h.N(); i++ {
			r[i] = mCciAt(i, p.I[0], x, ma[i])
		}
		return all(h.N(), cols{"Value": r})
	},
	"AiCoinCCI": func(h *Hist, s series, p P) model {
		ma := mSma(p.I[0], s.c)
		r := eZeros(h.N())
		for i := p.I[0] - 1; i < h.N(); i++ {
			r[i] = mCciAt(i, p.I[0], s.c, ma[i])
		}
		return all(h.N(), cols{"Value": r})
	},
	"StochasticHeat": func(h *Hist, s series, p P) model {
		fast := eZeros(h.N())
		for k := 1; k <= 28; k++ {
			fast = zip(fast, mMA(p.I[4], p.I[1], mStoch(k*p.I[0], s)), add)
		}
		for i := range fast {
			fast[i] = div(fast[i], ex(100))
			fast[i].X = fast[i].X || fast[i].V == 0 && fast[i].U == 0
		}
		return all(h.N(), cols{"Fast": pct(fast), "Slow": pct(mMA(p.I[4], p.I[2], fast))})
	},
	// ---- volatility
	"Atr": func(h *Hist, s series, p P) model {
		tr := mTR(s.h, s.l, s.c, true)
		return all(h.N(), cols{"TR": tr, "Atr": mRma(p.I[0], tr)})
	},
	"SuperTrend": func(h *Hist, s series, p P) model { return mSuperTrend(s, p.I[0], float64(p.I[1]), p.B) },
	"PivotPointSuperTrend": func(h *Hist, s series, p P) model {
		return mPivotSuperTrend(s, p.I[0], p.I[1], p.F)
	},
	"UTBot": func(h *Hist, s series, p P) model { return mUTBot(s, float64(p.I[0]), p.I[1]) },
	// ---- direction
	"AverageDirectionalIndex": func(h *Hist, s series, p P) model { return mADX(s, p.I[0], p.I[1]) },
	"Vortex": func(h *Hist, s series, p P) model {
		n := h.N()
		tr := winFresh(p.I[0], mTR(s.h, s.l, s.c, false))
		a, b := eZeros(n), eZeros(n)
		for i := 1; i < n; i++ {
			a[i], b[i] = absE(sub(s.h[i], s.l[i-1])), absE(sub(s.l[i], s.h[i-1]))
		}
		return all(n, cols{"PlusVi": divZ(winFresh(p.I[0], a), tr), "MinusVi": divZ(winFresh(p.I[0], b), tr)})
	},
	"LinearRegressionCandles": func(h *Hist, s series, p P) model {
		o, _, _ := mLinReg(p.I[1], s.o)
		hi, _, _ := mLinReg(p.I[1], s.h)
		lo, _, _ := mLinReg(p.I[1], s.l)
		c, _, _ := mLinReg(p.I[1], s.c)
		sig := mEma(p.I[0], c)
		if p.B {
			sig = mSma(p.I[0], c)
		}
		return all(h.N(), cols{"Open": o, "High": hi, "Low": lo, "Close": c, "Signal": sig})
	},
	"BreakoutProbability": func(h *Hist, s series, p P) model { return mBreakout(h, p.F, p.I[0]) },
	"ReversalSignals":     func(h *Hist, s series, p P) model { return all(h.N(), cols{}) },
	// ---- channels
	"Boll": func(h *Hist, s series, p P) model {
		n, k := h.N(), p.I[0]
		mid := mSma(k, s.c)
		md, up, lo := eZeros(n), make([]E, n), make([]E, n)
		big := 0.0
		for i := 0; i < n; i++ {
			big += h.C[i].Close * h.C[i].Close
			if i >= k-1 {
				// two-pass; the error allows for the form sum(x^2)/n - mean^2
				v := 0.0
				for j := i - k + 1; j <= i; j++ {
					d := h.C[j].Close - mid[i].V
					v += d * d
				}
				exact := mid[i].X && mid[i].U == 0 && sumsExact(exs(sq(h.Close()[:i+1])))
				e := E{V: v / float64(k), U: float64(i+8)*ulps*big/float64(k)*4 + 2*math.Abs(mid[i].V)*mid[i].U}
				if exact && v == 0 {
					e = ex(0)
				}
				md[i] = sqrtE(e)
			}
			w := scale(md[i], float64(p.I[1]))
			up[i], lo[i] = add(mid[i], w), sub(mid[i], w)
		}
		return all(n, cols{"Middle": mid, "MD": md, "Upper": up, "Lower": lo})
	},
	"DonchianChannel": func(h *Hist, s series, p P) model {
		u, l := mMax(p.I[0], s.c), mMin(p.I[0], s.c)
		return all(h.N(), cols{"Upper": u, "Lower": l, "Middle": zip(u, l, func(a, b E) E { return div(add(a, b), ex(2)) })})
	},
	"KeltnerChannel": func(h *Hist, s series, p P) model {
		w := each(mRma(p.I[0], mTR(s.h, s.l, s.c, true)), func(e E) E { return scale(e, 2) })
		m := mEma(p.I[0], s.c)
		return all(h.N(), cols{"Middle": m, "Upper": zip(m, w, add), "Lower": zip(m, w, sub)})
	},
	"UlcerIndex": func(h *Hist, s series, p P) model {
		d := zip(s.c, mMax(p.I[0], s.c), func(c, m E) E { x := scale(div(sub(c, m), m), 100); return mul(x, x) })
		return all(h.N(), cols{"Value": pct(each(mEma(p.I[0], d), sqrtE))})
	},
	// ---- oscillators
	"AbsolutePriceOscillator": func(h *Hist, s series, p P) model {
		return all(h.N(), cols{"Value": zip(mEma(p.I[0], s.c), mEma(p.I[1], s.c), sub)})
	},
	"AwesomeOscillator": func(h *Hist, s series, p P) model {
		m := hl2E(s)
		return all(h.N(), cols{"Value": zip(mEma(5, m), mEma(34, m), sub)})
	},
	"ChaikinOscillator": func(h *Hist, s series, p P) model {
		ad := cum(zip(moneyE(s), s.v, mul))
		return all(h.N(), cols{"AD": ad, "Value": zip(mEma(p.I[0], ad), mEma(p.I[1], ad), sub)})
	},
	"PercentagePriceOscillator": func(h *Hist, s series, p P) model {
		f, sl := mEma(p.I[0], s.c), mEma(p.I[1], s.c)
		ppo := pct(zip(f, sl, func(a, b E) E { return scale(div(sub(a, b), b), 100) }))
		sig := mEma(p.I[2], ppo)
		return all(h.N(), cols{"PPO": ppo, "Signal": sig, "Histogram": zip(ppo, sig, sub)})
	},
	"VolumeOscillator": func(h *Hist, s series, p P) model {
		f, sl := mEma(p.I[0], s.v), mEma(p.I[1], s.v)
		return all(h.N(), cols{"Value": pct(zip(f, sl, func(a, b E) E { return scale(div0(sub(a, b), b, 0), 100) }))})
	},
	"StochasticOscillator": func(h *Hist, s series, p P) model {
		k := mStoch(p.I[0], s)
		return all(h.N(), cols{"K": pct(k), "D": pct(mSma(3, k))})
	},
	"WilliamsR": func(h *Hist, s series, p P) model {
		hi, lo := mMax(p.I[0], s.h), mMin(p.I[0], s.l)
		r := make([]E, h.N())
		for i := range r {
			r[i] = between(scale(div0(sub(hi[i], s.c[i]), sub(hi[i], lo[i]), 0), -100), -100, 0)
		}
		return all(h.N(), cols{"Value": pct(r)})
	},
	"ProjectionOscillator": func(h *Hist, s series, p P) model { return mProjection(s, p.I[0], p.I[1]) },
	"IchimokuCloud": func(h *Hist, s series, p P) model {
		mid := func(k int) []E {
			return zip(mMax(k, s.h), mMin(k, s.l), func(a, b E) E { return div(add(a, b), ex(2)) })
		}
		conv, base := mid(p.I[0]), mid(26)
		lag := eZeros(h.N())
		for i := p.I[2]; i < h.N(); i++ {
			lag[i] = s.c[i-p.I[2]]
		}
		return all(h.N(), cols{"ConversionLine": conv, "BaseLine": base, "LeadingSpanB": mid(p.I[1]), "LaggingLine": lag,
			"LeadingSpanA": zip(conv, base, func(a, b E) E { return div(add(a, b), ex(2)) })})
	},
	"Camarilla": func(h *Hist, s series, p P) model {
		c := cols{"EMA": mEma(p.I[0], s.c), "Pivot": hlc3E(s)}
		for k, d := range []float64{12, 6, 4, 2} {
			w := make([]E, h.N())
			for i := range w {
				w[i] = div(mul(sub(s.h[i], s.l[i]), E{V: 1.1, U: 2e-16}), ex(d))
			}
			n := string(rune('1' + k))
			c["High"+n], c["Low"+n] = zip(s.c, w, add), zip(s.c, w, sub)
		}
		h5 := make([]E, h.N())
		for i := range h5 {
			h5[i] = mul(div(s.h[i], s.l[i]), s.c[i])
		}
		h6 := zip(h5, c["High4"], func(a, b E) E { return add(a, mul(E{V: 1.168, U: 2e-16}, sub(a, b))) })
		mirror := func(c, x E) E { return sub(c, sub(x, c)) }
		c["High5"], c["High6"], c["Low5"], c["Low6"] = h5, h6, zip(s.c, h5, mirror), zip(s.c, h6, mirror)
		return all(h.N(), c)
	},
	// ---- volume
	"AccumulationDistribution": func(h *Hist, s series, p P) model {
		return all(h.N(), cols{"Value": cum(zip(moneyE(s), s.v, mul))})
	},
	"ChaikinMoneyFlow": func(h *Hist, s series, p P) model {
		r := divZ(winFresh(p.I[0], zip(moneyE(s), s.v, mul)), winFresh(p.I[0], s.v))
		return all(h.N(), cols{"Value": pct(r)})
	},
	"EaseOfMovement": func(h *Hist, s series, p P) model {
		d := diff1(hl2E(s))
		r := make([]E, h.N())
		for i := range r {
			box := div0(div(s.v[i], ex(1e8)), sub(s.h[i], s.l[i]), 0)
			r[i] = div0(d[i], box, 0)
			if s.v[i].V == 0 || h.C[i].High == h.C[i].Low {
				r[i] = ex(0)
			}
		}
		return all(h.N(), cols{"Value": mSma(p.I[0], r)})
	},
	"ForceIndex": func(h *Hist, s series, p P) model {
		return all(h.N(), cols{"Value": mEma(p.I[0], zip(diff1(s.c), s.v, mul))})
	},
	"MoneyFlowIndex": func(h *Hist, s series, p P) model {
		raw := zip(hlc3E(s), s.v, mul)
		pos, ngt := eZeros(h.N()), eZeros(h.N())
		for i := range raw {
			k, ok := 1, true
			if i > 0 {
				k, ok = cmp(raw[i], raw[i-1])
				// the same candle again gives the same flow, however it is computed
				a, b := h.C[i], h.C[i-1]
				if a.High == b.High && a.Low == b.Low && a.Close == b.Close && a.Volume == b.Volume {
					k, ok = 0, true
				}
			}
			switch {
			case !ok:
				half := E{V: raw[i].V / 2, U: raw[i].V/2 + raw[i].U}
				pos[i], ngt[i] = half, half
			case k >= 0:
				pos[i] = raw[i]
			default:
				ngt[i] = raw[i]
			}
		}
		a, b := winFresh(p.I[0], pos), winFresh(p.I[0], ngt)
		r := zip(a, b, func(x, y E) E {
			if y.V == 0 && y.U == 0 && x.V > 0 && x.V > x.U {
				return ex(100)
			}
			return between(scale(div0(x, add(x, y), 0), 100), 0, 100)
		})
		return all(h.N(), cols{"Value": pct(r)})
	},
	"NegativeVolumeIndex": func(h *Hist, s series, p P) model {
		r := make([]E, h.N())
		for i := range r {
			switch {
			case i == 0:
				r[i] = ex(1000)
			case s.v[i].V > s.v[i-1].V:
				r[i] = r[i-1]
			default:
				r[i] = add(r[i-1], mul(div(sub(s.c[i], s.c[i-1]), s.c[i-1]), r[i-1]))
			}
		}
		return all(h.N(), cols{"Value": r})
	},
	"Obv": func(h *Hist, s series, p P) model {
		r := eZeros(h.N())
		for i := 1; i < len(r); i++ {
			switch {
			case s.c[i].V > s.c[i-1].V:
				r[i] = add(r[i-1], s.v[i])
			case s.c[i].V < s.c[i-1].V:
				r[i] = sub(r[i-1], s.v[i])
			default:
				r[i] = r[i-1]
			}
		}
		return all(h.N(), cols{"Value": r})
	},
	"VolumePriceTrend": func(h *Hist, s series, p P) model {
		r := make([]E, h.N())
		for i := range r {
			prev := s.c[0]
			if i >= p.I[0] {
				prev = s.c[i-p.I[0]]
			}
			r[i] = mul(s.v[i], div(sub(s.c[i], prev), prev))
		}
		return all(h.N(), cols{"Value": cum(r)})
	},
	"Vwma": func(h *Hist, s series, p P) model {
		return all(h.N(), cols{"Value": divZ(winFresh(p.I[0], zip(s.c, s.v, mul)), winFresh(p.I[0], s.v))})
	},
}

func mDema(p int, x []E) []E {
	a := mEma(p, x)
	return zip(a, mEma(p, a), func(x, y E) E { return sub(scale(x, 2), y) })
}

func modelProp(id string, quick, thorough int, keys ...string) {
	list := []*Spec{}
	for _, k := range keys {
		if models[k] == nil {
			panic("no model for " + k)
		}
		list = append(list, specOf(k))
	}
	register(&Prop{ID: id, Quick: quick, Thorough: thorough,
		Rule:   "the history is longer than the shortest period and at least one decided value is not zero",
		Assume: []string{"values are compared within the accumulated rounding error of the definition; where the definition divides by something that is zero only up to rounding, or a recurrence branches on a comparison within rounding, the value (for recurrences: the rest of the case) is only required to be finite"},
		Run: func(t *T) {
			s, p, h := genInd(t, HOpt{Max: 260, Active: t.Chance(60)}, list)
			ohlc := t.Chance(25)
			item := newItem(t, s, p, h, ohlc)
			if (s.Key == "VolumeOscillator" || s.Key == "AccumulationDistribution") && !ohlc && t.Chance(8) {
				// a volume that is no number counts for none
				for k := t.Int(1, 5); k > 0 && h.N() > 0; k-- {
					i := t.Int(0, h.N()-1)
					h.C[i].Volume = 0
					item.Candles[i].Volume = math.NaN()
				}
				t.Class("volumes that are no number")
			}
			obj := make1(s, item, p, ohlc)
			o := getObs(obj)
			if o.N != h.N() {
				t.Failf("%s: %d entries for %d candles", s.Key, o.N, h.N())
			}
			ser := seriesOf(h)
			if s.Key == "SuperTrend" && ohlc && h.N() > 0 && t.Chance(40) { // any series may stand for the middle
				var mid []float64
				switch t.Int(0, 3) {
				case 0:
					mid = h.Close()
				case 1:
					mid = h.Open()
				case 2:
					mid = h.col(func(c *klines.Candle) float64 { return c.Close + (c.High - c.Low) })
				case 3:
					mid = make([]float64, h.N())
					for i := range mid {
						mid[i] = h.C[i].High
						if t.Chance(50) {
							mid[i] = h.C[i].Low
						}
					}
				}
				ser.mid = exs(mid)
				obj = trend.NewSuperTrendOHLC(item.GetOHLC(), mid, p.I[0], p.I[1], p.B)
				o = getObs(obj)
				t.Class("another series for the middle of high and low")
			}
			m := models[s.Key](h, ser, p)
			t.ClassIf(m.upto < h.N(), "cut at a comparison within rounding")
			names := make([]string, 0, len(m.c))
			for c := range m.c {
				names = append(names, c)
			}
			sort.Strings(names)
			for _, c := range o.Cols {
				if _, ok := m.c[c]; !ok {
					t.Class("column %s of %s has no definition", c, s.Key)
				}
			}
			decided := 0
			for _, c := range names {
				got, ok := o.V[c]
				if !ok {
					if len(o.Times) > 1 && s.Key != "BreakoutProbability" {
						t.Failf("%s: the data have no column %s", s.Key, c)
					}
					got = make([]float64, h.N())
				}
				for i := 0; i < m.upto; i++ {
					w := m.c[c][i]
					if !w.agree(got[i]) {
						t.Failf("%s(%v): %s of entry %d is %v, the definition gives %v", s.Key, p, c, i, got[i], w)
					}
					if !w.Bad && w.V != 0 && w.U < math.Abs(w.V)*0.01 {
						decided++
					}
				}
			}
			for i := m.upto; i < h.N(); i++ {
				for _, c := range names {
					if v := o.V[c]; v != nil && (math.IsNaN(v[i]) || math.IsInf(v[i], 0)) {
						t.Failf("%s(%v): %s of entry %d is %v", s.Key, p, c, i, v[i])
					}
				}
			}
			if s.Key == "ReversalSignals" {
				for i, w := range mReversal(h) {
					if o.Sides[i] != w {
						t.Failf("reversal signal of candle %d is %v, the count gives %v", i, o.Sides[i], w)
					}
					if w != utils.Hold {
						decided++
					}
					t.ClassIf(w != utils.Hold, "reversal signals")
				}
			}
			if a, ok := obj.(*trend.Atr); ok {
				k := per(t)
				x, y := a.ChandelierExit(k)
				ss := seriesOf(h)
				w := each(m.c["Atr"], func(e E) E { return scale(e, 3) })
				hi, lo := zip(mMax(k, ss.h), w, sub), zip(mMin(k, ss.l), w, add)
				for i := range hi {
					if !hi[i].agree(x[i]) || !lo[i].agree(y[i]) {
						t.Failf("chandelier exit(%d) %d is %v and %v, the definition gives %v and %v", k, i, x[i], y[i], hi[i], lo[i])
					}
				}
			}
			for _, c := range []string{"UpTrendBegin", "DownTrendBegin"} {
				for i, e := range m.c[c] {
					t.ClassIf(i < m.upto && e.V != 0, c+" of "+s.Key)
				}
			}
			t.NonTrivial(decided > 0 && h.N() >= 2)
			t.ClassIf(decided > 0, "decided "+s.Key)
		}})
}

func init() {
	modelProp("T01", 600000, 5000000, "Sma", "Ma", "Ema", "Dema", "Rma", "EMAVegas", "TraderXO")
	modelProp("T02", 300000, 2500000, "Macd", "Rsi", "StochRsi", "Kdj", "Cci", "AiCoinCCI", "StochasticHeat")
	modelProp("T03", 400000, 3000000, "Atr", "SuperTrend", "PivotPointSuperTrend", "UTBot")
	modelProp("T04", 240000, 2000000, "AverageDirectionalIndex", "Vortex", "LinearRegressionCandles", "BreakoutProbability", "ReversalSignals")
	modelProp("N01", 500000, 4000000, "Boll", "DonchianChannel", "KeltnerChannel", "UlcerIndex")
	modelProp("O01", 150000, 1600000, "AbsolutePriceOscillator", "AwesomeOscillator", "ChaikinOscillator", "PercentagePriceOscillator", "VolumeOscillator", "StochasticOscillator", "WilliamsR", "ProjectionOscillator")
	modelProp("V01", 750000, 5000000, "AccumulationDistribution", "ChaikinMoneyFlow", "EaseOfMovement", "ForceIndex", "MoneyFlowIndex", "NegativeVolumeIndex", "Obv", "VolumePriceTrend", "Vwma")
}

// kinds of moving average as the heat map numbers them
var maEMA, maSMA = int(types.EMA), int(types.SMA)
