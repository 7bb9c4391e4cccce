package main

import (
	"fmt"
	"math"
)

// E is a number known up to a rounding error: any reasonable floating-point
// evaluation of the same formula lies in [V-U, V+U]. X means that the natural
// evaluation is exact, so that equality with another exact number is decided.
// Bad means nothing is known (a division by something that may be zero).
type E struct {
	V, U float64
	X    bool
	Bad  bool
}

const ulps = 1.0 / (1 << 51) // error charged per operation, relative

func ex(v float64) E { return E{V: v, X: true} }

func exs(v []float64) []E {
	r := make([]E, len(v))
	for i := range v {
		r[i] = ex(v[i])
	}
	return r
}

func (a E) known() bool { return !a.Bad }

func amax(v ...float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func fin(e E) E {
	if math.IsNaN(e.V) || math.IsInf(e.V, 0) || math.IsNaN(e.U) || math.IsInf(e.U, 0) {
		e.Bad = true
	}
	return e
}

func add(a, b E) E {
	if a.Bad || b.Bad {
		return E{Bad: true}
	}
	s := a.V + b.V
	bb := s - a.V
	resid := (a.V - (s - bb)) + (b.V - bb)
	u := a.U + b.U
	if a.V != 0 && b.V != 0 {
		u += ulps * amax(a.V, b.V, s)
	}
	return fin(E{V: s, U: u, X: a.X && b.X && resid == 0})
}

func neg(a E) E    { a.V = -a.V; return a }
func sub(a, b E) E { return add(a, neg(b)) }

func mul(a, b E) E {
	if a.Bad || b.Bad {
		return E{Bad: true}
	}
	p := a.V * b.V
	u := a.U*math.Abs(b.V) + b.U*math.Abs(a.V) + a.U*b.U
	if p != 0 {
		u += ulps * math.Abs(p)
	}
	return fin(E{V: p, U: u, X: a.X && b.X && math.FMA(a.V, b.V, -p) == 0})
}

func isPow2(v float64) bool { f, _ := math.Frexp(math.Abs(v)); return f == 0.5 }

// div; a divisor that may be zero gives Bad, a divisor that is exactly zero too
// (callers decide that case first).
func div(a, b E) E {
	if a.Bad || b.Bad || b.V == 0 || math.Abs(b.V) <= b.U {
		return E{Bad: true}
	}
	q := a.V / b.V
	u := (a.U + math.Abs(q)*b.U) / (math.Abs(b.V) - b.U)
	if q != 0 {
		u += 2 * ulps * math.Abs(q)
	}
	x := a.X && b.X && (a.V == 0 || isPow2(b.V))
	return fin(E{V: q, U: u, X: x})
}

// div0 is a/b, and z where b is exactly zero.
func div0(a, b E, z float64) E {
	if b.X && !b.Bad && b.V == 0 {
		return ex(z)
	}
	return div(a, b)
}

// between falls back to an interval when nothing better is known.
func between(a E, lo, hi float64) E {
	if a.Bad {
		return E{V: (lo + hi) / 2, U: (hi - lo) / 2 * (1 + 1e-9)}
	}
	return a
}

func scale(a E, k float64) E { return mul(a, ex(k)) }

func sqrtE(a E) E {
	if a.Bad {
		return a
	}
	v := math.Max(a.V, 0)
	r := math.Sqrt(v)
	var u float64
	lo := math.Sqrt(math.Max(v-a.U, 0))
	hi := math.Sqrt(v + a.U)
	u = math.Max(hi-r, r-lo)
	return fin(E{V: r, U: u + ulps*r, X: a.X && v == 0})
}

func absE(a E) E { a.V = math.Abs(a.V); return a }

func maxE(a, b E) E {
	if a.Bad || b.Bad {
		return E{Bad: true}
	}
	if a.X && b.X {
		if a.V >= b.V {
			return E{V: a.V, U: a.U, X: true}
		}
		return E{V: b.V, U: b.U, X: true}
	}
	return E{V: math.Max(a.V, b.V), U: math.Max(a.U, b.U)}
}
func minE(a, b E) E { return neg(maxE(neg(a), neg(b))) }

// cmp is -1, 0 or 1 and whether that is certain.
func cmp(a, b E) (int, bool) {
	if a.Bad || b.Bad {
		return 0, false
	}
	d := a.V - b.V
	if a.X && b.X {
		switch {
		case d < 0:
			return -1, true
		case d > 0:
			return 1, true
		}
		return 0, true
	}
	tol := a.U + b.U
	if d > tol {
		return 1, true
	}
	if d < -tol {
		return -1, true
	}
	return 0, false
}

// agree says whether an observed value can be this number.
func (a E) agree(got float64) bool {
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	if a.Bad {
		return true
	}
	return math.Abs(got-a.V) <= a.U*1.5+1e-13*math.Abs(a.V)
}

func (a E) String() string {
	if a.Bad {
		return "unknown"
	}
	if a.U == 0 {
		return fmt.Sprintf("%v", a.V)
	}
	return fmt.Sprintf("%v±%.2g", a.V, a.U)
}

// ---- window sums

// lowBit is the exponent of the lowest set bit.
func lowBit(v float64) int {
	f, e := math.Frexp(v)
	m := int64(math.Abs(f) * (1 << 53))
	tz := 0
	for m&1 == 0 {
		m >>= 1
		tz++
	}
	return e - 53 + tz
}

// sumsExact says whether any order of adding up any of the values is exact.
func sumsExact(xs []E) bool {
	q, tot := 1<<20, 0.0
	for _, x := range xs {
		if !x.X || x.Bad {
			return false
		}
		if x.V != 0 {
			if b := lowBit(x.V); b < q {
				q = b
			}
			tot += math.Abs(x.V)
		}
	}
	if tot == 0 {
		return true
	}
	_, e := math.Frexp(tot)
	return e-q <= 52
}

// winSum is the sum of the last p values at each position (fewer at the
// start). The error allows for running sums with removal over the whole series.
func winSum(p int, xs []E) []E {
	r := make([]E, len(xs))
	exact := sumsExact(xs)
	tot := 0.0
	for i := range xs {
		tot += math.Abs(xs[i].V) + xs[i].U
		s, c, u := 0.0, 0.0, 0.0
		lo := i - p + 1
		if lo < 0 {
			lo = 0
		}
		bad := false
		for j := lo; j <= i; j++ {
			if xs[j].Bad {
				bad = true
			}
			y := xs[j].V - c
			t := s + y
			c = (t - s) - y
			s = t
			u += xs[j].U
		}
		if bad {
			r[i] = E{Bad: true}
			continue
		}
		// values that left a running sum leave their uncertainty only as rounding
		r[i] = fin(E{V: s, U: u + float64(i+4)*ulps/2*tot, X: exact})
		if tot == 0 {
			r[i].U = u
		}
	}
	// a Bad value poisons running sums for good
	poison := false
	for i := range r {
		if xs[i].Bad {
			poison = true
		}
		if poison {
			r[i] = E{Bad: true}
		}
	}
	return r
}

// ---- models of the primitives on uncertain numbers

func mSma(p int, xs []E) []E {
	s := winSum(p, xs)
	for i := range s {
		n := p
		if i+1 < p {
			n = i + 1
		}
		s[i] = div(s[i], ex(float64(n)))
	}
	return s
}

func mEma(p int, xs []E) []E {
	r := make([]E, len(xs))
	for i := range xs {
		if i == 0 {
			r[i] = xs[i]
			continue
		}
		a := scale(xs[i], 2)
		b := scale(r[i-1], float64(p-1))
		r[i] = div(add(a, b), ex(float64(p+1)))
		r[i] = inStep(r[i], r[i-1], xs[i])
	}
	return r
}

func mRma(p int, xs []E) []E {
	r := make([]E, len(xs))
	for i := range xs {
		if i < p {
			var s E = ex(0)
			for j := 0; j <= i; j++ {
				s = add(s, xs[j])
			}
			r[i] = div(s, ex(float64(i+1)))
			if i > 0 {
				r[i] = inStep(r[i], r[i-1], xs[i])
			}
			continue
		}
		r[i] = div(add(scale(r[i-1], float64(p-1)), xs[i]), ex(float64(p)))
		r[i] = inStep(r[i], r[i-1], xs[i])
	}
	return r
}

// inStep allows for a mean that is moved by a part of the difference.
func inStep(r, mean, x E) E {
	r.U += ulps * amax(mean.V, x.V)
	r.X = r.X && sub(x, mean).X
	return r
}

// mWma: zeros before a full window.
func mWma(p int, xs []E) []E {
	r := make([]E, len(xs))
	tot := 0.0
	exact := false
	{
		ys := make([]E, len(xs))
		for i := range xs {
			ys[i] = scale(xs[i], float64(p))
		}
		exact = sumsExact(ys)
	}
	bad := false
	for i := range xs {
		tot += (math.Abs(xs[i].V) + xs[i].U) * float64(p)
		bad = bad || xs[i].Bad
		if i < p-1 {
			r[i] = ex(0)
			continue
		}
		if bad {
			r[i] = E{Bad: true}
			continue
		}
		s, u := 0.0, 0.0
		for k := 0; k < p; k++ {
			x := xs[i-p+1+k]
			s += x.V * float64(k+1)
			u += x.U * float64(k+1)
		}
		n := E{V: s, U: u + float64(i+4)*ulps*tot, X: exact}
		if tot == 0 {
			n.U = 0
		}
		r[i] = div(n, ex(float64(p)*float64(p+1)/2))
	}
	return r
}

func mMax(p int, xs []E) []E {
	r := make([]E, len(xs))
	for i := range xs {
		lo := i - p + 1
		if lo < 0 {
			lo = 0
		}
		m := xs[lo]
		for j := lo + 1; j <= i; j++ {
			m = maxE(m, xs[j])
		}
		r[i] = m
	}
	return r
}

func mMin(p int, xs []E) []E {
	n := make([]E, len(xs))
	for i := range xs {
		n[i] = neg(xs[i])
	}
	r := mMax(p, n)
	for i := range r {
		r[i] = neg(r[i])
	}
	return r
}

func zip(a, b []E, f func(a, b E) E) []E {
	r := make([]E, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func each(a []E, f func(a E) E) []E {
	r := make([]E, len(a))
	for i := range a {
		r[i] = f(a[i])
	}
	return r
}

// stochE is 100*(c-lo)/(hi-lo), 0 without range; always within 0..100 when
// lo <= c <= hi.
func stochE(c, lo, hi E) E {
	return between(scale(div0(sub(c, lo), sub(hi, lo), 0), 100), 0, 100)
}

// mTR is the true range; the first is zero (no previous close) or high-low.
func mTR(h, l, c []E, firstHL bool) []E {
	r := make([]E, len(c))
	for i := range c {
		hl := sub(h[i], l[i])
		if i == 0 {
			r[0] = ex(0)
			if firstHL {
				r[0] = hl
			}
			continue
		}
		r[i] = maxE(hl, maxE(absE(sub(h[i], c[i-1])), absE(sub(l[i], c[i-1]))))
	}
	return r
}

// mAtr of the analysis library: zero until the period is complete.
func mAtr(h, l, c []E, p int) []E {
	tr := mTR(h, l, c, false)
	if p <= 1 {
		return tr
	}
	r := make([]E, len(c))
	if len(c) <= p {
		return eZeros(len(c))
	}
	rm := mRma(p, tr)
	for i := range r {
		if i < p {
			r[i] = ex(0)
		} else {
			r[i] = rm[i]
		}
	}
	return r
}

func eZeros(n int) []E {
	r := make([]E, n)
	for i := range r {
		r[i] = ex(0)
	}
	return r
}

// mLinReg: value of the least-squares line of each full window at its last
// point, its angle, intercept (at the first point) and slope.
func mLinReg(p int, xs []E) (val, icpt, slope []E) {
	n := len(xs)
	val, icpt, slope = eZeros(n), eZeros(n), eZeros(n)
	if p < 2 {
		return
	}
	tot := 0.0
	P := float64(p)
	d := P * (P*P - 1) / 12 // sum of squared deviations of x
	for i := 0; i < n; i++ {
		tot += math.Abs(xs[i].V)
		if i < p-1 {
			continue
		}
		mean := 0.0
		for j := i - p + 1; j <= i; j++ {
			mean += xs[j].V
		}
		mean /= P
		sxy, u := 0.0, 0.0
		for k := 0; k < p; k++ {
			sxy += (float64(k) - (P-1)/2) * (xs[i-p+1+k].V - mean)
			u += xs[i-p+1+k].U
		}
		m := sxy / d
		// running sums: sumXY up to P*tot, times P, over P*d
		eps := float64(i+8) * ulps
		um := eps*tot*P*2/d + u*P/d
		ub := eps*tot/P*2 + um*(P-1)/2 + u/P
		slope[i] = fin(E{V: m, U: um})
		icpt[i] = fin(E{V: mean - m*(P-1)/2, U: ub})
		val[i] = fin(E{V: mean + m*(P-1)/2, U: ub + um*(P-1)})
	}
	return
}
