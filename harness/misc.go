package main

// L01, U01, U02, U03.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

// ---------------------------------------------------------------- L01

func runL01(t *T) {
	n := 0
	switch t.Int(0, 3) {
	case 0:
		n = t.Int(0, 4)
	default:
		n = t.Int(2, 60)
		switch t.Pick(299, 1) {
		case 1:
			n = t.Int(61, 1000)
			if t.Chance(30) {
				n = t.Int(1000, 5000)
			}
		}
	}
	x, y := make([]float64, n), make([]float64, n)
	kind := t.Int(0, 3)
	x0 := float64(t.Zig(20))
	a, b := float64(t.Zig(40))/8, float64(t.Zig(200))/4
	line := t.Chance(25)
	for i := range x {
		switch kind {
		case 0:
			x[i] = float64(i)
		case 1:
			x[i] = x0 + float64(i)*0.5
		case 2: // uneven steps
			x0 += float64(t.Int(1, 8)) / 4
			x[i] = x0
		case 3: // any order
			x[i] = float64((i*7)%n) - 3
			if n%7 == 0 {
				x[i] = float64(n-i) - 3
			}
		}
		y[i] = float64(t.Zig(400)) * []float64{0.25, 0.01, 7}[t.Int(0, 2)]
		if line {
			y[i] = a*x[i] + b
		}
	}
	p := per(t)
	t.Notef("period %d, x=%v y=%v", p, x, y)
	x, y = room(t, x, -123456.5), room(t, y, -123456.5)
	xk, yk := dup(x), dup(y)
	Y := exs(y)
	if n >= 2 {
		m, c := utils.LeastSquare(x, y)
		wm, wc := mMovingLS(n, x, Y)
		if !wm[n-1].agree(m) || !wc[n-1].agree(c) {
			t.Failf("LeastSquare is %v x + %v, direct evaluation gives %v and %v", m, c, wm[n-1], wc[n-1])
		}
		// residuals: their sum and their product with x vanish
		sr, sx, ar, ax := 0.0, 0.0, 0.0, 0.0
		for i := range x {
			r := y[i] - (m*x[i] + c)
			sr, sx = sr+r, sx+r*x[i]
			ar += math.Abs(y[i]) + math.Abs(m*x[i]) + math.Abs(c)
			ax += (math.Abs(y[i]) + math.Abs(m*x[i]) + math.Abs(c)) * math.Abs(x[i])
		}
		tr := float64(n)*(wm[n-1].U*10+wc[n-1].U) + 1e-9*(ar+1)
		mx := 1.0
		for _, v := range x {
			mx = math.Max(mx, math.Abs(v))
		}
		tr += wm[n-1].U * float64(n) * mx
		if math.Abs(sr) > tr || math.Abs(sx) > tr*mx+1e-9*(ax+1) {
			t.Failf("residuals of LeastSquare sum to %v and have product %v with x", sr, sx)
		}
		if line && (math.Abs(m-a) > 1e-7 || math.Abs(c-b) > 1e-5) {
			t.Failf("the points lie on %v x + %v, LeastSquare gives %v x + %v", a, b, m, c)
		}
		lr := utils.LinearRegressionUsingLeastSquare(x, y)
		if len(lr) != n {
			t.Failf("%d fitted values for %d points", len(lr), n)
		}
		for i := range lr {
			w := add(scale(wm[n-1], x[i]), wc[n-1])
			if !w.agree(lr[i]) {
				t.Failf("fitted value %d is %v, the line gives %v", i, lr[i], w)
			}
		}
		t.NonTrivial(n > 2)
	}
	if p < 2 {
		p = 2
	}
	wm, wc := mMovingLS(p, x, Y)
	m, c := utils.MovingLeastSquare(p, x, y)
	lr := utils.MovingLinearRegressionUsingLeastSquare(p, x, y)
	if len(m) != n || len(c) != n || len(lr) != n {
		t.Failf("%d, %d and %d results for %d points", len(m), len(c), len(lr), n)
	}
	for i := 1; i < n; i++ {
		if !wm[i].agree(m[i]) || !wc[i].agree(c[i]) {
			t.Failf("moving fit %d (period %d) is %v x + %v, direct evaluation gives %v and %v", i, p, m[i], c[i], wm[i], wc[i])
		}
		if w := add(scale(wm[i], x[i]), wc[i]); !w.agree(lr[i]) {
			t.Failf("moving fitted value %d is %v, the line gives %v", i, lr[i], w)
		}
		t.ClassIf(i >= p, "full windows")
		t.ClassIf(wm[i].Bad, "undecided")
	}
	t.handed = append(t.handed, m, c, lr)
	ownResults(t)
	sameIn(t, "the fit", x, xk)
	sameIn(t, "the fit", y, yk)
	t.ClassIf(line, "points on a line")
}

// ---------------------------------------------------------------- U01

// checkRounded: got is a nearest multiple of 10^-d to v, halves away from
// zero, up to the rounding of v*10^d.
func checkRounded(t *T, name string, v float64, d int, got float64) {
	if d == 0 { // the halves are exact
		if w := math.Round(v); got != w {
			t.Failf("%s(%v, 0) is %v, want %v", name, v, got, w)
		}
		return
	}
	n := math.Pow(10, float64(d))
	s := v * n
	if math.Abs(s) >= 1<<53 { // the multiples are no further apart than the floats
		if got != v {
			t.Failf("%s(%v, %d) is %v, want the value: the multiples lie no further apart than the floats", name, v, d, got)
		}
		return
	}
	if math.Abs(s) > 1<<49 { // nearly as close as the floats
		if math.Abs(got-v) > 0.5/n+4*ulps*math.Abs(v) {
			t.Failf("%s(%v, %d) is %v", name, v, d, got)
		}
		return
	}
	k := math.Floor(math.Abs(s))
	frac := math.Abs(s) - k
	slack := 4 * ulps * math.Max(1, math.Abs(s))
	lo, hi := math.Copysign(k, s), math.Copysign(k+1, s)
	is := func(m float64) bool { return math.Abs(got-m/n) <= 4*ulps*math.Abs(m/n) || got == m/n }
	okLo, okHi := frac < 0.5+slack, frac >= 0.5-slack
	exactHalf := frac == 0.5 && d >= 0 && d <= 15 && math.FMA(v, n, -s) == 0
	if exactHalf {
		okLo = false
	}
	if !(okLo && is(lo) || okHi && is(hi)) {
		t.Failf("%s(%v, %d) is %v, want %v or %v (fraction %v of the step)", name, v, d, got, lo/n, hi/n, frac)
	}
}

func decimalValue(t *T) float64 {
	switch t.Pick(38, 19, 19, 9, 9, 6) {
	case 5: // with more digits than a float or an integer holds
		return (float64(t.Zig(1<<30)) + 0.37) * math.Pow(10, float64(t.Int(0, 30)))
	case 0: // a decimal with few digits, halves included
		return float64(t.Zig(200000)) / math.Pow(10, float64(t.Int(0, 4)))
	case 1: // dyadic: exact halves
		return float64(t.Zig(4000)) / 8
	case 2:
		return float64(t.Zig(1<<30)) / 977
	case 3:
		return float64(t.Zig(1000)) * math.Pow(10, float64(t.Int(0, 12)-6))
	}
	return math.Ldexp(float64(t.Zig(1<<20)), t.Int(0, 40)-30)
}

func digits(t *T) int {
	if t.Chance(15) {
		return t.Int(9, 16)
	}
	return t.Int(0, 8)
}

func runU01(t *T) {
	switch kind := t.Round(5); kind {
	case 0:
		v, d := decimalValue(t), digits(t)
		t.Notef("RoundDigits(%v, %d)", v, d)
		g := ta.RoundDigits(v, d)
		checkRounded(t, "RoundDigits", v, d, g)
		if again := ta.RoundDigits(g, d); again != g && (d <= 8 || math.Abs(v)*math.Pow(10, float64(d)) < 1<<49) {
			t.Failf("rounding %v twice to %d digits gives %v and %v", v, d, g, again)
		}
		if m := ta.RoundDigits(-v, d); m != -g {
			t.Failf("RoundDigits(%v, %d) is %v, but %v for %v", v, d, g, m, -v)
		}
		t.NonTrivial(g != v)
		t.Class("RoundDigits")
	case 1:
		v, d := decimalValue(t), digits(t)
		t.Notef("RoundDigit(%v, %d)", v, d)
		g := helpertools.RoundDigit(v, d)
		checkRounded(t, "RoundDigit", v, d, g)
		if again := helpertools.RoundDigit(g, d); again != g && (d <= 8 || math.Abs(v)*math.Pow(10, float64(d)) < 1<<49) {
			t.Failf("rounding %v twice to %d digits gives %v and %v", v, d, g, again)
		}
		k := t.Zig(1 << 20)
		if r := helpertools.RoundDigit(k, t.Int(0, 6)); r != k {
			t.Failf("RoundDigit of the integer %d is %d", k, r)
		}
		big := int64(t.Uint64())
		if big != math.MinInt64 {
			if r := helpertools.RoundDigit(big, t.Int(0, 6)); r != big {
				t.Failf("RoundDigit of the integer %d is %d", big, r)
			}
		}
		t.NonTrivial(g != v)
		t.Class("RoundDigit")
	case 2:
		v, e := decimalValue(t), int32(t.Zig([]int{7, 7, 7, 20}[t.Int(0, 3)]))
		t.Notef("FormatDecimalFloat64(%v, %d)", v, e)
		g := commonutils.FormatDecimalFloat64(v, e)
		// exact: nearest multiple of 10^e, halves away from zero
		step := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs32(e))), nil))
		if e < 0 {
			step.Inv(step)
		}
		check := func(r *big.Rat) bool {
			q := new(big.Rat).Quo(new(big.Rat).Abs(r), step)
			q.Add(q, big.NewRat(1, 2))
			k := new(big.Int).Quo(q.Num(), q.Denom())
			w := new(big.Rat).Mul(new(big.Rat).SetInt(k), step)
			f, _ := w.Float64()
			f = math.Copysign(f, v)
			return math.Abs(f-g) <= 2*ulps*math.Abs(f)
		}
		exact := new(big.Rat).SetFloat64(v)
		printed, _ := new(big.Rat).SetString(strconv.FormatFloat(v, 'g', -1, 64))
		if !check(exact) && !check(printed) {
			t.Failf("FormatDecimalFloat64(%v, %d) is %v", v, e, g)
		}
		if again := commonutils.FormatDecimalFloat64(g, e); again != g {
			t.Failf("rounding %v twice to exponent %d gives %v and %v", v, e, g, again)
		}
		t.NonTrivial(g != v)
		t.Class("FormatDecimalFloat64")
		t.ClassIf(e > 0, "positive exponent")
	case 3:
		var v float64
		if t.Chance(50) {
			v = math.Float64frombits(t.Uint64())
			if math.IsNaN(v) || math.IsInf(v, 0) {
				v = 1
			}
		} else {
			v = decimalValue(t)
		}
		f := []byte{'g', 'e', 'f'}[t.Int(0, 2)]
		s := strconv.FormatFloat(v, f, -1, 64)
		t.Notef("FloatFromString(%q)", s)
		g, err := commonutils.FloatFromString(s)
		if err != nil || g != v {
			t.Failf("FloatFromString(%q) is %v, %v", s, g, err)
		}
		t.NonTrivial(true)
		t.Class("parse numbers")
	case 4:
		var raw any
		switch t.Int(0, 6) {
		case 0:
			raw = float64(t.Zig(100))
		case 1:
			raw = t.Zig(100)
		case 2:
			raw = nil
		case 3:
			raw = []byte("1.5")
		case 4:
			raw = true
		default: // a number spoilt by one character
			s := strconv.FormatFloat(decimalValue(t), 'f', -1, 64)
			bad := []string{" ", "x", ",", "--", "..", "$", "\n", "é", "1 1"}[t.Int(0, 8)]
			k := t.Int(0, len(s))
			raw = s[:k] + bad + s[k:]
			if t.Chance(10) {
				raw = ""
			}
			if t.Chance(10) {
				raw = []string{"1e400", "-1e400", "1e", "e5", ".", "+", "-", "1e+"}[t.Int(0, 7)]
			}
		}
		t.Notef("FloatFromString(%#v)", raw)
		g, err := commonutils.FloatFromString(raw)
		if err == nil || g != 0 {
			t.Failf("FloatFromString(%#v) is %v, %v", raw, g, err)
		}
		t.NonTrivial(true)
		t.Class("parse anything else")
	}
}

func abs32(e int32) int32 {
	if e < 0 {
		return -e
	}
	return e
}

// ---------------------------------------------------------------- U02

func anyFloat(t *T) float64 {
	switch t.Pick(30, 40, 30) {
	case 0:
		return 0
	case 1:
		return decimalValue(t)
	}
	v := math.Float64frombits(t.Uint64())
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return 0.1
	}
	return v
}

func anyCandle(t *T) *klines.Candle {
	c := &klines.Candle{Amount: anyFloat(t), Open: anyFloat(t), Close: anyFloat(t), Low: anyFloat(t), High: anyFloat(t), Volume: anyFloat(t), ChangePercent: anyFloat(t), IsBullMarket: t.Chance(50)}
	if t.Chance(70) {
		c.Count = int64(t.Uint64() >> uint(t.Int(0, 63)))
		c.TimeUnix = int64(t.Uint64() >> uint(t.Int(0, 63)))
		if t.Chance(30) {
			c.TimeUnix = -c.TimeUnix
		}
	}
	return c
}

// fixedFiles reads files of many sizes, to several mebibytes.
func fixedFiles(f *Fixed) {
	dir, err := os.MkdirTemp("", "verif-u02-")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "f")
	sizes := []int{0, 1, 2, 3, 1000, 10000, 100000, 1000000, 3000000, 5<<20 + 7}
	for b := 64; b <= 4<<20; b *= 2 {
		sizes = append(sizes, b-1, b, b+1)
	}
	if f.Tier == "thorough" {
		sizes = append(sizes, 16<<20, 16<<20+1, 70<<20+3)
	}
	r := rng{77}
	for _, n := range sizes {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.next() >> 11)
		}
		if os.WriteFile(name, b, 0o600) != nil {
			return
		}
		if g, err := commonutils.ReadFile(name); err != nil || !bytes.Equal(g, b) {
			f.Failf("reading a file of %d bytes gives %d bytes (%v), or others", n, len(g), err)
		}
		f.Count++
	}
}

// fixedLists sends candle lists of many lengths through JSON.
func fixedLists(f *Fixed) {
	sizes := []int{300, 1000, 5000, 20000}
	for n := 0; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	for b := 128; b <= 8192; b *= 2 {
		sizes = append(sizes, b-1, b, b+1)
	}
	for _, n := range sizes {
		cs := make([]*klines.Candle, n)
		for i := range cs {
			x := float64(i%977) * 0.37
			cs[i] = &klines.Candle{TimeUnix: int64(i) * 60, Count: int64(n - i), Open: x, Close: x + 0.1, High: x * 3, Low: -x, Volume: 1e9 * x, Amount: x * 1e-9, IsBullMarket: i%3 == 0, ChangePercent: x / 7}
		}
		b, err := json.Marshal(cs)
		if err != nil {
			continue
		}
		var got []*klines.Candle
		if err := commonutils.JSONDecode(b, &got); err != nil || len(got) != n {
			f.Failf("decoding %d candles gives %d (%v)", n, len(got), err)
		}
		for i, c := range got {
			if c == nil || *c != *cs[i] {
				f.Failf("of %d candles decoded, candle %d is %v, want %v", n, i, c, cs[i])
			}
		}
		f.Count++
	}
}

func runU02(t *T) {
	var cs []*klines.Candle
	size := t.Hidden(6)
	if t.Hidden(1000) == 0 {
		size = 100 + t.Hidden(900)
	}
	t.List(size, 1000, func(i int) { cs = append(cs, anyCandle(t)) })
	if cs == nil {
		cs = []*klines.Candle{}
	}
	enc, err := json.Marshal(cs)
	if err != nil {
		panic(discard{})
	}
	same := func(got []*klines.Candle) bool {
		if len(got) != len(cs) {
			return false
		}
		for i := range cs {
			if got[i] == nil || *got[i] != *cs[i] {
				return false
			}
		}
		return true
	}
	kind := t.Round(5)
	t.Class("kind %d", kind)
	t.Notef("kind %d: %s", kind, enc)
	switch kind {
	case 0: // round trip, also through a file
		b := enc
		if t.Chance(30) {
			dir, err := os.MkdirTemp("", "verif-u02-")
			if err != nil {
				panic(discard{})
			}
			defer os.RemoveAll(dir)
			f := filepath.Join(dir, "c.json")
			if t.Chance(40) { // any bytes
				raw := append([]byte(nil), enc...)
				pieces := []string{"\xef\xbb\xbf", "\xff\xfe", "\r\n", "\n", " ", "\x00", "\x1a", "\xff", "é", "\t", ""}
				for k := t.Int(1, 3); k > 0; k-- {
					x := pieces[t.Int(0, len(pieces)-1)]
					switch t.Int(0, 3) {
					case 0:
						raw = append([]byte(x), raw...)
					case 1:
						raw = append(raw, x...)
					case 2:
						raw = []byte(x)
					case 3:
						i := t.Int(0, len(raw))
						raw = append(append(append([]byte(nil), raw[:i]...), x...), raw[i:]...)
					}
				}
				os.WriteFile(f, raw, 0o600)
				if g, err := commonutils.ReadFile(f); err != nil || !bytes.Equal(g, raw) {
					t.Failf("ReadFile gives %q (%v) of %q", g, err, raw)
				}
				t.Class("files of any bytes")
			}
			os.WriteFile(f, enc, 0o600)
			b, err = commonutils.ReadFile(f)
			if err != nil || !bytes.Equal(b, enc) {
				t.Failf("ReadFile gives %d bytes (%v) of %d", len(b), err, len(enc))
			}
			if x, err := commonutils.ReadFile(filepath.Join(dir, "none")); err == nil || x != nil {
				t.Failf("reading a missing file gives %v, %v", x, err)
			}
		}
		if t.Chance(30) {
			var ind bytes.Buffer
			json.Indent(&ind, b, " ", "\t")
			b = ind.Bytes()
		}
		keep := append([]byte(nil), b...)
		var got []*klines.Candle
		if err := commonutils.JSONDecode(b, &got); err != nil {
			t.Failf("decoding %s: %v", b, err)
		}
		if !bytes.Equal(b, keep) {
			t.Failf("decoding changed its input")
		}
		if !same(got) {
			t.Failf("decoding %s gives %v", b, show(got))
		}
		var vals []klines.Candle
		if err := commonutils.JSONDecode(b, &vals); err != nil || len(vals) != len(cs) {
			t.Failf("decoding %s into values: %v", b, err)
		}
		for i := range vals {
			if vals[i] != *cs[i] {
				t.Failf("candle %d decoded from %s is %v", i, b, vals[i])
			}
		}
		t.NonTrivial(len(cs) > 0)
	case 1: // truncated
		k := t.Int(0, len(enc)-1)
		var got []*klines.Candle
		if err := commonutils.JSONDecode(enc[:k], &got); err == nil {
			t.Failf("decoding the first %d bytes of %s is no error", k, enc)
		}
		t.NonTrivial(true)
	case 2: // corrupted: never a panic; what is still valid decodes as usual
		b := append([]byte(nil), enc...)
		for k := t.Int(1, 3); k > 0; k-- {
			i := t.Int(0, len(b)-1)
			switch t.Int(0, 2) {
			case 0:
				b[i] = byte(t.Int(0, 255))
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				if t.Chance(20) { // after the value
					i = len(b)
				}
				b = append(b[:i], append([]byte{"{}[],:\"0-e.tn"[t.Int(0, 12)]}, b[i:]...)...)
			}
			if len(b) == 0 {
				b = []byte{'['}
			}
		}
		t.Notef("corrupted: %s", b)
		var got, want []*klines.Candle
		err := commonutils.JSONDecode(b, &got)
		werr := json.Unmarshal(b, &want)
		if err == nil && !json.Valid(b) {
			t.Failf("decoding %q, which is not JSON, is no error", b)
		}
		if (err == nil) != (werr == nil) {
			t.Failf("decoding %q: error %v, encoding/json gives %v", b, err, werr)
		}
		if err == nil && werr == nil && show(got) != show(want) {
			t.Failf("decoding %s gives %v, encoding/json gives %v", b, show(got), show(want))
		}
		t.ClassIf(werr == nil, "still valid")
		t.ClassIf(err != nil, "errors")
		t.NonTrivial(true)
	case 3: // targets that are no pointers
		tg := t.Int(0, 7)
		var err error
		switch tg {
		case 0:
			err = commonutils.JSONDecode(enc, klines.Candle{})
		case 1:
			err = commonutils.JSONDecode(enc, []klines.Candle{})
		case 2:
			err = commonutils.JSONDecode(enc, "text")
		case 3:
			err = commonutils.JSONDecode(enc, 7)
		case 4:
			err = commonutils.JSONDecode(enc, nil)
		}
		switch tg {
		case 5:
			err = commonutils.JSONDecode(enc, []*klines.Candle{})
		case 6:
			err = commonutils.JSONDecode(enc, map[string]*klines.Candle{})
		case 7:
			err = commonutils.JSONDecode(enc, (*[]*klines.Candle)(nil))
		}
		if err == nil {
			t.Failf("decoding into a value of kind %d is no error", tg)
		}
		t.NonTrivial(true)
	case 4: // one candle as an object, wrong kinds of value
		c := anyCandle(t)
		b, err := json.Marshal(c)
		if err != nil {
			panic(discard{})
		}
		var got klines.Candle
		if err := commonutils.JSONDecode(b, &got); err != nil || got != *c {
			t.Failf("decoding %s gives %v, %v", b, got, err)
		}
		bad := []string{`{"Open":"1"}`, `{"Open":{}}`, `{"TimeUnix":1.5}`, `{"IsBullMarket":1}`, `{"Open":}`, `{"Open"`, `[`, ``, `{"Open":1,}`}[t.Int(0, 8)]
		if err := commonutils.JSONDecode([]byte(bad), &got); err == nil {
			t.Failf("decoding %s is no error", bad)
		}
		t.NonTrivial(true)
	}
}

func show(cs []*klines.Candle) string {
	var b strings.Builder
	for _, c := range cs {
		if c == nil {
			b.WriteString("nil ")
		} else {
			fmt.Fprintf(&b, "%+v ", struct {
				A                float64
				N                int64
				O, C, L, H, V, P float64
				B                bool
				T                int64
			}{c.Amount + 0, c.Count, c.Open + 0, c.Close + 0, c.Low + 0, c.High + 0, c.Volume + 0, c.ChangePercent + 0, c.IsBullMarket, c.TimeUnix})
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- U03

var zones = append([]*time.Location{time.UTC, time.FixedZone("a", 8*3600), time.FixedZone("b", -5*3600), time.FixedZone("c", 5*3600+1800)}, summer...)

func anyInstant(t *T, now time.Time) time.Time {
	var x time.Time
	switch t.Pick(10, 10, 34, 16, 18, 6, 6) {
	case 6: // about now
		x = now.Add(time.Duration(t.Zig(2000))*time.Millisecond + time.Duration(t.Zig(2)))
	case 5: // beyond what counts in nanoseconds
		x = time.Date([]int{1500, 1676, 1678, 1960, 2262, 2263, 2300, 9000}[t.Int(0, 7)], time.Month(t.Int(1, 12)), t.Int(1, 28), 1, 2, 3, t.Int(0, 5), time.UTC)
	case 0:
		x = time.Time{}
	case 1:
		x = time.Unix(0, 0)
	case 2:
		x = now.Add(-time.Duration(t.Int(1, 400)) * time.Hour)
	case 3:
		x = now.Add(time.Duration(t.Int(1, 400)) * time.Hour)
	case 4:
		x = []time.Time{{}, time.Unix(0, 0), time.Unix(1600000000, 0), now.Add(-5 * time.Hour).Truncate(time.Second)}[t.Int(0, 3)].Add(time.Duration(t.Zig(2)))
	}
	return x.In(zones[t.Int(0, len(zones)-1)])
}

func runU03(t *T) {
	now := time.Now()
	a := anyInstant(t, now)
	b := anyInstant(t, now)
	if t.Chance(20) {
		b = a.In(zones[t.Int(0, len(zones)-1)]).Add(time.Duration(t.Zig(2)))
	}
	t.Notef("start %v end %v", a, b)
	var want error
	unset := func(x time.Time) bool {
		return x.UnixNano() == 0 && x.Year() > 1900 || x.Unix() == (time.Time{}).Unix() && x.Nanosecond() == 0
	}
	// compare by seconds and nanoseconds
	after := func(x, y time.Time) bool {
		return x.Unix() > y.Unix() || x.Unix() == y.Unix() && x.Nanosecond() > y.Nanosecond()
	}
	part := ""
	switch {
	case unset(a):
		want, part = commonutils.ErrDateUnset, "start"
	case unset(b):
		want, part = commonutils.ErrDateUnset, "end"
	case after(a, b):
		want = commonutils.ErrStartAfterEnd
	case !after(b, a):
		want = commonutils.ErrStartEqualsEnd
	case after(a, now):
		want = commonutils.ErrStartAfterTimeNow
	}
	got := commonutils.StartEndTimeCheck(a, b)
	if after(a, now) && !after(a, time.Now()) { // the clock went past the start meanwhile
		return
	}
	if want == nil && got != nil || want != nil && !errors.Is(got, want) {
		t.Failf("StartEndTimeCheck(%v, %v) is %v, want %v", a, b, got, want)
	}
	if part != "" && !strings.Contains(got.Error(), part) {
		t.Failf("StartEndTimeCheck(%v, %v) is %q and does not name the %s date", a, b, got, part)
	}
	t.Class("%v %s", want, part)
	t.NonTrivial(true)
}

func init() {
	register(&Prop{ID: "L01", Quick: 500000, Thorough: 10000000, Run: runL01, Rule: "more than two points",
		Assume: []string{"distinct x; values compared within the accumulated rounding error of the sums over the series"}})
	register(&Prop{ID: "U01", Quick: 4000000, Thorough: 80000000, Run: runU01, Rule: "rounding changes the value; every parsing case",
		Assume: []string{"rounding is judged up to the rounding of value x 10^digits, values below 2^50 steps; the decimal form may take the value or its shortest decimal form"}})
	register(&Prop{ID: "U02", Quick: 500000, Thorough: 10000000, Run: runU02, Rule: "at least one candle, or a fault in the input",
		Fixed: []FixedCase{{"files of many sizes", fixedFiles}, {"candle lists of many lengths", fixedLists}}})
	register(&Prop{ID: "U03", Quick: 4000000, Thorough: 80000000, Run: runU03, Rule: "every case",
		Assume: []string{"instants differ from the present by at least an hour (start in the future or not)"}})
}
