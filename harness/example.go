package main

// M01: the example program and the loader of its data file. U04: text forms.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// civil is the date and time (in the local zone) of a number of seconds since 1970.
func civil(unix int64) string {
	day := dayOf(unix)
	sec := unix + offAt(unix) - day*86400
	// days since 0000-03-01
	z := day + 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m, y = m-12, y+1
	}
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, sec/3600, sec/60%60, sec%60)
}

func color(s utils.Side) string {
	switch s {
	case utils.Buy:
		return "\x1b[32mBUY\x1b[0m"
	case utils.Sell:
		return "\x1b[31mSELL\x1b[0m"
	case utils.Hold:
		return "HOLD"
	}
	return "UNKNOWN"
}

// exampleLines is what the program should print.
func exampleLines(item *klines.Item) []string {
	list := func() []utils.SideData {
		return []utils.SideData{
			trend.NewDefaultMacd(item).AnalysisSide(),
			trend.NewDefaultKdj(item).AnalysisSide(),
			oscillator.NewAbsolutePriceOscillator(item).AnalysisSide(),
			trend.NewDefaultCci(item).AnalysisSide(),
			trend.NewDefaultRsi(item).AnalysisSide(),
			oscillator.NewAwesomeOscillator(item).AnalysisSide(),
			oscillator.NewDefaultChaikinOscillator(item).AnalysisSide(),
			oscillator.NewDefaultIchimokuCloud(item).AnalysisSide(),
			oscillator.NewDefaultPercentagePriceOscillator(item).AnalysisSide(),
			oscillator.NewDefaultStochasticOscillator(item).AnalysisSide(),
			oscillator.NewDefaultWilliamsR(item).AnalysisSide(),
		}
	}()
	var lines []string
	for i, c := range item.Candles {
		var parts []string
		for _, s := range list {
			parts = append(parts, s.Name+":"+color(s.Data[i]))
		}
		lines = append(lines, fmt.Sprintf("[%d]Time:%s\tClose:%s\t %s", i+1, civil(c.TimeUnix),
			strconv.FormatFloat(c.Close, 'f', 2, 64), strings.Join(parts, "\t")))
	}
	return lines
}

func runExample(t *T) {
	dir, err := os.MkdirTemp("", "verif-example-")
	if err != nil {
		panic(discard{})
	}
	defer os.RemoveAll(dir)
	fault := t.Pick(70, 6, 6, 6, 6, 6) // 0: none
	loader := t.Chance(50)
	h := genHist(t, HOpt{Max: 150, Hints: []int{14, 26, 34, 52}, Active: true})
	item := h.Item()
	item.Interval = klines.ThirtyMin
	if n := len(item.Candles); n > 1 { // a file may hold candles in any order
		for k := []int{0, 0, 0, 1, 2, 9}[t.Int(0, 5)]; k > 0; k-- {
			i, j := t.Int(0, n-1), t.Int(0, n-1)
			if t.Chance(20) {
				c := *item.Candles[i]
				item.Candles[j] = &c
			} else {
				item.Candles[i], item.Candles[j] = item.Candles[j], item.Candles[i]
			}
		}
	}
	b, err := json.Marshal(item.Candles)
	if err != nil {
		panic(discard{})
	}
	if t.Chance(20) {
		var x bytes.Buffer
		json.Indent(&x, b, "", "  ")
		b = x.Bytes()
	}
	os.Mkdir(filepath.Join(dir, "data"), 0o755)
	file := filepath.Join(dir, "data", "test.json")
	what := "a good file"
	switch fault {
	case 1:
		what = "a file that is cut off"
		b = b[:t.Int(0, len(b)-1)]
		if len(bytes.TrimSpace(b)) == len(b) && json.Valid(b) {
			panic(discard{})
		}
	case 2:
		what = "an object instead of a list"
		b = []byte(`{"Candles":` + string(b) + `}`)
	case 3:
		what = "no JSON"
		b = []byte("Open,Close\n1,2\n")
	case 4:
		what = "a price in quotes"
		b = []byte(`[{"Open":"1"}]`)
	case 5:
		what = "no file"
	}
	if fault != 5 {
		if err := os.WriteFile(file, b, 0o644); err != nil {
			panic(discard{})
		}
	}
	t.Notef("%s with %v", what, h)
	t.Class("%s", what)
	if loader {
		t.Class("loader")
		old, err := os.Getwd()
		if err != nil || os.Chdir(dir) != nil {
			panic(discard{})
		}
		var got *klines.Item
		func() {
			defer os.Chdir(old)
			defer func() {
				if e := recover(); e != nil {
					got = nil
				}
			}()
			got = utils.GetTestKlineItem()
		}()
		if fault != 0 {
			if got != nil && len(got.Candles) > 0 {
				t.Failf("GetTestKlineItem gives %d candles for %s", len(got.Candles), what)
			}
			if got != nil {
				t.Failf("GetTestKlineItem gives a list for %s", what)
			}
			t.NonTrivial(true)
			return
		}
		if got == nil {
			t.Failf("GetTestKlineItem fails for %s", what)
		}
		if a, b := show(got.Candles), show(item.Candles); a != b {
			t.Failf("GetTestKlineItem gives %s for %s", a, b)
		}
		if got.Interval != klines.ThirtyMin {
			t.Failf("the interval of the loaded candles is %v", got.Interval)
		}
		t.NonTrivial(len(item.Candles) > 1)
		return
	}
	t.Class("program")
	bin := os.Getenv("VERIF_EXAMPLE")
	if bin == "" {
		fmt.Fprintln(os.Stderr, "VERIF_EXAMPLE is not set")
		os.Exit(4)
	}
	cmd := exec.Command(bin)
	cmd.Dir = dir
	tz := "UTC"
	if t.Chance(30) && len(summer) > 0 {
		l := summer[t.Int(0, len(summer)-1)]
		if _, err := os.Stat("/usr/share/zoneinfo/" + l.String()); err == nil {
			tz, time.Local = l.String(), l
			defer func() { time.Local = time.UTC }()
			t.Class("local time has summer time")
		}
	}
	cmd.Env = append(os.Environ(), "TZ="+tz, "PWD="+dir)
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	err = cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fmt.Fprintln(os.Stderr, "the example does not start:", err)
		os.Exit(4)
	}
	if fault != 0 {
		if err == nil {
			t.Failf("the example ends without failure for %s", what)
		}
		if out.Len() > 0 {
			t.Failf("the example prints %q for %s", firstLines(out.String(), 1), what)
		}
		t.NonTrivial(true)
		return
	}
	if err != nil {
		t.Failf("the example fails: %v\n%s", err, firstLines(msg.String(), 6))
	}
	want := exampleLines(item)
	got := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
	if out.Len() == 0 {
		got = nil
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			t.Failf("line %d of the example is\n%q\nwant\n%q", i+1, g, w)
		}
	}
	t.NonTrivial(len(want) > 1)
}

// ---------------------------------------------------------------- U04

var candleText = regexp.MustCompile(`^(-?\d+-\d\d-\d\d \d\d:\d\d:\d\d) Open:(\S+) High:(\S+) Low:(\S+) Close:(\S+) Volume:(\S+) Bull:(true|false) ChangePercent:(\S+)%$`)
var adxText = regexp.MustCompile(`^\[(-?\d+-\d\d-\d\d \d\d:\d\d:\d\d)\]DI\+:(\S+) DI-:(\S+) ADX:(\S+)$`)

func anyNumber(t *T) float64 {
	switch t.Int(0, 5) {
	case 0:
		return float64(t.Zig(1000))
	case 1:
		return float64(t.Zig(1000000)) / 100
	case 2: // halves of the last digit and values next to them
		v := (float64(t.Zig(3000)) + 0.5) * 1e-6
		for k := t.Int(0, 2); k > 0; k-- {
			v = math.Nextafter(v, math.Inf(1))
		}
		return v
	case 3:
		return float64(t.Zig(1<<30)) * math.Pow(2, float64(t.Int(0, 60)-40))
	case 4:
		return float64(t.Zig(999)) * math.Pow(10, float64(t.Int(0, 30)-15))
	}
	return math.Float64frombits(t.Uint64()&^(0x7ff<<52) | uint64(900+t.Int(0, 240))<<52)
}

// fixed checks that text is v to digits places: no decimal of that length is
// closer.
func fixed(t *T, name, text string, v float64, digits int) {
	if want := strconv.FormatFloat(v, 'f', digits, 64); text != want {
		t.Failf("%s shows %s for %v, want %s", name, text, v, want)
	}
}

func runText(t *T) {
	tm := int64(t.Int(0, 2000000000))
	switch t.Int(0, 4) {
	case 0:
		tm = -tm
	case 1:
		tm *= 5
	}
	switch t.Round(4) {
	case 0, 1:
		c := &klines.Candle{TimeUnix: tm, Open: anyNumber(t), High: anyNumber(t), Low: anyNumber(t), Close: anyNumber(t), Volume: anyNumber(t),
			IsBullMarket: t.Chance(50), Amount: anyNumber(t), Count: int64(t.Int(0, 1000))}
		c.ChangePercent = []float64{anyNumber(t), (c.Close - c.Open) / 128, float64(t.Zig(20000)) / 1e5}[t.Int(0, 2)]
		keep := *c
		s := c.String()
		t.Notef("%+v prints %q", keep, s)
		m := candleText.FindStringSubmatch(s)
		if m == nil {
			t.Failf("the text of a candle is %q", s)
		}
		if m[1] != civil(tm) {
			t.Failf("a candle at %d (%s) shows %s", tm, civil(tm), m[1])
		}
		fixed(t, "Open", m[2], c.Open, 6)
		fixed(t, "High", m[3], c.High, 6)
		fixed(t, "Low", m[4], c.Low, 6)
		fixed(t, "Close", m[5], c.Close, 6)
		fixed(t, "Volume", m[6], c.Volume, 6)
		if m[7] != strconv.FormatBool(c.IsBullMarket) {
			t.Failf("Bull shows %s for %v", m[7], c.IsBullMarket)
		}
		p, err := strconv.ParseFloat(m[8], 64)
		if want := c.ChangePercent * 100; err != nil || math.Abs(p-want) > 0.5e-4*(1+1e-6)+math.Abs(want)*1e-15 {
			t.Failf("ChangePercent shows %s%% for %v", m[8], c.ChangePercent)
		}
		if *c != keep && !(c.Open != c.Open) {
			t.Failf("printing a candle changes it")
		}
		t.NonTrivial(true)
	case 2:
		d := trend.AverageDirectionalIndexData{DIPlus: anyNumber(t), DIMins: anyNumber(t), ADX: anyNumber(t), Time: time.Unix(tm, 0)}
		s := d.String()
		t.Notef("%+v prints %q", struct{ P, M, A float64 }{d.DIPlus, d.DIMins, d.ADX}, s)
		m := adxText.FindStringSubmatch(s)
		if m == nil {
			t.Failf("the text of a directional index is %q", s)
		}
		if m[1] != civil(tm) {
			t.Failf("an entry at %d (%s) shows %s", tm, civil(tm), m[1])
		}
		fixed(t, "DI+", m[2], d.DIPlus, 6)
		fixed(t, "DI-", m[3], d.DIMins, 6)
		fixed(t, "ADX", m[4], d.ADX, 6)
		t.NonTrivial(true)
	case 3:
		unit := []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour}[t.Int(0, 6)]
		d := unit * time.Duration(t.Zig(20000))
		iv := klines.Interval(d)
		t.Notef("interval of %d ns", int64(d))
		if iv.Duration() != d {
			t.Failf("the duration of an interval of %d ns is %d ns", int64(d), int64(iv.Duration()))
		}
		s := iv.String()
		if back, err := time.ParseDuration(s); err != nil || back != d {
			t.Failf("an interval of %d ns prints %q", int64(d), s)
		}
		t.NonTrivial(d != 0)
	}
}

func init() {
	register(&Prop{ID: "M01", Quick: 6000, Thorough: 120000, Run: runExample, Rule: "more than one candle, or a fault in the file"})
	register(&Prop{ID: "U04", Quick: 1500000, Thorough: 30000000, Run: runText, Rule: "every case (intervals: not zero)"})
}
