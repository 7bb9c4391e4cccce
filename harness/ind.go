package main

// The registry of indicators and their observation through reflection: one
// column per field of the data, the times, the sides.

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

// P are the parameters of an indicator.
type P struct {
	I []int
	F float64
	B bool
}

func (p P) String() string { return fmt.Sprintf("%v %v %v", p.I, p.F, p.B) }

type Spec struct {
	Key  string
	Side bool
	Gen  func(t *T) P
	New  func(it *klines.Item, p P) any
	OHLC func(it *klines.Item, p P) any
	// Series makes it over series that stay the caller's (OHLC is derived from it)
	Series func(o *klines.OHLC, hl2 []float64, p P) any
	Def    func(it *klines.Item) any
	DefP   P
	// exponents of the price and volume unit of the columns ("*": the others)
	Exp map[string][2]float64
	// range of the values of columns
	Range map[string][2]float64
	// ordered columns (lower <= middle <= upper)
	Order []string
	// Long: histories must be long for the indicator to do anything
	MinLen int
	// value lists: method name -> columns
	Lists map[string][]string
}

func per(t *T) int {
	switch t.Pick(25, 40, 24, 10, 1) {
	case 4:
		if t.Chance(8) {
			return t.Int(400, 3000)
		}
		return t.Int(60, 400)
	case 0:
		return t.Int(1, 3)
	case 1:
		return t.Int(2, 9)
	case 2:
		return t.Int(4, 21)
	}
	return t.Int(10, 60)
}

// orPer is one of the values, or now and then any period.
func orPer(t *T, vs ...int) int {
	if t.Chance(12) {
		return per(t)
	}
	return Of(t, vs...)
}

func pers(n int) func(t *T) P {
	return func(t *T) P {
		p := P{}
		for i := 0; i < n; i++ {
			p.I = append(p.I, per(t))
		}
		return p
	}
}

func noPar(t *T) P { return P{} }

var inf = math.Inf(1)
var all0 = map[string][2]float64{}
var priceAll = map[string][2]float64{"*": {1, 0}}
var volAll = map[string][2]float64{"*": {0, 1}}

var specs = []*Spec{
	// ---- trend
	{Key: "AiCoinCCI", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewAiCoinCCI(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultAiCoinCCI(it) }, DefP: P{I: []int{20}},
		Exp: all0, Lists: map[string][]string{"GetValue": {"Value"}}},
	{Key: "Atr", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewAtr(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultAtr(it) }, DefP: P{I: []int{14}},
		Exp: priceAll, Range: map[string][2]float64{"TR": {0, inf}, "Atr": {0, inf}},
		Lists: map[string][]string{"GetValues": {"TR", "Atr"}}},
	{Key: "AverageDirectionalIndex", Gen: pers(2),
		New: func(it *klines.Item, p P) any { return trend.NewAverageDirectionalIndex(it, p.I[0], p.I[1]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any {
			return trend.NewAverageDirectionalIndexOHLC(o, p.I[0], p.I[1])
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultAverageDirectionalIndex(it) }, DefP: P{I: []int{30, 14}},
		Exp: all0, Range: map[string][2]float64{"DIPlus": {0, 100}, "DIMins": {0, 100}, "ADX": {0, 100}}},
	{Key: "BreakoutProbability", Gen: func(t *T) P {
		f := []float64{1.2, 0.5, 0, 0.05, 3, 1, 12.5}[t.Int(0, 6)]
		if t.Chance(15) {
			f = float64(t.Int(1, 500)) / 100
		}
		return P{I: []int{t.Int(1, 5)}, F: f}
	},
		New:    func(it *klines.Item, p P) any { return trend.NewBreakoutProbability(it, p.F, p.I[0]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any { return trend.NewBreakoutProbabilityOHLC(o, p.F, p.I[0]) },
		Def:    func(it *klines.Item) any { return trend.NewDefaultBreakoutProbability(it) }, DefP: P{I: []int{5}, F: 1.2},
		Exp: map[string][2]float64{"List.Price": {1, 0}}, Range: map[string][2]float64{"List.Per": {0, 100}, "Win": {0, inf}, "Loss": {0, inf}}},
	{Key: "Cci", Side: true, Gen: pers(2),
		New: func(it *klines.Item, p P) any { return trend.NewCci(it, p.I[0], p.I[1]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultCci(it) }, DefP: P{I: []int{20, 20}},
		Exp: all0, Lists: map[string][]string{"GetValue": {"Value"}}},
	{Key: "Dema", Gen: pers(1),
		New:    func(it *klines.Item, p P) any { return trend.NewDema(it, p.I[0]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any { return trend.NewDemaOHLC(o, p.I[0]) },
		Def:    func(it *klines.Item) any { return trend.NewDefaultDema(it) }, DefP: P{I: []int{20}},
		Exp: priceAll, Lists: map[string][]string{"GetValues": {"Value"}}},
	{Key: "EMAVegas", Side: true, Gen: func(t *T) P {
		if t.Chance(50) { // fast against slow, so that there are crossings and trades
			s := 2 + t.Int(0, 4)
			l := s + 1 + t.Int(0, 6)
			return P{I: []int{t.Int(1, s), s, s + t.Int(0, 2), l, l + t.Int(0, 4)}}
		}
		return pers(5)(t)
	},
		New: func(it *klines.Item, p P) any { return trend.NewEMAVegas(it, p.I[0], p.I[1], p.I[2], p.I[3], p.I[4]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any {
			return trend.NewEMAVegasOHLC(o, p.I[0], p.I[1], p.I[2], p.I[3], p.I[4])
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultEMAVegas(it) }, DefP: P{I: []int{12, 144, 169, 575, 676}},
		Exp: priceAll},
	{Key: "Ema", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewEma(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultEma(it) }, DefP: P{I: []int{5}},
		Exp: priceAll, Lists: map[string][]string{"GetValues": {"Value"}}},
	{Key: "Kdj", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewKdj(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultKdj(it) }, DefP: P{I: []int{9}},
		Exp: all0, Range: map[string][2]float64{"RSV": {0, 100}, "K": {0, 100}, "D": {0, 100}},
		Lists: map[string][]string{"GetListK": {"K"}, "GetListD": {"D"}, "GetListJ": {"J"}}},
	{Key: "LinearRegressionCandles", Gen: func(t *T) P { return P{I: []int{per(t), 1 + per(t)}, B: t.Chance(50)} },
		New: func(it *klines.Item, p P) any { return trend.NewLinearRegressionCandles(it, p.I[0], p.I[1], p.B) },
		Series: func(o *klines.OHLC, _ []float64, p P) any {
			return trend.NewLinearRegressionCandlesOHLC(o, p.I[0], p.I[1], p.B)
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultLinearRegressionCandles(it) }, DefP: P{I: []int{7, 11}, B: true},
		Exp: priceAll, Lists: map[string][]string{"GetValues": {"Signal"}}},
	{Key: "Ma", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewMa(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultMa(it) }, DefP: P{I: []int{20}},
		Exp: priceAll},
	{Key: "Macd", Side: true, Gen: pers(3),
		New: func(it *klines.Item, p P) any { return trend.NewMacd(it, p.I[0], p.I[1], p.I[2]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultMacd(it) }, DefP: P{I: []int{12, 9, 26}},
		Exp: priceAll, Lists: map[string][]string{"GetDifs": {"DIF"}, "GetMACDs": {"Macd"}}},
	{Key: "PivotPointSuperTrend", Side: true, Gen: func(t *T) P {
		f := Of(t, 1, 0.5, 2.8, 0.125, 4)
		if t.Chance(15) {
			f = float64(t.Int(1, 1200)) / 100
		}
		return P{I: []int{orPer(t, 1, 2, 3, 5), orPer(t, 1, 2, 3, 8, 14)}, F: f}
	},
		New: func(it *klines.Item, p P) any { return trend.NewPivotPointSuperTrend(it, p.I[0], p.I[1], p.F) },
		Series: func(o *klines.OHLC, _ []float64, p P) any {
			return trend.NewPivotPointSuperTrendOHLC(o, p.I[0], p.I[1], p.F)
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultPivotPointSuperTrend(it) }, DefP: P{I: []int{3, 8}, F: 2.8},
		Exp: priceAll, MinLen: 20, Lists: map[string][]string{"GetValues": {"UpTrend", "DownTrend"}}},
	{Key: "ReversalSignals", Gen: noPar,
		New: func(it *klines.Item, p P) any { return trend.NewReversalSignals(it) },
		Exp: all0, MinLen: 14},
	{Key: "Rma", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewRma(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultRma(it) }, DefP: P{I: []int{13}},
		Exp: priceAll},
	{Key: "Rsi", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewRsi(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultRsi(it) }, DefP: P{I: []int{14}},
		Exp: all0, Range: map[string][2]float64{"Value": {0, 100}}, Lists: map[string][]string{"GetValue": {"Value"}}},
	{Key: "Sma", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewSma(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultSma(it) }, DefP: P{I: []int{9}},
		Exp: priceAll, Lists: map[string][]string{"GetValues": {"Value"}}},
	{Key: "SmartMoneyConcepts", Gen: func(t *T) P { return P{I: []int{Of(t, 10, 5, 6, 20, 50, 4+per(t)), t.Int(1, 4), t.Int(1, 5)}} },
		New: func(it *klines.Item, p P) any { return trend.NewSmartMoneyConcepts(it, p.I[0], p.I[1], p.I[2]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any {
			return trend.NewSmartMoneyConceptsOHLC(o.Open, o.High, o.Low, o.Close, o.TimeUnix, p.I[0], p.I[1], p.I[2])
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultSmartMoneyConcepts(it) }, DefP: P{I: []int{50, 3, 1}},
		Exp: priceAll, MinLen: 25},
	{Key: "StochRsi", Side: true, Gen: pers(4),
		New: func(it *klines.Item, p P) any { return trend.NewStochRsi(it, p.I[0], p.I[1], p.I[2], p.I[3]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultStochRsi(it) }, DefP: P{I: []int{3, 3, 14, 14}},
		Exp: all0, Range: map[string][2]float64{"K": {0, 100}, "D": {0, 100}}},
	{Key: "StochasticHeat", Side: true, Gen: func(t *T) P {
		return P{I: []int{orPer(t, 10, 1, 2, 3, 4, 5, 6, 8), per(t), per(t), Of(t, 25, 28, 1, 10, 1+t.Int(0, 27)), int(Of(t, types.WMA, types.SMA, types.EMA))}}
	},
		New: func(it *klines.Item, p P) any {
			return trend.NewStochasticHeat(it, p.I[0], p.I[1], p.I[2], p.I[3], types.MATypes(p.I[4]))
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultStochasticHeat(it) }, DefP: P{I: []int{8, 7, 26, 25, int(types.WMA)}},
		Exp: all0, Range: map[string][2]float64{"Fast": {0, 28}, "Slow": {0, 28}}},
	{Key: "SuperTrend", Side: true, Gen: func(t *T) P { return P{I: []int{orPer(t, 1, 2, 3, 5, 10, 14), orPer(t, 1, 2, 3, 4)}, B: t.Chance(60)} },
		New: func(it *klines.Item, p P) any { return trend.NewSuperTrend(it, p.I[0], p.I[1], p.B) },
		Series: func(o *klines.OHLC, hl2 []float64, p P) any {
			return trend.NewSuperTrendOHLC(o, hl2, p.I[0], p.I[1], p.B)
		},
		Def: func(it *klines.Item) any { return trend.NewDefaultSuperTrend(it) }, DefP: P{I: []int{10, 3}, B: true},
		Exp: priceAll, MinLen: 12, Lists: map[string][]string{"GetValues": {"UpTrend", "DownTrend"}}},
	{Key: "TraderXO", Side: true, Gen: pers(2),
		New:    func(it *klines.Item, p P) any { return trend.NewTraderXO(it, p.I[0], p.I[1]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any { return trend.NewTraderXOOHLC(o, p.I[0], p.I[1]) },
		Def:    func(it *klines.Item) any { return trend.NewDefaultTraderXO(it) }, DefP: P{I: []int{12, 25}},
		Exp: priceAll, Lists: map[string][]string{"GetValues": {"Fast", "Slow"}}},
	{Key: "UTBot", Side: true, Gen: func(t *T) P { return P{I: []int{orPer(t, 1, 2, 3, 4), orPer(t, 1, 2, 3, 5, 10, 14)}} },
		New:    func(it *klines.Item, p P) any { return trend.NewUTBot(it, p.I[0], p.I[1]) },
		Series: func(o *klines.OHLC, _ []float64, p P) any { return trend.NewUTBotOHLC(o, p.I[0], p.I[1]) },
		Def:    func(it *klines.Item) any { return trend.NewDefaultUTBot(it) }, DefP: P{I: []int{2, 1}},
		Exp: priceAll, Lists: map[string][]string{"GetValues": {"Value"}}},
	{Key: "Vortex", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return trend.NewVortex(it, p.I[0]) },
		Def: func(it *klines.Item) any { return trend.NewDefaultVortex(it) }, DefP: P{I: []int{9}},
		Exp: all0, Range: map[string][2]float64{"PlusVi": {0, inf}, "MinusVi": {0, inf}}},
	// ---- channel
	{Key: "Boll", Side: true, Gen: func(t *T) P { return P{I: []int{per(t), orPer(t, 1, 2, 3, 4)}} },
		New: func(it *klines.Item, p P) any { return channel.NewBoll(it, p.I[0], p.I[1]) },
		Def: func(it *klines.Item) any { return channel.NewDefaultBoll(it) }, DefP: P{I: []int{20, 2}},
		Exp: priceAll, Range: map[string][2]float64{"MD": {0, inf}}, Order: []string{"Lower", "Middle", "Upper"}},
	{Key: "DonchianChannel", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return channel.NewDonchianChannel(it, p.I[0]) },
		Def: func(it *klines.Item) any { return channel.NewDefaultDonchianChannel(it) }, DefP: P{I: []int{20}},
		Exp: priceAll, Order: []string{"Lower", "Middle", "Upper"}},
	{Key: "KeltnerChannel", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return channel.NewKeltnerChannel(it, p.I[0]) },
		Def: func(it *klines.Item) any { return channel.NewDefaultKeltnerChannel(it) }, DefP: P{I: []int{20}},
		Exp: priceAll, Order: []string{"Lower", "Middle", "Upper"}},
	{Key: "UlcerIndex", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return channel.NewUlcerIndex(it, p.I[0]) },
		Def: func(it *klines.Item) any { return channel.NewDefaultUlcerIndex(it) }, DefP: P{I: []int{14}},
		Exp: all0, Range: map[string][2]float64{"Value": {0, 100}}},
	// ---- oscillator
	{Key: "AbsolutePriceOscillator", Side: true, Gen: func(t *T) P { // its periods are set through its fields
		if t.Chance(60) {
			return P{I: []int{14, 30}}
		}
		return pers(2)(t)
	},
		New: func(it *klines.Item, p P) any {
			a := oscillator.NewAbsolutePriceOscillator(it)
			a.FastPeriod, a.SlowPeriod = p.I[0], p.I[1]
			return a
		},
		Def: func(it *klines.Item) any { return oscillator.NewAbsolutePriceOscillator(it) }, DefP: P{I: []int{14, 30}},
		Exp: priceAll},
	{Key: "AwesomeOscillator", Side: true, Gen: noPar,
		New: func(it *klines.Item, p P) any { return oscillator.NewAwesomeOscillator(it) },
		Exp: priceAll},
	{Key: "Camarilla", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return oscillator.NewCamarilla(it, p.I[0]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultCamarilla(it) }, DefP: P{I: []int{8}},
		Exp: priceAll},
	{Key: "ChaikinOscillator", Side: true, Gen: pers(2),
		New: func(it *klines.Item, p P) any { return oscillator.NewChaikinOscillator(it, p.I[0], p.I[1]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultChaikinOscillator(it) }, DefP: P{I: []int{3, 10}},
		Exp: volAll},
	{Key: "IchimokuCloud", Side: true, Gen: pers(3),
		New: func(it *klines.Item, p P) any { return oscillator.NewIchimokuCloud(it, p.I[0], p.I[1], p.I[2]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultIchimokuCloud(it) }, DefP: P{I: []int{20, 60, 120}},
		Exp: priceAll},
	{Key: "PercentagePriceOscillator", Side: true, Gen: pers(3),
		New: func(it *klines.Item, p P) any {
			return oscillator.NewPercentagePriceOscillator(it, p.I[0], p.I[1], p.I[2])
		},
		Def: func(it *klines.Item) any { return oscillator.NewDefaultPercentagePriceOscillator(it) }, DefP: P{I: []int{12, 26, 9}},
		Exp: all0},
	{Key: "ProjectionOscillator", Side: true, Gen: pers(2),
		New: func(it *klines.Item, p P) any { return oscillator.NewProjectionOscillator(it, p.I[0], p.I[1]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultProjectionOscillator(it) }, DefP: P{I: []int{13, 3}},
		Exp: all0},
	{Key: "StochasticOscillator", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return oscillator.NewStochasticOscillator(it, p.I[0]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultStochasticOscillator(it) }, DefP: P{I: []int{14}},
		Exp: all0, Range: map[string][2]float64{"K": {0, 100}, "D": {0, 100}}, Lists: map[string][]string{"GetValues": {"K", "D"}}},
	{Key: "VolumeOscillator", Gen: pers(2),
		New: func(it *klines.Item, p P) any { return oscillator.NewVolumeOscillator(it, p.I[0], p.I[1]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultVolumeOscillator(it) }, DefP: P{I: []int{5, 10}},
		Exp: all0, Lists: map[string][]string{"GetValues": {"Value"}}},
	{Key: "WilliamsR", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return oscillator.NewWilliamsR(it, p.I[0]) },
		Def: func(it *klines.Item) any { return oscillator.NewDefaultWilliamsR(it) }, DefP: P{I: []int{14}},
		Exp: all0, Range: map[string][2]float64{"Value": {-100, 0}}},
	// ---- volume
	{Key: "AccumulationDistribution", Gen: noPar,
		New: func(it *klines.Item, p P) any { return volume.NewAccumulationDistribution(it) },
		Def: func(it *klines.Item) any { return volume.NewDefaultAccumulationDistribution(it) },
		Exp: volAll, Lists: map[string][]string{"GetValues": {"Value"}}},
	{Key: "ChaikinMoneyFlow", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return volume.NewChaikinMoneyFlow(it, p.I[0]) },
		Def: func(it *klines.Item) any { return volume.NewDefaultChaikinMoneyFlow(it) }, DefP: P{I: []int{20}},
		Exp: all0, Range: map[string][2]float64{"Value": {-1, 1}}},
	{Key: "EaseOfMovement", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return volume.NewEaseOfMovement(it, p.I[0]) },
		Def: func(it *klines.Item) any { return volume.NewDefaultEaseOfMovement(it) }, DefP: P{I: []int{14}},
		Exp: map[string][2]float64{"*": {2, -1}}},
	{Key: "ForceIndex", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return volume.NewForceIndex(it, p.I[0]) },
		Def: func(it *klines.Item) any { return volume.NewDefaultForceIndex(it) }, DefP: P{I: []int{13}},
		Exp: map[string][2]float64{"*": {1, 1}}},
	{Key: "MoneyFlowIndex", Side: true, Gen: pers(1),
		New: func(it *klines.Item, p P) any { return volume.NewMoneyFlowIndex(it, p.I[0]) },
		Def: func(it *klines.Item) any { return volume.NewDefaultMoneyFlowIndex(it) }, DefP: P{I: []int{14}},
		Exp: all0, Range: map[string][2]float64{"Value": {0, 100}}},
	{Key: "NegativeVolumeIndex", Gen: noPar,
		New: func(it *klines.Item, p P) any { return volume.NewNegativeVolumeIndex(it) },
		Def: func(it *klines.Item) any { return volume.NewDefaultNegativeVolumeIndex(it) },
		Exp: all0},
	{Key: "Obv", Gen: noPar,
		New: func(it *klines.Item, p P) any { return volume.NewObv(it) },
		Exp: volAll},
	{Key: "VolumePriceTrend", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return volume.NewVolumePriceTrend(it, p.I[0]) },
		Def: func(it *klines.Item) any { return volume.NewDefaultVolumePriceTrend(it) }, DefP: P{I: []int{14}},
		Exp: volAll},
	{Key: "Vwma", Gen: pers(1),
		New: func(it *klines.Item, p P) any { return volume.NewVwma(it, p.I[0]) },
		Def: func(it *klines.Item) any { return volume.NewDefaultVwma(it) }, DefP: P{I: []int{5}},
		Exp: priceAll},
}

func specOf(key string) *Spec {
	for _, s := range specs {
		if s.Key == key {
			return s
		}
	}
	panic("no such indicator: " + key)
}

func (s *Spec) exp(col string) [2]float64 {
	if e, ok := s.Exp[col]; ok {
		return e
	}
	return s.Exp["*"]
}

// Obs is what an indicator's data says.
type Obs struct {
	N     int
	Times []int64
	Cols  []string
	V     map[string][]float64
	Sides []utils.Side // of data rows that carry a side
}

var timeType = reflect.TypeOf(time.Time{})
var sideType = reflect.TypeOf(utils.Hold)

// observeData reads a data slice.
func observeData(data reflect.Value) *Obs {
	o := &Obs{N: data.Len(), V: map[string][]float64{}}
	et := data.Type().Elem()
	if et.Kind() == reflect.Ptr {
		et = et.Elem()
	}
	for f := 0; f < et.NumField(); f++ {
		ft := et.Field(f)
		if !ft.IsExported() {
			continue
		}
		switch {
		case ft.Type == timeType:
		case ft.Type == sideType:
		case ft.Type.Kind() == reflect.Float64:
			o.Cols = append(o.Cols, ft.Name)
			o.V[ft.Name] = make([]float64, o.N)
		}
	}
	for i := 0; i < o.N; i++ {
		e := data.Index(i)
		if e.Kind() == reflect.Ptr {
			if e.IsNil() {
				panic(failure{fmt.Sprintf("entry %d of the data is nil", i)})
			}
			e = e.Elem()
		}
		for f := 0; f < et.NumField(); f++ {
			ft := et.Field(f)
			if !ft.IsExported() {
				continue
			}
			v := e.Field(f)
			switch {
			case ft.Type == timeType:
				o.Times = append(o.Times, v.Interface().(time.Time).Unix())
			case ft.Type == sideType:
				o.Sides = append(o.Sides, v.Interface().(utils.Side))
			case ft.Type.Kind() == reflect.Float64:
				o.V[ft.Name][i] = v.Float()
			case ft.Type.Kind() == reflect.Slice: // lists inside an entry
				for k := 0; k < v.Len(); k++ {
					it := v.Index(k)
					for g := 0; g < it.NumField(); g++ {
						name := fmt.Sprintf("%s.%s", ft.Name, it.Type().Field(g).Name)
						key := fmt.Sprintf("%s[%d]", name, k)
						if _, ok := o.V[key]; !ok {
							o.V[key] = make([]float64, o.N)
							o.Cols = append(o.Cols, key)
						}
						switch it.Field(g).Kind() {
						case reflect.Float64:
							o.V[key][i] = it.Field(g).Float()
						case reflect.Bool:
							if it.Field(g).Bool() {
								o.V[key][i] = 1
							}
						}
					}
				}
			}
		}
	}
	return o
}

// colBase turns "List.Price[3]" into "List.Price".
func colBase(c string) string {
	for i := range c {
		if c[i] == '[' {
			return c[:i]
		}
	}
	return c
}

func call(obj any, method string, args ...any) []reflect.Value {
	m := reflect.ValueOf(obj).MethodByName(method)
	if !m.IsValid() {
		panic(failure{fmt.Sprintf("%T has no method %s", obj, method)})
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return m.Call(in)
}

func hasMethod(obj any, m string) bool { return reflect.ValueOf(obj).MethodByName(m).IsValid() }

func rawData(obj any) reflect.Value { return call(obj, "GetData")[0] }
func getObs(obj any) *Obs           { return observeData(rawData(obj)) }
func calc(obj any) any              { return call(obj, "Calculation")[0].Interface() }

func getSides(s *Spec, obj any, it *klines.Item) utils.SideData {
	if c, ok := obj.(*oscillator.Camarilla); ok {
		return c.AnalysisSide(it)
	}
	return obj.(utils.IStrategy).AnalysisSide()
}

func getLists(s *Spec, obj any) map[string][]float64 {
	r := map[string][]float64{}
	for m, l := range rawLists(s, obj) {
		r[m] = l[1]
	}
	return r
}

// rawLists gives each value list as it was handed out, and a copy made at once.
func rawLists(s *Spec, obj any) map[string][2][]float64 {
	r := map[string][2][]float64{}
	for m, cols := range s.Lists {
		out := call(obj, m)
		for k, c := range cols {
			l := out[k].Interface().([]float64)
			r[m+"/"+c] = [2][]float64{l, append([]float64(nil), l...)}
		}
	}
	return r
}

// smcExtra are the results of Smart Money Concepts that are not per candle.
func smcExtra(obj any) string {
	e, ok := obj.(*trend.SmartMoneyConcepts)
	if !ok {
		return ""
	}
	f := func(l trend.SmartMoneyConceptsDataOrderBlockList) string {
		s := ""
		for _, b := range l {
			s += fmt.Sprintf("(%v %d %v %v %v %v)", b.IsTop, b.Time.Unix(), b.Open, b.High, b.Low, b.Close)
		}
		return s
	}
	g := func(x trend.SmartMoneyConceptsDataStrongWeak) string {
		return fmt.Sprintf("%d %v", x.Time.Unix(), x.Value)
	}
	return fmt.Sprintf("bull %s bear %s strong %s|%s weak %s|%s", f(e.OrderBlockBullish), f(e.OrderBlockBearish), g(e.StrongHigh), g(e.StrongLow), g(e.WeakHigh), g(e.WeakLow))
}

// same compares two observations of the first n rows; tol is relative to the
// size of the column.
func sameObs(a, b *Obs, n int, tol float64) string {
	if a.N < n || b.N < n {
		return fmt.Sprintf("%d and %d entries", a.N, b.N)
	}
	cols := a.Cols
	if len(b.Cols) > len(cols) {
		cols = b.Cols
	}
	for i := 0; i < n; i++ {
		if i < len(a.Times) && i < len(b.Times) && a.Times[i] != b.Times[i] {
			return fmt.Sprintf("time of entry %d: %d and %d", i, a.Times[i], b.Times[i])
		}
		if i < len(a.Sides) && a.Sides[i] != b.Sides[i] {
			return fmt.Sprintf("side of entry %d: %v and %v", i, a.Sides[i], b.Sides[i])
		}
	}
	for _, c := range cols {
		va, vb := a.V[c], b.V[c]
		size := 0.0
		for i := 0; i < n; i++ {
			x, y := 0.0, 0.0
			if va != nil {
				x = va[i]
			}
			if vb != nil {
				y = vb[i]
			}
			size = math.Max(size, math.Max(fabs(x), fabs(y)))
			if !near(x, y, tol, size) {
				return fmt.Sprintf("%s of entry %d: %v and %v", c, i, x, y)
			}
		}
	}
	return ""
}

func fabs(x float64) float64 {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return 0
	}
	return math.Abs(x)
}

func near(x, y, tol, size float64) bool {
	if x == y || math.IsNaN(x) && math.IsNaN(y) {
		return true
	}
	return math.Abs(x-y) <= tol*(size+1e-300)
}

func sameSides(a, b []utils.Side, n int) string {
	if len(a) < n || len(b) < n {
		return fmt.Sprintf("%d and %d sides", len(a), len(b))
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("side %d: %v and %v", i, a[i], b[i])
		}
	}
	return ""
}

// genInd picks an indicator (in turn), its parameters and a history.
func genInd(t *T, o HOpt, list []*Spec) (*Spec, P, *Hist) {
	s := list[t.Round(len(list))]
	p := s.Gen(t)
	o.Hints = append(append([]int{}, o.Hints...), p.I...)
	if s.MinLen > 0 {
		o.Hints = append(o.Hints, s.MinLen)
	}
	if s.Key == "StochasticHeat" && (o.Max == 0 || o.Max > 90) {
		o.Max = 90
		o.Hints = []int{p.I[1], p.I[2]}
	} else if t.r != nil && t.Index/len(list)%1999 == 1000 {
		o.long = true // now and then each of them
		t.Class("thousands of candles")
	}
	h := genHist(t, o)
	t.Class("ind %s", s.Key)
	h.classify(t)
	t.Notef("%s(%v) on %v", s.Key, p, h)
	return s, p, h
}

func init() {
	for _, s := range specs {
		if s := s; s.Series != nil {
			s.OHLC = func(it *klines.Item, p P) any { return s.Series(it.GetOHLC(), it.HL2(), p) }
		}
	}
}
