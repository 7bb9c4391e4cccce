#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after an edit; no check uses it)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ALL=["trend","oscillator","channel","volume"]
NOTESTS="The indicator packages' tests all read a data file that is not in the repository and panic, and they print results rather than assert them; even with the file they would sample one price history and the default parameters."

p("C01","Every indicator gives one entry per candle, at its time, for any history",
 "For every candle history (empty, shorter than the period, exactly the period, or long), and every valid parameter choice, calculating an indicator never panics and its data has exactly one entry per candle, in order, carrying that candle's time. Where the indicator gives trading sides, there is exactly one side per candle, and it is BUY, SELL or HOLD.",
 ["inputs","configurations"],"every indicator of the four packages x every history length from 0 upwards x every parameter choice from 1 to beyond the history length",NOTESTS,
 ALL,[("calculation loops over the candles of the history","trend/*.go, oscillator/*.go, channel/*.go, volume/*.go: Calculation, AnalysisSide"),("short-history guards of the primitives","utils/ta/ta.go")],["GetData, AnalysisSide of every indicator"])
p("C02","No indicator looks ahead: later candles never change earlier results",
 "For every history and every continuation of it, the entries and trading sides an indicator gives for the candles of the shorter history are the same as those it gives for them in the longer one. The only exception is Smart Money Concepts, which by design draws its structure lines back to the pivot they start at.",
 ["inputs","histories"],"every indicator x every history x every cut point x every continuation",NOTESTS+" Agreement between a history and its prefixes is never tested.",
 ALL,[("recurrences and windows that only use indexes up to the current one","utils/ta/ta.go"),("bar-by-bar signal rules","AnalysisSide of every indicator")],["GetData, AnalysisSide of every indicator"])
p("C03","Results do not depend on how often or in which order they are asked for",
 "For every sequence of calls on one indicator object (calculate again, read the data, read the value lists, ask for trading sides, in any order), each call returns the same as it does on a fresh object; the value lists agree with the data entry by entry. Data handed out earlier is not altered by later calls.",
 ["histories","inputs"],"every call sequence over the public methods of every indicator x every history","The tests make a single call per object; repeated and interleaved calls are never made.",
 ALL,[("lazy calculation when no data is present","GetData/GetValues/AnalysisSide of every indicator"),("calculation replaces the data","Calculation of every indicator")],["all public methods of every indicator"],[{"name":"data","meaning":"the cached result of the last calculation","where":"field of every indicator struct"}])
p("C04","Indicators leave their input alone and do not influence each other",
 "Constructing, calculating and querying indicators never changes the candles or the series they were given. Several indicators over the same candles, used one after another, interleaved or concurrently, give the same results as each one alone.",
 ["inputs","histories","schedules"],"every set of indicators sharing one history x every interleaving, sequential or concurrent","No test looks at the input after a calculation or runs two indicators over one history; data races and shared buffers depend on the schedule.",
 ALL+["utils/klines/technical_analysis.go"],[("series are copied out of the candles","utils/klines/technical_analysis.go: GetOHLC"),("no package-level state","trend, oscillator, channel, volume, utils/ta")],["candles before and after; GetData, AnalysisSide"])
p("C05","Values are finite, stay in their range, and bands stay in order",
 "For positive prices with low <= open, close <= high and non-negative volumes, flat stretches and silent (zero-volume) stretches included, every indicator value is a finite number. Bounded indicators stay in their range (RSI, stochastic, stochastic RSI, money flow and directional indexes and raw stochastic values in 0..100; Williams %R in -100..0; Chaikin money flow in -1..1; breakout percentages in 0..100; true range, ATR, vortex, ulcer and standard deviation not negative), and lower bands are never above middle bands, nor those above upper bands.",
 ["inputs","configurations"],"every indicator x every well-formed history (flat, gapped, tiny, huge, silent) x every valid parameter choice",NOTESTS+" Division by zero shows only on flat or silent windows.",
 ALL+["utils/ta/ta.go"],[("division guards","utils/ta/ta.go: Divide, Sma, CCI"),("window extremes contain the close","utils/ta/ta.go: Max, Min")],["GetData of every indicator"])
p("C06","Trading sides follow the documented crossing rule, and hold otherwise",
 "At every candle of every history, the trading side an indicator reports is BUY or SELL exactly when its crossing rule holds between its data of the previous and of this candle (zero line, signal line, band, threshold or trend change, strict on both sides), and HOLD in every other case. Candles without the predecessors the rule needs are HOLD.",
 ["inputs","histories"],"every indicator with trading sides x every history, exact touches of a level included",NOTESTS+" Touches of a level, simultaneous crossings and first candles need constructed histories.",
 ALL+["utils/Side.go"],[("AnalysisSide of each indicator","trend, oscillator, channel, volume")],["AnalysisSide against GetData and the candles"])
p("C07","Results follow a change of price unit, volume unit or clock",
 "Multiplying all prices of a history by a power of two multiplies price-valued results by it and leaves ratio-valued results and trading sides unchanged; multiplying all volumes likewise scales volume-valued results and leaves the others. Shifting all times by a constant shifts the times of the results and changes nothing else. (The RSI's documented zero threshold of 1e-14 on its averages is not scaled.)",
 ["inputs"],"every indicator x every history x every scale and shift",NOTESTS+" Equivariance relates two runs, which no example test does.",
 ALL+["utils/ta/ta.go"],[("formulas homogeneous in price and volume","Calculation of every indicator")],["GetData, AnalysisSide of every indicator"])
p("C08","Default and series-based constructors build the same indicator",
 "The default constructor of an indicator gives the same results as the general one with the documented default parameters, and parameters outside a documented range are taken as the nearest bound. Constructing from the extracted series gives the same results as constructing from the candles, and parameters are used in their documented order.",
 ["inputs","configurations"],"every indicator with several constructors x every history x every parameter choice",NOTESTS,
 ALL,[("NewDefault*, New*OHLC","constructors of every indicator")],["GetData, AnalysisSide"])
p("C09","Running strategies together keeps order, names and sides",
 "Running any list of strategies returns exactly one result per strategy, in the order given, each with the strategy's own name and the sides it reports when asked alone. Side names are BUY, SELL and HOLD for the three sides and UNKNOWN for anything else, one per side of a list.",
 ["inputs","configurations"],"every list of strategies, repeated ones and none included, and every side value","No test runs the strategy runner or prints sides.",
 ["utils/interface.go","utils/Side.go"],[("RunStrategies","utils/interface.go"),("Side.String, Sides.Strings","utils/Side.go")])
p("C10","Names tell the parameters, and parameters can be changed",
 "An indicator is named after its type followed by its periods in the order given, and its sides carry the same name, so results can be told apart (the Vegas tunnel leaves out its first period, UT Bot its ATR period). Setting the exported parameters of an indicator to other values and calculating again gives the values, value lists and sides of an indicator made with those parameters, whether or not it had been calculated before.",
 ["inputs","configurations","histories"],"every indicator x every history x every pair of parameter choices",NOTESTS,
 ALL,[("constructors and Calculation of every indicator","trend, channel, oscillator, volume")],["New*, exported fields, Calculation, GetData, AnalysisSide"])
p("C11","Calculating again follows the history as it now stands",
 "When the candles behind an indicator change after it was made or used (new ones appended, the latest or an earlier one corrected, the oldest dropped, the window slid, the history loaded anew), calculating it again gives the data, value lists and sides of an indicator newly made over the candles as they now stand. An indicator that copies the series out when it is made (SuperTrend, Pivot Point SuperTrend, Smart Money Concepts, UT Bot, TraderXO, EMA Vegas, Dema, Linear Regression Candles, Breakout Probability, Average Directional Index) may instead go on giving exactly what it gave for the series it copied, never a mixture.",
 ["inputs","configurations","histories"],"every indicator made from candles x every history x every sequence of changes to its candles, each followed by a calculation and reads in any order","No test changes the candles of an indicator after making it; live use does so with every trade.",
 ALL,[("Calculation reads the candles anew and replaces the data","Calculation of every indicator"),("series copied out by the constructor","trend: constructors that call GetOHLC")],["Calculation, GetData, value lists, AnalysisSide after changes of klines.Item.Candles"])
p("T01","Moving averages equal their definitions",
 "At every candle the simple averages are the mean of the last N closes (of all closes so far while fewer than N), the exponential ones follow v = (2*close + (N-1)*previous)/(N+1) from the first close, the rolling one is the running mean for the first N and then (previous*(N-1)+close)/N, and the double one is twice the exponential average less its own exponential average. The multi-average indicators (Vegas tunnel, TraderXO) report the exponential average of each of their periods.",
 ["inputs","configurations"],"every close series x every period, periods of 1 and beyond the series length included",NOTESTS,
 ["trend/Sma.go","trend/Ma.go","trend/Ema.go","trend/Dema.go","trend/Rma.go","trend/EMAVegas.go","trend/TraderXO.go","utils/ta/ta.go"],[("running sums and recurrences","utils/ta/ta.go: Sma, Ema, Rma, Dema")])
p("T02","Momentum indicators equal their definitions",
 "At every candle MACD, RSI, stochastic RSI, KDJ, CCI (both variants) and the stochastic heat map equal their published formulas computed directly from the candles: MACD line, signal and doubled histogram from exponential averages; RSI with Wilder smoothing from period N on and 0 before; stochastic RSI from window extremes of RSI, smoothed exponentially; K and D smoothed by thirds from 50, J = 3K-2D; CCI against mean deviation. Windows without range or deviation give the documented neutral value.",
 ["inputs","configurations"],"every history x every parameter choice",NOTESTS,
 ["trend/Macd.go","trend/Rsi.go","trend/StochRsi.go","trend/Kdj.go","trend/Cci.go","trend/AiCoinCCI.go","trend/StochasticHeat.go","utils/ta/ta.go"],[("Calculation of each","trend/*.go"),("window extremes, averages, deviations","utils/ta/ta.go")])
p("T03","Volatility measures and trailing stops equal their definitions",
 "True range is the largest of high-low, |high-previous close| and |low-previous close|, and ATR its rolling average; chandelier exits are the window extreme less (plus) three ATR. SuperTrend, pivot point SuperTrend and UT Bot follow their bar-by-bar recurrences: a stop only ratchets in the direction of the trend, flips when the close crosses it, and a trend begin is marked exactly at the flip.",
 ["inputs","configurations","histories"],"every history x every period, ATR period and multiplier",NOTESTS+" Ratchets and flips are history-dependent.",
 ["trend/Atr.go","trend/SuperTrend.go","trend/PivotPointSuperTrend.go","trend/UTBot.go","utils/ta/ta.go"],[("TRange, Atr, Natr, PivotHigh, PivotLow","utils/ta/ta.go"),("recurrences","trend/SuperTrend.go, trend/PivotPointSuperTrend.go, trend/UTBot.go: Calculation")])
p("T04","Directional, regression, breakout and reversal indicators equal definitions",
 "At every candle ADX with its two directional lines, the vortex lines, the linear regression candles with their signal line, the breakout levels with their percentages and win/loss counts, and the nine-count reversal signals equal their definitions computed directly from the candles. Counts and accumulations depend on the whole history before the candle and on nothing after it.",
 ["inputs","configurations","histories"],"every history x every parameter choice",NOTESTS,
 ["trend/AverageDirectionalIndex.go","trend/Vortex.go","trend/LinearRegressionCandles.go","trend/BreakoutProbability.go","trend/ReversalSignals.go","utils/ta/ta.go"],[("Calculation of each","trend/*.go"),("LinearReg, Sum","utils/ta/ta.go")])
p("T05","Smart Money Concepts marks the structure breaks that really happened",
 "For every history, each break of structure or change of character marked (short and long swings, tops and bottoms) is one where the close crossed the latest confirmed swing point not yet crossed, drawn at that swing's price from the swing's candle to the crossing, and called a change of character exactly when it goes against the prevailing trend; every such crossing is marked, except a short-swing one at the very price of the long swing point. Order blocks, strong/weak highs and lows and equal highs/lows likewise match a bar-by-bar reference; order block lists hold no duplicate, are newest first and behave as ordered sets.",
 ["inputs","configurations","histories"],"every history, longer than the swing and ATR lengths included x every swing length from 5, confirmation length and threshold",NOTESTS+" The state machine's behaviour depends on long histories.",
 ["trend/SmartMoneyConcepts.go","trend/SmartMoneyConcepts_type.go"],[("swings, obCoord, Calculation","trend/SmartMoneyConcepts.go"),("Add, Contains, Remove","trend/SmartMoneyConcepts_type.go")])
p("N01","Channel indicators equal their definitions",
 "At every candle Bollinger bands are the N-candle mean of closes plus and minus K population standard deviations, Donchian bands the window extremes of the close with their midpoint, Keltner bands the exponential average plus and minus two ATR, and the ulcer index the root of the exponentially averaged squared percentage drawdown from the window's highest close. Candles before a full Bollinger window have zero width.",
 ["inputs","configurations"],"every history x every period and width",NOTESTS,
 ["channel/Boll.go","channel/DonchianChannel.go","channel/KeltnerChannel.go","channel/UlcerIndex.go","trend/Atr.go","utils/ta/ta.go"],[("Calculation of each","channel/*.go")])
p("O01","Oscillators equal their definitions",
 "At every candle the absolute and percentage price oscillators, awesome oscillator, Chaikin oscillator, volume oscillator, stochastic oscillator, Williams %R and projection oscillator equal their definitions computed directly from the candles with the given periods. Windows without range give 0.",
 ["inputs","configurations"],"every history x every parameter choice",NOTESTS,
 ["oscillator/AbsolutePriceOscillator.go","oscillator/PercentagePriceOscillator.go","oscillator/AwesomeOscillator.go","oscillator/ChaikinOscillator.go","oscillator/VolumeOscillator.go","oscillator/StochasticOscillator.go","oscillator/WilliamsR.go","oscillator/ProjectionOscillator.go","utils/ta/ta.go","utils/regression.go"],[("Calculation of each","oscillator/*.go")])
p("O02","Ichimoku lines and Camarilla levels equal their definitions",
 "Each Ichimoku line is the midpoint of the highest high and lowest low of its own window (conversion period, 26, leading span period; span A is the mean of the first two), and the lagging line is the close shifted by its period, 0 where there is none. Each Camarilla level is the close plus or minus its fixed share of the candle's range, with pivot, average and outer levels as documented, and Camarilla sides compare the candle with the level of its own calendar day in the second history.",
 ["inputs","configurations"],"every history (and, for the sides, every pair of histories) x every parameter choice",NOTESTS,
 ["oscillator/IchimokuCloud.go","oscillator/Camarilla.go","utils/ta/ta.go"],[("Calculation, getCamarilla, AnalysisSide","oscillator/IchimokuCloud.go, oscillator/Camarilla.go")])
p("V01","Volume indicators equal their definitions",
 "At every candle accumulation/distribution, Chaikin money flow, ease of movement, force index, money flow index, negative volume index, on-balance volume, volume price trend and the volume-weighted average equal their definitions computed directly from prices and volumes. Candles without range and windows without volume contribute nothing rather than spoiling later values.",
 ["inputs","configurations","histories"],"every history, zero-range candles and zero volumes included x every period",NOTESTS,
 ["volume/AccumulationDistribution.go","volume/ChaikinMoneyFlow.go","volume/EaseOfMovement.go","volume/ForceIndex.go","volume/MoneyFlowIndex.go","volume/NegativeVolumeIndex.go","volume/Obv.go","volume/VolumePriceTrend.go","volume/Vwma.go","utils/ta/ta.go"],[("Calculation of each","volume/*.go")])
p("A01","Rolling-window primitives equal direct evaluation over each window",
 "For every series and every period from 1 to beyond its length, the rolling maximum, minimum, sum, mean, weighted mean, mean deviation, variance, standard deviation, linear regression, true range, ATR and stochastic of the technical-analysis library equal direct evaluation over each window, ties and repeated values included. Positions before a full window hold what is documented (running values or 0), and the input series is unchanged.",
 ["inputs"],"every series x every period","Only the population standard deviation of a whole slice and one streaming average are tested; no windowed primitive is.",
 ["utils/ta/ta.go","container/bst/bst.go"],[("Max, Min via the tree; Sum, Sma, MA, Wma, Dev, MeanDeviation, Variance, StdDev, LinearReg*, TRange, TrueRange, Atr, Natr, Stochastic","utils/ta/ta.go")])
p("A02","Element-wise and shift primitives of the analysis library obey their laws",
 "For every series, element-wise arithmetic, sign handling, rounding, powers, absolute values, NaN replacement and number generation act on each element independently; division by zero gives 0. Shifting by k moves each element k places and fills with the given value, differences are the series less its shift, keep-positives plus keep-negatives restores the series, and inputs are unchanged except by the in-place NaN replacement.",
 ["inputs"],"every series, zeros, negatives and NaN included x every shift, factor and digit count","None of these functions is tested.",
 ["utils/ta/ta.go"],[("Add, AddBy, Subtract, Multiply*, Divide*, Diff, PercentDiff, ShiftRight*, Round*, GenerateNumbers, Pow, ExtractSign, Keep*, Sqrt, Abs, Nz, Nzs, Cum, Mean","utils/ta/ta.go")])
p("A03","Pivots, extremes and crossings are found exactly where they are",
 "For every series, a pivot high (low) is reported exactly where the value lag candles ago is the maximum (minimum) of its left-and-right window; the search around an index returns the extreme of the clipped window and a position in it holding that value; highest/lowest over a length equal the extreme of the last elements. A crossing over (under) a level is reported exactly when the last value is strictly beyond it and the one before strictly on the other side.",
 ["inputs"],"every series, ties and negative values included x every index, left, right, length and level","None of these functions is tested.",
 ["utils/ta/ta.go","container/bst/bst.go"],[("PivotHigh, PivotLow, PivotMax, PivotMin, Highest, Lowest, CrossOver, CrossUnder","utils/ta/ta.go")])
p("A04","Streaming average over a channel equals the windowed sum",
 "For every series sent through a channel and every period, the streaming average emits exactly one value per input, in order, each the sum of the last period inputs (fewer at the start) divided by the period, and closes its output when the input closes. This holds however producer and consumer are scheduled and whatever the channel's capacity.",
 ["inputs","schedules"],"every series x every period x every channel capacity x every pacing of producer and consumer","One series, one period and one unbuffered channel are tested.",
 ["utils/ta/ta.go","helpertools/Duplicate.go","helpertools/Shift.go","helpertools/Operate.go","helpertools/Apply.go"],[("SmaT","utils/ta/ta.go"),("Duplicate, Shift, Operate, Apply","helpertools")])
p("K01","Converting candles to a longer interval conserves the data exactly",
 "For every gapless history and every multiple of its interval, each candle of the result covers one aligned window of the new interval: its open is the first open, its close the last close, high and low the window's extremes, volume the window's sum, with its change and bull flag from its own open and close. An incomplete window at the end is not converted and influences nothing; the input is unchanged, and missing, mis-scaled, gappy or insufficient data is reported as an error and never a panic.",
 ["inputs","configurations"],"every history x every pair of intervals x every start","One hand-written history is tested, with assertions that cannot fail, and its outcome depends on today's date.",
 ["utils/klines/kline.go","utils/klines/kline_type.go"],[("ConvertToNewInterval, CalculateCandleDateRanges","utils/klines/kline.go")])
p("K02","Filtering, de-duplicating and sorting candles lose and invent nothing",
 "Removing candles outside a range keeps exactly those at or after the start and before the end, in order; the copying variant leaves the original candles alone and shares nothing with them. De-duplication keeps exactly the first candle of each time in order and is idempotent; sorting by time permutes the candles into ascending (or, when asked, descending) order; clearing leaves no candle.",
 ["inputs","histories"],"every list of candles, unsorted and repeated times included x every range x every sequence of these operations","One three-candle sort is tested, and that test failed before this work; the other operations are not tested.",
 ["utils/klines/kline.go"],[("RemoveOutsideRange, RemoveOutsideRangeCopy, RemoveDuplicates, SortCandlesByTimestamp, Clear","utils/klines/kline.go")])
p("K03","Date ranges are split into contiguous intervals within the limit",
 "For every start, end, interval and limit, the ranges tile the rounded period without gap or overlap: each range starts where the previous one ends, holds at most the limit of equally long intervals, and together they hold exactly the number of intervals in the period; a limit of zero means one range. Asking for data at a date answers from exactly the interval containing it, interval counts are whole intervals between two dates, and unset or reversed dates and invalid intervals are errors.",
 ["inputs","configurations"],"every start, end, interval and limit, partial last ranges and exact multiples included","Only reached through one interval conversion; no limit other than the default is ever used.",
 ["utils/klines/kline.go","utils/commonutils/common.go"],[("CalculateCandleDateRanges, HasDataAtDate, TotalCandlesPerInterval, CreateIntervalTime, Equal","utils/klines/kline.go"),("StartEndTimeCheck","utils/commonutils/common.go")])
p("K04","Derived price series and Heikin-Ashi candles equal their definitions",
 "The extracted series hold each candle's own fields in order, and the derived prices are the means of high+low, high+low+close and all four prices. Each Heikin-Ashi candle closes at the mean of the four prices, opens at the middle of the previous candle's body (its own for the first), spans low <= open <= high and the whole original candle, and keeps time, direction and change of the original; the original is unchanged.",
 ["inputs"],"every list of candles","The Heikin-Ashi test is commented out; the others have none.",
 ["utils/klines/technical_analysis.go"],[("GetOHLC, ToHeikinAshi, HL2, HLC3, OHLC4","utils/klines/technical_analysis.go")])
p("B01","The search tree is an exact multiset with minimum and maximum",
 "After every sequence of insertions and removals, repeated values included, the tree's minimum and maximum are those of the multiset of values inserted and not yet removed, or none when it is empty. A removal reports true exactly when the value was present, and takes out exactly one occurrence.",
 ["histories"],"every sequence of insert, bulk insert, remove, min and max over repeated values, for floats, integers and user-defined comparables","Two short fixed sequences are tested.",
 ["container/bst/bst.go","container/comparable.go"],[("Insert, Remove, removeNode, Min, Max","container/bst/bst.go")],None,[{"name":"root","meaning":"the stored multiset","where":"container/bst/bst.go: Tree"}])
p("B02","The queue returns values in exactly the order they were put in",
 "After every sequence of enqueues and dequeues, each dequeue returns the oldest value not yet taken, and the queue is empty exactly when all values were taken. Dequeuing from an empty queue panics and does not disturb later use.",
 ["histories"],"every sequence of enqueue, dequeue and emptiness queries, with values of any kind, nil included","One fixed sequence is tested.",
 ["container/queue/queue.go"],[("Enqueue, Dequeue, Empty","container/queue/queue.go")])
p("B03","Comparison is a total order on numbers and defers to comparables",
 "Comparing two floats or two integers gives -1, 0 or 1 exactly as less, equal or greater, so that it is antisymmetric and transitive over the full range of values. Values with their own comparison are compared by it, in the order given, and anything else panics rather than giving an answer.",
 ["inputs"],"every pair and triple of floats (infinities included) and 64-bit integers (extremes included)","The comparison has no test of its own.",
 ["container/comparable.go"],[("Compare","container/comparable.go")])
p("H01","Channel helpers deliver every value, in order, and then close",
 "Every channel helper emits exactly the sequence its slice counterpart would (map, pairwise operation up to the shorter input, duplicates, shift with fill, skip, round, copy) for every input, count and channel capacity, whatever the pacing of producer and consumer. After the inputs close, every output closes and no helper goroutine stays behind, also when one of two inputs ends first or a skip exceeds the input.",
 ["inputs","schedules"],"every input sequence x every count and capacity x every pacing of producers and consumers x every composition of helpers","One short sequence per helper is tested, unbuffered, with both inputs of equal length.",
 ["helpertools"],[("Apply, Operate, Duplicate, Shift, Skip, Pipe, Drain, RoundDigits, Slice2Chan, Chan2Slice","helpertools/*.go")])
p("H02","Comparing channels succeeds exactly when every pair is equal",
 "For any list of channels the comparison returns no error exactly when their number is even and each pair delivers the same values in the same order and ends together, whichever pair differs and whichever ends first. An odd number of channels, a differing value or a differing length is an error.",
 ["inputs"],"every list of pairs of sequences, of equal and different lengths, with a difference anywhere or nowhere","Single pairs only are tested, with the difference in the first elements or the length.",
 ["helpertools/CheckEquals.go"],[("CheckEquals","helpertools/CheckEquals.go")])
p("L01","Least-squares fits minimise the error, whole-series and moving",
 "For every set of points with distinct x, the fitted line is the least-squares line: it reproduces points on a line exactly (up to rounding), its residuals sum to zero and are uncorrelated with x. The moving fit at each position equals the fit of the last period points (all points while fewer, from the second on), and the fitted series are the lines evaluated at x.",
 ["inputs"],"every point set x every period","The regression functions have no test.",
 ["utils/regression.go"],[("LeastSquare, MovingLeastSquare, LinearRegressionUsingLeastSquare, MovingLinearRegressionUsingLeastSquare","utils/regression.go")])
p("U01","Decimal rounding and parsing are exact",
 "Rounding to d digits returns the multiple of ten to the minus d nearest to the value, halves away from zero, for positive, zero and (in the decimal-exponent form) negative digit counts, and rounding twice is rounding once. Parsing a formatted number returns that number exactly, and anything that is not a numeric string is an error with value 0.",
 ["inputs"],"every value x every digit count; every string and every non-string value","One streamed rounding and no parsing case is tested.",
 ["utils/commonutils/common.go","utils/ta/ta.go","helpertools/RoundDigit.go"],[("FormatDecimalFloat64, FloatFromString","utils/commonutils/common.go"),("RoundDigits, RoundDigitsAll","utils/ta/ta.go"),("RoundDigit","helpertools/RoundDigit.go")])
p("U02","Decoding JSON candles restores exactly what was encoded",
 "For every list of candles, encoding to JSON and decoding returns the same candles field by field, omitted zero fields included, and reading a file returns its bytes. Malformed or truncated input and non-pointer targets are errors and never a panic.",
 ["inputs","fault_sequences"],"every list of candles and every truncation or corruption of its encoding","No decoding test exists; the test helper reads a file that is missing.",
 ["utils/commonutils/common.go","utils/klines/kline_type.go"],[("JSONDecode, ReadFile","utils/commonutils/common.go"),("field tags","utils/klines/kline_type.go: Candle")])
p("U03","Date pairs are accepted exactly when set, ordered and not in the future",
 "A start and end date are accepted exactly when both are set, the start is strictly before the end and not after the present; otherwise the error names the first of: start unset, end unset, start after end, start equal to end, start in the future. The verdict depends on the instants only, not on their time zones.",
 ["inputs"],"every pair of instants in every pair of zones, the zero and epoch instants included","No test covers the check.",
 ["utils/commonutils/common.go"],[("StartEndTimeCheck","utils/commonutils/common.go")])
p("U04","Text forms show a candle's, a reading's and an interval's own values",
 "For every candle, its text shows its own time (in the local zone), open, high, low, close, volume, direction and change in percent, each rounded to the printed digits; the text of a directional-index reading shows its time and its three values likewise; the text of an interval parses back to exactly that interval, which is also its duration. Printing changes nothing.",
 ["inputs"],"every candle, reading and interval, negative values, halves of the last digit and times before 1970 included","No test looks at the text of anything.",
 ["utils/klines/kline_type.go","utils/klines/kline.go","trend/AverageDirectionalIndex.go"],[("Candle.String","utils/klines/kline_type.go"),("Interval.String, Interval.Duration","utils/klines/kline.go"),("AverageDirectionalIndexData.String","trend/AverageDirectionalIndex.go")])
p("M01","The example program reports every candle with every strategy's side",
 "Run over a data file of candles, the example program prints exactly one line per candle, in order: its number from 1, its time, its close to two places, and for each of its eleven strategies in their order the name and the side that strategy reports for that candle when asked alone, BUY in green and SELL in red. The loader of the data file returns exactly the candles in it, as half-hour candles; a missing or malformed file is a failure and never a partial result.",
 ["inputs","fault_sequences"],"every list of candles in data/test.json and every damaged or missing file","The data file is not in the repository, so neither the program nor the loader runs in any test.",
 ["main.go","utils/helper.go","utils/interface.go"],[("main, getColorSide","main.go"),("GetTestKlineItem","utils/helper.go"),("RunStrategies","utils/interface.go")])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
