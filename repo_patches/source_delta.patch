From 9f8210fae59d4e7685a82018e7b4b4ff2a430ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 01/40] fix: ta.Atr and ta.Natr panicked when there were not
 more values than the period

---
 utils/ta/ta.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 6f6fffc..e27ddc0 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -451,6 +451,11 @@ func Atr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int)
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	// 数据不足一个周期
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	outIdx := inTimePeriod
 	today := inTimePeriod + 1
 
@@ -483,6 +488,11 @@ func Natr(inHigh []float64, inLow []float64, inClose []float64, inTimePeriod int
 		return TRange(inHigh, inLow, inClose)
 	}
 
+	// 数据不足一个周期
+	if len(inClose) <= inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	outIdx := inTimePeriod
 	today := inTimePeriod
-- 
2.43.0


From c67eb2881691099db6b2dda873dd0db013e1dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 02/40] fix: ta.LinearReg*, ta.Variance and ta.Wma panicked on
 fewer values than the period

---
 utils/ta/ta.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index e27ddc0..b4877d5 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -13,6 +13,10 @@ func LinearReg(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -52,6 +56,10 @@ func LinearRegAngle(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -90,6 +98,10 @@ func LinearRegIntercept(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -128,6 +140,10 @@ func LinearRegSlope(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	inTimePeriodF := float64(inTimePeriod)
 	lookbackTotal := inTimePeriod
 	startIdx := lookbackTotal
@@ -343,6 +359,10 @@ func Wma(period int, values []float64) []float64 {
 
 	result := make([]float64, len(values))
 
+	if len(values) < period {
+		return result
+	}
+
 	lookbackTotal := period - 1
 	startIdx := lookbackTotal
 
@@ -1011,6 +1031,10 @@ func TrueRange(inHigh, inLow, inClose []float64) []float64 {
 func Variance(inReal []float64, inTimePeriod int) []float64 {
 	outReal := make([]float64, len(inReal))
 
+	if len(inReal) < inTimePeriod {
+		return outReal
+	}
+
 	nbInitialElementNeeded := inTimePeriod - 1
 	startIdx := nbInitialElementNeeded
 	periodTotal1 := 0.0
-- 
2.43.0


From b5b6ae8e49385f960d93791fd3695603aa8d4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 03/40] fix: ta.Rma left out the first value of the series

---
 utils/ta/ta.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index b4877d5..e6f59b6 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -309,9 +309,6 @@ func Rma(period int, values []float64) []float64 {
 	sum := float64(0)
 
 	for i, value := range values {
-		if i < 1 {
-			continue
-		}
 		count := i + 1
 		if i < period {
 			sum += value
-- 
2.43.0


From e3dfe8708a13ec8b93d8394228e049c6aed9fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 04/40] fix: ta.CCI returned NaN on windows without deviation

---
 utils/ta/ta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index e6f59b6..66de52e 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -421,6 +421,9 @@ func CCI(hlc3 []float64, period, smaPeriod int) []float64 {
 	// 计算CCI值
 	for i := period - 1; i < len(hlc3); i++ {
 		typicalPrice := typicalPrices[i]
+		if md[i] == 0 {
+			continue
+		}
 		cci := (typicalPrice - ma[i]) / (0.015 * md[i])
 		ccis[i] = cci
 	}
-- 
2.43.0


From ffb22081410a69557ecc75e2391ca59d07b7bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 05/40] fix: ta.SD returned NaN for an empty slice

---
 utils/ta/ta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 66de52e..8589ebf 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -216,6 +216,10 @@ func Stochastic(closing, highs, lows []float64, period int) (k, d []float64) {
 
 // StdDev - 标准差
 func SD(values []float64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
 	// 首先计算收盘价的平均值
 	sum := 0.0
 	for _, k := range values {
-- 
2.43.0


From 7460e1ddc2f7ad5513439cf9212be5733008e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 06/40] fix: ta.PivotMax and ta.PivotMin ignored a two-sided
 extreme, and PivotMax negative values

---
 utils/ta/ta.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 8589ebf..3820d35 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -872,10 +872,8 @@ func PivotLow(values []float64, left, right int) []float64 {
 
 // PivotMax 以 index 为起始点，向 左、右 开始查找最大值
 func PivotMax(values []float64, index, left, right int) (val float64, position int) {
-	var leftVal, rightVal float64
-
-	// val = values[index]
-	position = index
+	var leftVal = values[index]
+	var rightVal = values[index]
 
 	var leftPositions = index
 	var rightPositions = index
@@ -903,12 +901,10 @@ func PivotMax(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal > rightVal {
+	if leftVal >= rightVal {
 		return leftVal, leftPositions
-	} else if leftVal < rightVal {
-		return rightVal, rightPositions
 	}
-	return values[index], index
+	return rightVal, rightPositions
 
 }
 
@@ -945,12 +941,10 @@ func PivotMin(values []float64, index, left, right int) (val float64, position i
 		}
 	}
 
-	if leftVal < rightVal {
+	if leftVal <= rightVal {
 		return leftVal, leftPositions
-	} else if leftVal > rightVal {
-		return rightVal, rightPositions
 	}
-	return values[index], index
+	return rightVal, rightPositions
 
 }
 
-- 
2.43.0


From 8f92e759731cc33adf2eb1cfae911be0629bd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:15 +0000
Subject: [PATCH 07/40] fix: SortCandlesByTimestamp sorted in the opposite
 order

---
 utils/klines/kline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index d495109..ec5a278 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -192,10 +192,10 @@ func (e *Item) RemoveDuplicates() {
 // SortCandlesByTimestamp sorts candles by timestamp
 func (e *Item) SortCandlesByTimestamp(desc bool) {
 	if desc {
-		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
+		sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
 		return
 	}
-	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix > e.Candles[j].TimeUnix })
+	sort.Slice(e.Candles, func(i, j int) bool { return e.Candles[i].TimeUnix < e.Candles[j].TimeUnix })
 }
 
 // addPadding 插入填充时间对齐，当交易所不提供所有数据时
-- 
2.43.0


From 28a426ab75d26e470b676a92495c8c22e1816899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 08/40] fix: ConvertToNewInterval panicked without candles and
 on ranges it cannot calculate

---
 utils/klines/kline.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index ec5a278..4fe0700 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -45,6 +45,10 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 			newInterval)
 	}
 
+	if len(e.Candles) == 0 {
+		return nil, fmt.Errorf("%w to %v no candle data", ErrInsufficientCandleData, newInterval)
+	}
+
 	start := time.Unix(e.Candles[0].TimeUnix, 0)
 	end := time.Unix(e.Candles[len(e.Candles)-1].TimeUnix, 0).Add(e.Interval.Duration())
 	window := end.Sub(start)
@@ -78,7 +82,7 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	// 有的时候不取整，重新计算开始、结束时间
 	newIntervalRangeHolder, err := CalculateCandleDateRanges(start, end, newInterval, 100000)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	var target int
-- 
2.43.0


From 23a8013a0b2d366254d0f97854f3494671958f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 09/40] fix: ConvertToNewInterval took the left-over candles
 into the high and low of the last candle

---
 utils/klines/kline.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/klines/kline.go b/utils/klines/kline.go
index 4fe0700..2a87dac 100644
--- a/utils/klines/kline.go
+++ b/utils/klines/kline.go
@@ -103,6 +103,11 @@ func (e *Item) ConvertToNewInterval(newInterval Interval) (*Item, error) {
 	target = 0
 	for x := range e.Candles {
 
+		// 剩余的不完整蜡烛不属于最后一根新蜡烛
+		if e.Candles[x].TimeUnix >= candles[target].TimeUnix+int64(newInterval.Duration().Seconds()) {
+			break
+		}
+
 		if e.Candles[x].TimeUnix == candles[target].TimeUnix && candles[target].Open == 0 {
 			candles[target].Open = e.Candles[x].Open
 		}
-- 
2.43.0


From 3eeca489c95efb00f2aac5cb9879b79b25079afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 10/40] fix: ToHeikinAshi took the maximum for the low, and the
 second open from its own candle

---
 utils/klines/technical_analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/klines/technical_analysis.go b/utils/klines/technical_analysis.go
index 8874c74..c716f25 100644
--- a/utils/klines/technical_analysis.go
+++ b/utils/klines/technical_analysis.go
@@ -50,7 +50,7 @@ func (e *Item) ToHeikinAshi() *Item {
 	for index, candle := range e.Candles {
 
 		var open = (candle.Open + candle.Close) / 2
-		if index > 1 {
+		if index > 0 {
 			var prev = e.Candles[index-1]
 			open = (prev.Open + prev.Close) / 2
 		}
@@ -59,7 +59,7 @@ func (e *Item) ToHeikinAshi() *Item {
 			Open:     open,
 			Close:    (candle.Open + candle.High + candle.Low + candle.Close) / 4,
 			High:     math.Max(candle.High, math.Max(open, candle.Close)),
-			Low:      math.Max(candle.Low, math.Min(open, candle.Close)),
+			Low:      math.Min(candle.Low, math.Min(open, candle.Close)),
 			TimeUnix: candle.TimeUnix,
 		}
 
-- 
2.43.0


From 2791f1e05b14eec190067343e839477927e0ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 11/40] fix: trend.Rma returned twice as many entries as
 candles

---
 trend/Rma.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trend/Rma.go b/trend/Rma.go
index 220e058..be0ae2e 100644
--- a/trend/Rma.go
+++ b/trend/Rma.go
@@ -43,10 +43,10 @@ func (e *Rma) Calculation() *Rma {
 	e.data = make([]RmaData, len(rma))
 	for i, value := range rma {
 
-		e.data = append(e.data, RmaData{
+		e.data[i] = RmaData{
 			Time:  time.Unix(e.kline.Candles[i].TimeUnix, 0),
 			Value: value,
-		})
+		}
 	}
 
 	return e
-- 
2.43.0


From 67eb76b93916ad8f11c1b779fa0611f83de860e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 12/40] fix: trend.Atr ignored downward gaps and took the first
 true range against a close of zero

---
 trend/Atr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trend/Atr.go b/trend/Atr.go
index 56d4b84..24ca2f5 100644
--- a/trend/Atr.go
+++ b/trend/Atr.go
@@ -52,11 +52,11 @@ func (e *Atr) Calculation() *Atr {
 		// klineItem := e.kline[i]
 		var AtrPointStruct AtrData
 		// TR= | 最高价 - 最低价 | 和 | 最高价 - 昨日收盘价 | 和 | 昨日收盘价 - 最低价 | 的最大值
-		var prevClose float64
+		tr[i] = math.Abs(highs[i] - lows[i])
 		if i != 0 {
-			prevClose = closes[i-1]
+			prevClose := closes[i-1]
+			tr[i] = math.Max(tr[i], math.Max(math.Abs(highs[i]-prevClose), math.Abs(prevClose-lows[i])))
 		}
-		tr[i] = math.Max(highs[i]-lows[i], math.Max(highs[i]-prevClose, lows[i]-prevClose))
 		AtrPointStruct.Time = time.Unix(e.kline.Candles[i].TimeUnix, 0)
 	}
 	var atr = ta.Rma(e.Period, tr)
-- 
2.43.0


From 7c520635e81b5773ca3ac64da3dd744fa75a4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 13/40] fix: AverageDirectionalIndex returned NaN, and an ADX
 stuck at 0, after candles without movement

---
 trend/AverageDirectionalIndex.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trend/AverageDirectionalIndex.go b/trend/AverageDirectionalIndex.go
index 7eef250..23469c8 100644
--- a/trend/AverageDirectionalIndex.go
+++ b/trend/AverageDirectionalIndex.go
@@ -122,9 +122,13 @@ func (e *AverageDirectionalIndex) Calculation() *AverageDirectionalIndex {
 	dx := make([]float64, len(close))
 
 	for i := e.Period - 1; i < len(close); i++ {
-		plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
-		minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
-		dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / (plusDI[i] + minusDI[i]))
+		if smoothedTR[i] != 0 {
+			plusDI[i] = (smoothedPlusDM[i] / smoothedTR[i]) * 100
+			minusDI[i] = (smoothedMinusDM[i] / smoothedTR[i]) * 100
+		}
+		if sum := plusDI[i] + minusDI[i]; sum != 0 {
+			dx[i] = 100 * (math.Abs(plusDI[i]-minusDI[i]) / sum)
+		}
 	}
 
 	// 对 DX 进行平滑处理
-- 
2.43.0


From adc378a1015c08e6972f87b14ec2cf4b4ccb6642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 14/40] fix: Boll.AnalysisSide could never return a sell signal

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index ec3a1ad..44c6080 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -139,7 +139,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 		if price > v.Upper && prevPrice < prevItem.Upper {
 			sides[i] = utils.Buy
-		} else if price < v.Lower && prevPrice > prevPrice {
+		} else if price < v.Lower && prevPrice > prevItem.Lower {
 			sides[i] = utils.Sell
 		} else {
 			sides[i] = utils.Hold
-- 
2.43.0


From fbb04b01d5ba9c724e6bd5559e017f9180919d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 15/40] fix: Boll ignored the band width PeriodK

---
 channel/Boll.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index 44c6080..f32fd97 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -100,8 +100,9 @@ func (e *Boll) Calculation() *Boll {
 
 	var middle = trend.NewSma(e.kline, e.PeriodN).GetValues()
 	var md = e.dma(middle)
-	var upper = ta.Add(middle, md)
-	var lower = ta.Subtract(middle, md)
+	var width = ta.MultiplyBy(md, float64(e.PeriodK))
+	var upper = ta.Add(middle, width)
+	var lower = ta.Subtract(middle, width)
 
 	for i := range middle {
 		e.data[i] = BollData{
-- 
2.43.0


From 4ab44d9eed483e02dd45cff26e0ad201fc696afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 16/40] fix: Boll returned NaN bands on flat prices

---
 channel/Boll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/Boll.go b/channel/Boll.go
index f32fd97..05d0989 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -83,7 +83,7 @@ func (e *Boll) dma(sma []float64) []float64 {
 		if i < period-1 {
 			result[i] = 0.0
 		} else {
-			result[i] = math.Sqrt(sum2/float64(period) - sma[i]*sma[i])
+			result[i] = math.Sqrt(math.Max(sum2/float64(period)-sma[i]*sma[i], 0))
 			w := e.kline.Candles[i-(period-1)].Close
 			sum2 -= w * w
 		}
-- 
2.43.0


From d80211c8815756f5750d8199e56a45b0a41263f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 17/40] fix: the Ichimoku conversion line took its high over 9
 candles whatever its period

---
 oscillator/IchimokuCloud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 7219c7a..5c11f94 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -69,7 +69,7 @@ func (e *IchimokuCloud) Calculation() *IchimokuCloud {
 	var closing = ohlc.Close
 
 	// 转换线
-	conversionLine := ta.DivideBy(ta.Add(ta.Max(9, high), ta.Min(conversionPeriod, low)), float64(2))
+	conversionLine := ta.DivideBy(ta.Add(ta.Max(conversionPeriod, high), ta.Min(conversionPeriod, low)), float64(2))
 	// 基线
 	baseLine := ta.DivideBy(ta.Add(ta.Max(26, high), ta.Min(26, low)), float64(2))
 	// 先行带A（Senkou Span A）：通过转换线和基线的移动平均值预计未来26日内趋势
-- 
2.43.0


From 4c496912187d1637f4a069fc65e525d2821bb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 18/40] fix: WilliamsR returned NaN on windows without range

---
 oscillator/WilliamsR.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 369ec03..4e956fa 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -60,6 +60,9 @@ func (e *WilliamsR) Calculation() *WilliamsR {
 	result := make([]float64, len(closing))
 
 	for i := 0; i < len(closing); i++ {
+		if highestHigh[i] == lowestLow[i] {
+			continue
+		}
 		result[i] = (highestHigh[i] - closing[i]) / (highestHigh[i] - lowestLow[i]) * float64(-100)
 	}
 
-- 
2.43.0


From 2e6b3df2b137c2b982b2fd0f44044681e1f79043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 19/40] fix: a second Calculation() appended its entries to
 those of the first

---
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 channel/UlcerIndex.go                   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/Ma.go                             | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/Vortex.go                         | 1 +
 volume/AccumulationDistribution.go      | 1 +
 volume/ChaikinMoneyFlow.go              | 1 +
 volume/EaseOfMovement.go                | 1 +
 volume/ForceIndex.go                    | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 volume/NegativeVolumeIndex.go           | 1 +
 volume/Obv.go                           | 1 +
 volume/VolumePriceTrend.go              | 1 +
 volume/Vwma.go                          | 1 +
 26 files changed, 26 insertions(+)

diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 8337214..4ce6a5b 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -49,6 +49,7 @@ func NewDefaultDonchianChannel(klineItem *klines.Item) *DonchianChannel {
 
 // Calculation Func
 func (e *DonchianChannel) Calculation() *DonchianChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f2246ed..f0eb736 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -50,6 +50,7 @@ func NewDefaultKeltnerChannel(klineItem *klines.Item) *KeltnerChannel {
 
 // Calculation Func
 func (e *KeltnerChannel) Calculation() *KeltnerChannel {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/channel/UlcerIndex.go b/channel/UlcerIndex.go
index 018053f..7df5029 100644
--- a/channel/UlcerIndex.go
+++ b/channel/UlcerIndex.go
@@ -46,6 +46,7 @@ func NewDefaultUlcerIndex(klineItem *klines.Item) *UlcerIndex {
 
 // Calculation Func
 func (e *UlcerIndex) Calculation() *UlcerIndex {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index 30ab85d..d1ebf9c 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -34,6 +34,7 @@ func NewAwesomeOscillator(klineItem *klines.Item) *AwesomeOscillator {
 
 // Calculation Func
 func (e *AwesomeOscillator) Calculation() *AwesomeOscillator {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index dc363c8..72c1c5a 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -49,6 +49,7 @@ func NewDefaultChaikinOscillator(klineItem *klines.Item) *ChaikinOscillator {
 
 // Calculation Func
 func (e *ChaikinOscillator) Calculation() *ChaikinOscillator {
+	e.data = nil
 
 	ad := volume.NewAccumulationDistribution(e.kline).GetValues()
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index 5c11f94..e762478 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -59,6 +59,7 @@ func NewDefaultIchimokuCloud(klineItem *klines.Item) *IchimokuCloud {
 
 // Calculation Func
 func (e *IchimokuCloud) Calculation() *IchimokuCloud {
+	e.data = nil
 
 	conversionPeriod := e.ConversionPeriod
 	leadingSpanBPeriod := e.LeadingSpanBPeriod
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 6216947..82d71c7 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -53,6 +53,7 @@ func NewDefaultPercentagePriceOscillator(klineItem *klines.Item) *PercentagePric
 
 // Calculation Func
 func (e *PercentagePriceOscillator) Calculation() *PercentagePriceOscillator {
+	e.data = nil
 
 	var fastPeriod = e.FastPeriod
 	var slowPeriod = e.SlowPeriod
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index ca8b2e5..9dff989 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -47,6 +47,7 @@ func NewDefaultProjectionOscillator(klineItem *klines.Item) *ProjectionOscillato
 
 // Calculation Func
 func (e *ProjectionOscillator) Calculation() *ProjectionOscillator {
+	e.data = nil
 
 	period := e.Period
 	smooth := e.Smooth
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 013c3eb..8697b12 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -48,6 +48,7 @@ func NewDefaultStochasticOscillator(klineItem *klines.Item) *StochasticOscillato
 
 // Calculation Func
 func (e *StochasticOscillator) Calculation() *StochasticOscillator {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 4e956fa..28d576b 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -46,6 +46,7 @@ func NewDefaultWilliamsR(klineItem *klines.Item) *WilliamsR {
 
 // Calculation Func
 func (e *WilliamsR) Calculation() *WilliamsR {
+	e.data = nil
 
 	var period = e.Period
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index e8731b5..4cef15d 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -60,6 +60,7 @@ func ComputeCCI(close, matp, md []float64) []float64 {
 
 // Calculation Func
 func (e *AiCoinCCI) Calculation() *AiCoinCCI {
+	e.data = nil
 
 	close := e.kline.GetOHLC().Close
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 2218832..23347ab 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -68,6 +68,7 @@ func NewDefaultCci(klineItem *klines.Item) *Cci {
 
 // Calculation Func
 func (e *Cci) Calculation() *Cci {
+	e.data = nil
 
 	hlc3 := e.kline.HLC3()
 
diff --git a/trend/Ma.go b/trend/Ma.go
index 48e6802..e4167d3 100644
--- a/trend/Ma.go
+++ b/trend/Ma.go
@@ -47,6 +47,7 @@ func (e *Ma) GetData() []MaData {
 
 // Calculation Func
 func (e *Ma) Calculation() *Ma {
+	e.data = nil
 
 	closes := e.kline.GetOHLC().Close
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 1e6367e..f452e15 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -38,6 +38,7 @@ func NewDefaultRsi(klineItem *klines.Item) *Rsi {
 
 // Calculation Func
 func (e *Rsi) Calculation() *Rsi {
+	e.data = nil
 
 	rsiArray := e.rsi(e.kline.GetOHLC().Close, e.Period)
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index 8fb30e8..fb1b1e2 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -47,6 +47,7 @@ func NewDefaultStochRsi(klineItem *klines.Item) *StochRsi {
 
 // Calculation Func
 func (e *StochRsi) Calculation() *StochRsi {
+	e.data = nil
 
 	rsi := NewRsi(e.kline, e.RsiLength).GetValue()
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 47df486..3bf31e7 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -57,6 +57,7 @@ func NewDefaultStochasticHeat(klineItem *klines.Item) *StochasticHeat {
 
 // Calculation Func
 func (e *StochasticHeat) Calculation() *StochasticHeat {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var highs = ohlc.High
diff --git a/trend/Vortex.go b/trend/Vortex.go
index de3fc7b..11d71ba 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -39,6 +39,7 @@ func NewDefaultVortex(klineItem *klines.Item) *Vortex {
 
 // Calculation Func
 func (e *Vortex) Calculation() *Vortex {
+	e.data = nil
 
 	period := e.Period
 
diff --git a/volume/AccumulationDistribution.go b/volume/AccumulationDistribution.go
index 23bcba0..f380d26 100644
--- a/volume/AccumulationDistribution.go
+++ b/volume/AccumulationDistribution.go
@@ -45,6 +45,7 @@ func NewDefaultAccumulationDistribution(klineItem *klines.Item) *AccumulationDis
 
 // Calculation Func
 func (e *AccumulationDistribution) Calculation() *AccumulationDistribution {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var high = ohlc.High
diff --git a/volume/ChaikinMoneyFlow.go b/volume/ChaikinMoneyFlow.go
index 6f33759..cb5313e 100644
--- a/volume/ChaikinMoneyFlow.go
+++ b/volume/ChaikinMoneyFlow.go
@@ -50,6 +50,7 @@ func NewDefaultChaikinMoneyFlow(klineItem *klines.Item) *ChaikinMoneyFlow {
 
 // Calculation Func
 func (e *ChaikinMoneyFlow) Calculation() *ChaikinMoneyFlow {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/EaseOfMovement.go b/volume/EaseOfMovement.go
index 513c2f9..0ce63de 100644
--- a/volume/EaseOfMovement.go
+++ b/volume/EaseOfMovement.go
@@ -46,6 +46,7 @@ func NewDefaultEaseOfMovement(klineItem *klines.Item) *EaseOfMovement {
 
 // Calculation Func
 func (e *EaseOfMovement) Calculation() *EaseOfMovement {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/ForceIndex.go b/volume/ForceIndex.go
index d6f095b..2674839 100644
--- a/volume/ForceIndex.go
+++ b/volume/ForceIndex.go
@@ -42,6 +42,7 @@ func NewDefaultForceIndex(klineItem *klines.Item) *ForceIndex {
 
 // Calculation Func
 func (e *ForceIndex) Calculation() *ForceIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index a3b45d8..d558733 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -49,6 +49,7 @@ func NewDefaultMoneyFlowIndex(klineItem *klines.Item) *MoneyFlowIndex {
 
 // Calculation Func
 func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/NegativeVolumeIndex.go b/volume/NegativeVolumeIndex.go
index c8a659e..3fb8a3f 100644
--- a/volume/NegativeVolumeIndex.go
+++ b/volume/NegativeVolumeIndex.go
@@ -44,6 +44,7 @@ func NewDefaultNegativeVolumeIndex(klineItem *klines.Item) *NegativeVolumeIndex
 
 // Calculation Func
 func (e *NegativeVolumeIndex) Calculation() *NegativeVolumeIndex {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
diff --git a/volume/Obv.go b/volume/Obv.go
index 644a48c..44c3e4f 100644
--- a/volume/Obv.go
+++ b/volume/Obv.go
@@ -33,6 +33,7 @@ func NewObv(klineItem *klines.Item) *Obv {
 
 // Calculation Func
 func (e *Obv) Calculation() *Obv {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closes = ohlc.Close
diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index 932ea4f..a487ab1 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -42,6 +42,7 @@ func NewDefaultVolumePriceTrend(klineItem *klines.Item) *VolumePriceTrend {
 
 // Calculation Func
 func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
+	e.data = nil
 
 	period := e.Period
 	var ohlc = e.kline.GetOHLC()
diff --git a/volume/Vwma.go b/volume/Vwma.go
index a0efa2a..cde0592 100644
--- a/volume/Vwma.go
+++ b/volume/Vwma.go
@@ -45,6 +45,7 @@ func NewDefaultVwma(klineItem *klines.Item) *Vwma {
 
 // Calculation Func
 func (e *Vwma) Calculation() *Vwma {
+	e.data = nil
 
 	var ohlc = e.kline.GetOHLC()
 	var closing = ohlc.Close
-- 
2.43.0


From 7cbaef485e55d270663b10b8aa733bce9892f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 20/40] fix: VolumePriceTrend panicked without candles

---
 volume/VolumePriceTrend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/volume/VolumePriceTrend.go b/volume/VolumePriceTrend.go
index a487ab1..e2a3cfd 100644
--- a/volume/VolumePriceTrend.go
+++ b/volume/VolumePriceTrend.go
@@ -49,6 +49,10 @@ func (e *VolumePriceTrend) Calculation() *VolumePriceTrend {
 	var closing = ohlc.Close
 	var volume = ohlc.Volume
 
+	if len(closing) == 0 {
+		return e
+	}
+
 	previousClosing := ta.ShiftRightAndFillBy(period, closing[0], closing)
 	vpt := ta.Multiply(volume, ta.Divide(ta.Subtract(closing, previousClosing), previousClosing))
 	vals := ta.Sum(len(vpt), vpt)
-- 
2.43.0


From b2c061979273361280d188b19f024a866652af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 21/40] fix: MoneyFlowIndex was 0 instead of 100 on windows
 without negative money flow

---
 volume/MoneyFlowIndex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index d558733..6d47061 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -70,11 +70,11 @@ func (e *MoneyFlowIndex) Calculation() *MoneyFlowIndex {
 	positiveMoneyFlow := ta.KeepPositives(moneyFlow)
 	negativeMoneyFlow := ta.KeepNegatives(moneyFlow)
 
-	moneyRatio := ta.Divide(
-		ta.Sum(period, positiveMoneyFlow),
-		ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1)))
+	positiveSum := ta.Sum(period, positiveMoneyFlow)
+	negativeSum := ta.Sum(period, ta.MultiplyBy(negativeMoneyFlow, -1))
 
-	moneyFlowIndex := ta.AddBy(ta.MultiplyBy(ta.Pow(ta.AddBy(moneyRatio, 1), -1), -100), 100)
+	// 100 - 100/(1+positive/negative)
+	moneyFlowIndex := ta.MultiplyBy(ta.Divide(positiveSum, ta.Add(positiveSum, negativeSum)), 100)
 
 	for i := 0; i < len(moneyFlowIndex); i++ {
 		e.data = append(e.data, MoneyFlowIndexData{
-- 
2.43.0


From 7b9f68a8bc02348b631c904d0dc8bdcb38a9382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 22/40] fix: ta.Sum kept the rounding residue of values that
 left the window, so that ratios of sums ran out of range

---
 utils/ta/ta.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 3820d35..63405d0 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -954,10 +954,14 @@ func Sum(period int, values []float64) []float64 {
 	sum := 0.0
 
 	for i := 0; i < len(values); i++ {
-		sum += values[i]
-
-		if i >= period {
-			sum -= values[i-period]
+		if i < period {
+			sum += values[i]
+		} else {
+			// 重新求和，不用减法，避免残留的舍入误差
+			sum = 0
+			for _, value := range values[i-period+1 : i+1] {
+				sum += value
+			}
 		}
 
 		result[i] = sum
-- 
2.43.0


From a02932879f5fde1771bb44a20455052d5d248b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 23/40] fix: Rsi panicked when there were as many candles as
 the period

---
 trend/Rsi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Rsi.go b/trend/Rsi.go
index f452e15..0509808 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -105,7 +105,7 @@ func (e *Rsi) rsi(inReal []float64, inTimePeriod int) []float64 {
 
 	outReal := make([]float64, len(inReal))
 
-	if len(inReal) < inTimePeriod {
+	if len(inReal) <= inTimePeriod {
 		return outReal
 	}
 
-- 
2.43.0


From 2a717e189b9d4c5a980fad75ca72a5a34c71dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 24/40] fix: Vortex returned NaN, or rounding residue, on
 windows without movement

---
 trend/Vortex.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/trend/Vortex.go b/trend/Vortex.go
index 11d71ba..5b3f7a9 100644
--- a/trend/Vortex.go
+++ b/trend/Vortex.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/idoall/stockindicator/utils/klines"
+	"github.com/idoall/stockindicator/utils/ta"
 )
 
 // Vortex struct
@@ -48,38 +49,24 @@ func (e *Vortex) Calculation() *Vortex {
 	var low = ohlc.Low
 	var closing = ohlc.Close
 
-	plusVi := make([]float64, len(high))
-	minusVi := make([]float64, len(high))
-
-	plusVm := make([]float64, period)
-	minusVm := make([]float64, period)
-	tr := make([]float64, period)
-
-	var plusVmSum, minusVmSum, trSum float64
+	plusVm := make([]float64, len(high))
+	minusVm := make([]float64, len(high))
+	tr := make([]float64, len(high))
 
 	for i := 1; i < len(high); i++ {
-		j := i % period
-
-		plusVmSum -= plusVm[j]
-		plusVm[j] = math.Abs(high[i] - low[i-1])
-		plusVmSum += plusVm[j]
-
-		minusVmSum -= minusVm[j]
-		minusVm[j] = math.Abs(low[i] - high[i-1])
-		minusVmSum += minusVm[j]
+		plusVm[i] = math.Abs(high[i] - low[i-1])
+		minusVm[i] = math.Abs(low[i] - high[i-1])
 
 		highLow := high[i] - low[i]
 		highPrevClosing := math.Abs(high[i] - closing[i-1])
 		lowPrevClosing := math.Abs(low[i] - closing[i-1])
-
-		trSum -= tr[j]
-		tr[j] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
-		trSum += tr[j]
-
-		plusVi[i] = plusVmSum / trSum
-		minusVi[i] = minusVmSum / trSum
+		tr[i] = math.Max(highLow, math.Max(highPrevClosing, lowPrevClosing))
 	}
 
+	trSum := ta.Sum(period, tr)
+	plusVi := ta.Divide(ta.Sum(period, plusVm), trSum)
+	minusVi := ta.Divide(ta.Sum(period, minusVm), trSum)
+
 	for i := 0; i < len(plusVi); i++ {
 		e.data = append(e.data, VortexData{
 			Time:    time.Unix(e.kline.Candles[i].TimeUnix, 0),
-- 
2.43.0


From 35213e258377c0d3aa3c143a405c6daa7f41dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 25/40] fix: Kdj panicked with a period of 1

---
 trend/Kdj.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 4d3a58a..480dab6 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -164,8 +164,13 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
 			}
 
-			k[i] = (2.0/3)*k[i-1] + 1.0/3*rsv[i]
-			d[i] = (2.0/3)*d[i-1] + 1.0/3*k[i]
+			// 没有前一日的 K、D 值时，用 50 代替
+			prevK, prevD := 50.0, 50.0
+			if i > 0 {
+				prevK, prevD = k[i-1], d[i-1]
+			}
+			k[i] = (2.0/3)*prevK + 1.0/3*rsv[i]
+			d[i] = (2.0/3)*prevD + 1.0/3*k[i]
 			// remove first value in array.
 			periodLowArr = periodLowArr[1:]
 			periodHighArr = periodHighArr[1:]
-- 
2.43.0


From 865669feb67baeb3e1df40b3e97eb07bb3932d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 26/40] fix: the K, D and J lists of Kdj were empty until
 another accessor had calculated them

---
 trend/Kdj.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 480dab6..fdee02b 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -104,6 +104,10 @@ func (e *Kdj) GetData() []KdjData {
 
 // GetListK Func
 func (e *Kdj) GetListK() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.K)
@@ -113,6 +117,10 @@ func (e *Kdj) GetListK() []float64 {
 
 // GetListD Func
 func (e *Kdj) GetListD() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.D)
@@ -122,6 +130,10 @@ func (e *Kdj) GetListD() []float64 {
 
 // GetListJ Func
 func (e *Kdj) GetListJ() []float64 {
+	if len(e.data) == 0 {
+		e = e.Calculation()
+	}
+
 	var result []float64
 	for _, v := range e.data {
 		result = append(result, v.J)
-- 
2.43.0


From cead81d47f67a57488f813d6678c29006e093bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 27/40] fix: the first UTBot, PivotPointSuperTrend and
 BreakoutProbability entry had no time

---
 trend/BreakoutProbability.go  | 4 ++++
 trend/PivotPointSuperTrend.go | 4 ++++
 trend/UTBot.go                | 1 +
 3 files changed, 9 insertions(+)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index 0446063..ea12155 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -109,6 +109,10 @@ func (e *BreakoutProbability) Calculation() *BreakoutProbability {
 	}()
 
 	e.data = make([]BreakoutProbabilityData, len(closes))
+	if len(e.data) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
+
 	for i := 1; i < len(closes); i++ {
 
 		var dataItem = BreakoutProbabilityData{
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index a559b46..31778a0 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -90,6 +90,10 @@ func (e *PivotPointSuperTrend) Calculation() *PivotPointSuperTrend {
 
 	e.data = make([]PivotPointSuperTrendData, len(closes))
 
+	if len(e.data) > 0 {
+		e.data[0].Time = time.Unix(times[0], 0)
+	}
+
 	for i := 1; i < len(closes); i++ {
 
 		var c = closes[i]
diff --git a/trend/UTBot.go b/trend/UTBot.go
index b015316..53ecf77 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -73,6 +73,7 @@ func (e *UTBot) Calculation() *UTBot {
 	e.data = make([]UTBotData, len(closes))
 	for i, close := range closes {
 		if i == 0 {
+			e.data[i].Time = time.Unix(times[i], 0)
 			continue
 		}
 		// var prevClose = closeing[i-1]
-- 
2.43.0


From 7721cc8ecd5d471c32822acdee4617093efad394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 28/40] fix: BreakoutProbability counted higher lows as breaks
 of the low

---
 trend/BreakoutProbability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/BreakoutProbability.go b/trend/BreakoutProbability.go
index ea12155..d4304f1 100644
--- a/trend/BreakoutProbability.go
+++ b/trend/BreakoutProbability.go
@@ -229,7 +229,7 @@ func (e *BreakoutProbability) score(x float64, rowIndex int, green, red bool, to
 	rtotal := total[5][1]
 
 	var hh = commonutils.If(high > highPrev+x, true, false).(bool)
-	var ll = commonutils.If(low > lowPrev-x, true, false).(bool)
+	var ll = commonutils.If(low < lowPrev-x, true, false).(bool)
 
 	if green && hh {
 		total[rowIndex][0] = ghh + 1
-- 
2.43.0


From 3b9751520b23908f62fecf479a854bc11225f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 29/40] fix: SmartMoneyConcepts took the state and order blocks
 of one calculation into the next

---
 trend/SmartMoneyConcepts.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 9b22def..d337486 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -135,6 +135,15 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
 
+	e.OrderBlockBullish = nil
+	e.OrderBlockBearish = nil
+	e.os1Prev, e.os2Prev = 0, 0
+	e.idxPrevBullish, e.idxPrevBearish = 0, 0
+	e.StrongHigh = SmartMoneyConceptsDataStrongWeak{}
+	e.WeakHigh = SmartMoneyConceptsDataStrongWeak{}
+	e.StrongLow = SmartMoneyConceptsDataStrongWeak{}
+	e.WeakLow = SmartMoneyConceptsDataStrongWeak{}
+
 	var trend = 0
 	var itrend = 0
 
-- 
2.43.0


From 14bed492b25ffd2eee13c8afa0c45d29bf8dcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 30/40] fix: SmartMoneyConcepts entries before the swing length
 had no time

---
 trend/SmartMoneyConcepts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index d337486..6b8db0a 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -134,6 +134,9 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 	var atr = ta.Atr(highs, lows, closes, 200)
 
 	e.data = make([]SmartMoneyConceptsData, len(closes))
+	for i := range e.data {
+		e.data[i].Time = time.Unix(times[i], 0)
+	}
 
 	e.OrderBlockBullish = nil
 	e.OrderBlockBearish = nil
@@ -184,7 +187,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		var close = closes[i]
 		var high = highs[i]
 		var low = lows[i]
-		var timeUnix = times[i]
 
 		if trail_up == 0.0 {
 			trail_up = high
@@ -439,8 +441,6 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 				Value: trail_dn,
 			}
 		}
-
-		e.data[i].Time = time.Unix(timeUnix, 0)
 	}
 
 	return e
-- 
2.43.0


From c0276f331de700eef7752b785dd250390eeb800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 31/40] fix: the long-term CHoCH at the bottom was decided by
 the short-term trend

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index 6b8db0a..e5622e0 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -324,7 +324,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 		if ta.CrossUnder(closes[:i+1], btm_y) && btm_cross {
 
 			var choch = false
-			if itrend > 0 {
+			if trend > 0 {
 				choch = true
 			}
 
-- 
2.43.0


From 84e7c72946bca5a6e697c70a4e12aa69f35624cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 32/40] fix: removing an order block that is not in the list
 emptied the list

---
 trend/SmartMoneyConcepts_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts_type.go b/trend/SmartMoneyConcepts_type.go
index 2b71777..b189c8f 100644
--- a/trend/SmartMoneyConcepts_type.go
+++ b/trend/SmartMoneyConcepts_type.go
@@ -51,5 +51,5 @@ func (e SmartMoneyConceptsDataOrderBlockList) Remove(k SmartMoneyConceptsDataOrd
 		}
 	}
 
-	return nil
+	return list
 }
-- 
2.43.0


From 2871ef44c3a50e128ca2bf9d2bcd5a8ebcbd106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 33/40] fix: AnalysisSide reported BUY for entries too early to
 be judged

---
 channel/Boll.go                         | 1 +
 channel/DonchianChannel.go              | 1 +
 channel/KeltnerChannel.go               | 1 +
 oscillator/AbsolutePriceOscillator.go   | 1 +
 oscillator/AwesomeOscillator.go         | 1 +
 oscillator/ChaikinOscillator.go         | 1 +
 oscillator/IchimokuCloud.go             | 1 +
 oscillator/PercentagePriceOscillator.go | 1 +
 oscillator/ProjectionOscillator.go      | 1 +
 oscillator/StochasticOscillator.go      | 1 +
 oscillator/WilliamsR.go                 | 1 +
 trend/AiCoinCCI.go                      | 1 +
 trend/Cci.go                            | 1 +
 trend/EMAVegas.go                       | 2 ++
 trend/Kdj.go                            | 1 +
 trend/Macd.go                           | 1 +
 trend/PivotPointSuperTrend.go           | 1 +
 trend/Rsi.go                            | 1 +
 trend/StochRsi.go                       | 1 +
 trend/StochasticHeat.go                 | 1 +
 trend/SuperTrend.go                     | 1 +
 trend/UTBot.go                          | 1 +
 volume/MoneyFlowIndex.go                | 1 +
 23 files changed, 24 insertions(+)

diff --git a/channel/Boll.go b/channel/Boll.go
index 05d0989..d531054 100644
--- a/channel/Boll.go
+++ b/channel/Boll.go
@@ -131,6 +131,7 @@ func (e *Boll) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/DonchianChannel.go b/channel/DonchianChannel.go
index 4ce6a5b..277e77e 100644
--- a/channel/DonchianChannel.go
+++ b/channel/DonchianChannel.go
@@ -85,6 +85,7 @@ func (e *DonchianChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/channel/KeltnerChannel.go b/channel/KeltnerChannel.go
index f0eb736..76b5565 100644
--- a/channel/KeltnerChannel.go
+++ b/channel/KeltnerChannel.go
@@ -90,6 +90,7 @@ func (e *KeltnerChannel) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AbsolutePriceOscillator.go b/oscillator/AbsolutePriceOscillator.go
index 78b2196..0820641 100644
--- a/oscillator/AbsolutePriceOscillator.go
+++ b/oscillator/AbsolutePriceOscillator.go
@@ -60,6 +60,7 @@ func (e *AbsolutePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/AwesomeOscillator.go b/oscillator/AwesomeOscillator.go
index d1ebf9c..ed107df 100644
--- a/oscillator/AwesomeOscillator.go
+++ b/oscillator/AwesomeOscillator.go
@@ -64,6 +64,7 @@ func (e *AwesomeOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ChaikinOscillator.go b/oscillator/ChaikinOscillator.go
index 72c1c5a..ed8dda2 100644
--- a/oscillator/ChaikinOscillator.go
+++ b/oscillator/ChaikinOscillator.go
@@ -79,6 +79,7 @@ func (e *ChaikinOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/IchimokuCloud.go b/oscillator/IchimokuCloud.go
index e762478..fb5dd68 100644
--- a/oscillator/IchimokuCloud.go
+++ b/oscillator/IchimokuCloud.go
@@ -120,6 +120,7 @@ func (e *IchimokuCloud) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < e.ConversionPeriod {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/PercentagePriceOscillator.go b/oscillator/PercentagePriceOscillator.go
index 82d71c7..08d6180 100644
--- a/oscillator/PercentagePriceOscillator.go
+++ b/oscillator/PercentagePriceOscillator.go
@@ -91,6 +91,7 @@ func (e *PercentagePriceOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/ProjectionOscillator.go b/oscillator/ProjectionOscillator.go
index 9dff989..632c2f9 100644
--- a/oscillator/ProjectionOscillator.go
+++ b/oscillator/ProjectionOscillator.go
@@ -88,6 +88,7 @@ func (e *ProjectionOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/StochasticOscillator.go b/oscillator/StochasticOscillator.go
index 8697b12..9fd07a5 100644
--- a/oscillator/StochasticOscillator.go
+++ b/oscillator/StochasticOscillator.go
@@ -95,6 +95,7 @@ func (e *StochasticOscillator) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/oscillator/WilliamsR.go b/oscillator/WilliamsR.go
index 28d576b..ee50626 100644
--- a/oscillator/WilliamsR.go
+++ b/oscillator/WilliamsR.go
@@ -88,6 +88,7 @@ func (e *WilliamsR) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/AiCoinCCI.go b/trend/AiCoinCCI.go
index 4cef15d..8c57991 100644
--- a/trend/AiCoinCCI.go
+++ b/trend/AiCoinCCI.go
@@ -86,6 +86,7 @@ func (e *AiCoinCCI) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Cci.go b/trend/Cci.go
index 23347ab..870dcd0 100644
--- a/trend/Cci.go
+++ b/trend/Cci.go
@@ -157,6 +157,7 @@ func (e *Cci) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/EMAVegas.go b/trend/EMAVegas.go
index 45c7886..98bfaf7 100644
--- a/trend/EMAVegas.go
+++ b/trend/EMAVegas.go
@@ -108,6 +108,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 
 	for i := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var item = e.data[i]
@@ -115,6 +116,7 @@ func (e *EMAVegas) AnalysisSide() utils.SideData {
 		var t1, d1 bool
 
 		if (i - 10 - 1) < 0 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Kdj.go b/trend/Kdj.go
index fdee02b..3353711 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -75,6 +75,7 @@ func (e *Kdj) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Macd.go b/trend/Macd.go
index 66ca477..39875a5 100644
--- a/trend/Macd.go
+++ b/trend/Macd.go
@@ -96,6 +96,7 @@ func (e *Macd) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/PivotPointSuperTrend.go b/trend/PivotPointSuperTrend.go
index 31778a0..c896537 100644
--- a/trend/PivotPointSuperTrend.go
+++ b/trend/PivotPointSuperTrend.go
@@ -163,6 +163,7 @@ func (e *PivotPointSuperTrend) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/Rsi.go b/trend/Rsi.go
index 0509808..5a27cc9 100644
--- a/trend/Rsi.go
+++ b/trend/Rsi.go
@@ -62,6 +62,7 @@ func (e *Rsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochRsi.go b/trend/StochRsi.go
index fb1b1e2..1d48361 100644
--- a/trend/StochRsi.go
+++ b/trend/StochRsi.go
@@ -77,6 +77,7 @@ func (e *StochRsi) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/StochasticHeat.go b/trend/StochasticHeat.go
index 3bf31e7..ec961af 100644
--- a/trend/StochasticHeat.go
+++ b/trend/StochasticHeat.go
@@ -190,6 +190,7 @@ func (e *StochasticHeat) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 025eeed..1086142 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -177,6 +177,7 @@ func (e *SuperTrend) AnalysisSide() utils.SideData {
 	sides := make([]utils.Side, len(e.data))
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
diff --git a/trend/UTBot.go b/trend/UTBot.go
index 53ecf77..3a33e36 100644
--- a/trend/UTBot.go
+++ b/trend/UTBot.go
@@ -111,6 +111,7 @@ func (e *UTBot) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 		var close = v.Close
diff --git a/volume/MoneyFlowIndex.go b/volume/MoneyFlowIndex.go
index 6d47061..76fddff 100644
--- a/volume/MoneyFlowIndex.go
+++ b/volume/MoneyFlowIndex.go
@@ -99,6 +99,7 @@ func (e *MoneyFlowIndex) AnalysisSide() utils.SideData {
 
 	for i, v := range e.data {
 		if i < 1 {
+			sides[i] = utils.Hold
 			continue
 		}
 
-- 
2.43.0


From ae77d62bf8deae0f3ff96ddd065d4e09555ea3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 34/40] fix: CheckEquals ignored the remaining pairs once one
 pair had ended

---
 helpertools/CheckEquals.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/helpertools/CheckEquals.go b/helpertools/CheckEquals.go
index f4dcf2a..effb332 100644
--- a/helpertools/CheckEquals.go
+++ b/helpertools/CheckEquals.go
@@ -13,9 +13,14 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 	}
 
 	i := 0
+	ended := make([]bool, len(inputs)/2)
 
-	for {
+	for remaining := len(ended); remaining > 0; {
 		for j := 0; j < len(inputs); j += 2 {
+			if ended[j/2] {
+				continue
+			}
+
 			actual, actualOk := <-inputs[j]
 			expected, expectedOk := <-inputs[j+1]
 
@@ -24,7 +29,9 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 					return fmt.Errorf("not ended the same actual %v expected %v", actualOk, expectedOk)
 				}
 
-				return nil
+				ended[j/2] = true
+				remaining--
+				continue
 			}
 
 			if !reflect.DeepEqual(actual, expected) {
@@ -34,4 +41,6 @@ func CheckEquals[T comparable](inputs ...<-chan T) error {
 
 		i++
 	}
+
+	return nil
 }
-- 
2.43.0


From eb8032cf3d2445f2dc39b23ccf420c4f4ffb537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 35/40] fix: SuperTrend without ChangeAtr added a percentage to
 prices

The alternative band width was the average of the normalised ATR, a
percentage of the close, instead of the average true range in price
units, so that the bands depended on the price unit.
---
 trend/SuperTrend.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trend/SuperTrend.go b/trend/SuperTrend.go
index 1086142..cf0d526 100644
--- a/trend/SuperTrend.go
+++ b/trend/SuperTrend.go
@@ -95,8 +95,7 @@ func (e *SuperTrend) Calculation() *SuperTrend {
 	if e.ChangeAtr {
 		atr = ta.Atr(highs, lows, closes, e.AtrPeriod)
 	} else {
-		natr := ta.Natr(highs, lows, closes, e.AtrPeriod)
-		atr = ta.Sma(e.AtrPeriod, natr)
+		atr = ta.Sma(e.AtrPeriod, ta.TRange(highs, lows, closes))
 	}
 
 	for i := 0; i < len(src); i++ {
-- 
2.43.0


From 55cc8271f8516fbb540ed4fe7ae526102e6ff69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 36/40] fix: JSONDecode panicked on a nil target

---
 utils/commonutils/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/commonutils/common.go b/utils/commonutils/common.go
index 96ec7ad..b3fb915 100644
--- a/utils/commonutils/common.go
+++ b/utils/commonutils/common.go
@@ -75,7 +75,7 @@ func ReadFile(path string) ([]byte, error) {
 
 // JSONDecode decodes JSON data into a structure
 func JSONDecode(data []byte, to interface{}) error {
-	if !strings.Contains(reflect.ValueOf(to).Type().String(), "*") {
+	if to == nil || !strings.Contains(reflect.ValueOf(to).Type().String(), "*") {
 		return errors.New("json decode error - memory address not supplied")
 	}
 	return sonic.Unmarshal(data, to)
-- 
2.43.0


From a0d82669be789219d74dea661b9133972a569aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 37/40] fix: Kdj took ranges below 0.000001 for none, whatever
 the price level

---
 trend/Kdj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/Kdj.go b/trend/Kdj.go
index 3353711..525c0d7 100644
--- a/trend/Kdj.go
+++ b/trend/Kdj.go
@@ -171,7 +171,7 @@ func (e *Kdj) calculationKD(records *klines.Item) (rsv, k, d []float64) {
 			lowest := e.arrayLowest(periodLowArr)
 			highest := e.arrayHighest(periodHighArr)
 
-			if highest-lowest < 0.000001 {
+			if highest == lowest {
 				rsv[i] = 100
 			} else {
 				rsv[i] = (closes[i] - lowest) / (highest - lowest) * 100
-- 
2.43.0


From 75ff48865c98ea249eab0797e7474930e01c9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 38/40] fix: SmartMoneyConcepts order blocks were arbitrary at
 prices above 99999999

---
 trend/SmartMoneyConcepts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trend/SmartMoneyConcepts.go b/trend/SmartMoneyConcepts.go
index e5622e0..835bba3 100644
--- a/trend/SmartMoneyConcepts.go
+++ b/trend/SmartMoneyConcepts.go
@@ -448,7 +448,7 @@ func (e *SmartMoneyConcepts) Calculation() *SmartMoneyConcepts {
 
 func (e *SmartMoneyConcepts) obCoord(useMax bool, index, loc int, highs, lows, atr []float64, list SmartMoneyConceptsDataOrderBlockList, obType int) SmartMoneyConceptsDataOrderBlockList {
 
-	var min = 99999999.0
+	var min = math.MaxFloat64
 	var max = 0.0
 	var idx = 1
 	var ob_threshold = atr
-- 
2.43.0


From 029f108897bab209d6f568753f7dd57a23250f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 39/40] fix: RoundDigits and RoundDigit lost digits, or
 overflowed, where a value is already as precise as a float

Scaling by 10^d and back moved values whose scaled form is beyond 2^53 by
a unit in the last place (2.3058430237e16 to 2 digits gave
2.3058430236999996e16), gave Inf near the largest floats and changed
large integers.
---
 helpertools/RoundDigit.go | 8 +++++++-
 utils/ta/ta.go            | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/helpertools/RoundDigit.go b/helpertools/RoundDigit.go
index 86fc4cb..e8c2838 100644
--- a/helpertools/RoundDigit.go
+++ b/helpertools/RoundDigit.go
@@ -18,5 +18,11 @@ func RoundDigit[T commonutils.Number](n T, d int) T {
 	for i := 0; i < d; i++ {
 		factor *= 10
 	}
-	return T(math.Round(float64(n)*factor) / factor)
+	// Digits beyond the precision of a float need no rounding; scaling
+	// would only add an error, or overflow.
+	scaled := float64(n) * factor
+	if math.Abs(scaled) >= 1<<53 {
+		return n
+	}
+	return T(math.Round(scaled) / factor)
 }
diff --git a/utils/ta/ta.go b/utils/ta/ta.go
index 63405d0..6a42429 100644
--- a/utils/ta/ta.go
+++ b/utils/ta/ta.go
@@ -673,8 +673,14 @@ func RoundDigits(value float64, digits int) float64 {
 	// 计算10 的 digits 次幂
 	n := math.Pow(10, float64(digits))
 
+	// 超出浮点数精度的位数无需舍入，缩放只会带来误差或溢出
+	scaled := value * n
+	if math.Abs(scaled) >= 1<<53 {
+		return value
+	}
+
 	// 返回最接近的整数，从零四舍五入
-	return math.Round(value*n) / n
+	return math.Round(scaled) / n
 }
 
 // RoundDigitsAll 将 values 数组遍历进行四舍五入.
-- 
2.43.0


From a818bfee9e0d2b68c2b455a7ef124aeb16e4622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 40/40] fix: JSONDecode accepted malformed values and strings
 in unknown fields

---
 utils/commonutils/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/commonutils/common.go b/utils/commonutils/common.go
index b3fb915..02468f2 100644
--- a/utils/commonutils/common.go
+++ b/utils/commonutils/common.go
@@ -1,6 +1,7 @@
 package commonutils
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 	"os"
@@ -78,6 +79,10 @@ func JSONDecode(data []byte, to interface{}) error {
 	if to == nil || !strings.Contains(reflect.ValueOf(to).Type().String(), "*") {
 		return errors.New("json decode error - memory address not supplied")
 	}
+	// sonic skips the values of unknown fields without checking them in full
+	if !json.Valid(data) {
+		return errors.New("json decode error - not valid JSON")
+	}
 	return sonic.Unmarshal(data, to)
 }
 
-- 
2.43.0

