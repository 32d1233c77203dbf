From f35ccbd753b325ae7024fd63569afd598f92ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:15 +0000
Subject: [PATCH 01/22] fix: RSI no longer reads past the end of the candles

Each RSI value needs period price changes, so a window of period+1 candles.
The last window was sliced one element past the end: it panicked, or read
stale memory when the slice had spare capacity. Periods that do not fit in
the candles are now rejected, as the other indicators do.
---
 indicators/rsi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index cd4cb13..980212b 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -27,6 +27,10 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
 	} else if len(candles) < 14 {
 		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI with less than 14 candles", nil)
+	} else if len(candles) <= period {
+		return nil, ez.New(op, ez.EINVALID, "Period argument must be smaller than the length of candles", nil)
+	} else if period <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Period can't be less than 1", nil)
 	}
 
 	var rsiArray []float32
@@ -35,7 +39,7 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 	j := period - 1
 
 	for {
-		if j == len(candles) {
+		if j == len(candles)-1 {
 			break
 		}
 
-- 
2.43.0


From 479f00e58810cebab7c0d36747bde22da51e8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:17 +0000
Subject: [PATCH 02/22] fix: RSI of a window without price changes is neutral,
 not NaN

A window with neither gains nor losses divided zero by zero.
---
 indicators/rsi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index 980212b..082a93c 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -15,6 +15,13 @@ func calculateRSI(candles []market.Candle) float32 {
 			avgDownward += candles[i-1].Close - candles[i].Close
 		}
 	}
+	if avgDownward == 0 {
+		// No losses in the window: 100, or neutral when the price did not move at all
+		if avgUpward == 0 {
+			return 50
+		}
+		return 100
+	}
 	rs := avgUpward / avgDownward
 	//fmt.Println("info:", avgUpward/14, avgDownward/14, rs)
 	return float32(100 - 100/(1+rs))
-- 
2.43.0


From 69f05200eeb3d03bcee1debe490506ac516deef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:19 +0000
Subject: [PATCH 03/22] fix: ExponentialMovingAverage no longer ignores a
 candle

The simple average that seeds the recursion covers the first period candles,
but it was emitted in place of the value of the next candle, whose close was
never used.
---
 indicators/ma.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/indicators/ma.go b/indicators/ma.go
index 9ebfe0c..027bcca 100644
--- a/indicators/ma.go
+++ b/indicators/ma.go
@@ -56,19 +56,16 @@ func ExponentialMovingAverage(candles []market.Candle, period int) ([]float64, e
 
 	var emaArray []float64
 	p := 2 / (float64(period) + 1)
+	prevEMA := average(candles[:period])
 
 	for i := range candles {
 		if i < period {
 			continue
 		}
 
-		if len(emaArray) == 0 {
-			emaArray = append(emaArray, average(candles[:period]))
-		} else {
-			ema := (candles[i].Close * p) + (emaArray[len(emaArray)-1] * (1 - p))
-			emaArray = append(emaArray, ema)
-		}
-
+		ema := (candles[i].Close * p) + (prevEMA * (1 - p))
+		emaArray = append(emaArray, ema)
+		prevEMA = ema
 	}
 
 	return emaArray, nil
-- 
2.43.0


From f63f1e1960ac8c3cd291299cb8620b1cfb930b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:21 +0000
Subject: [PATCH 04/22] fix: WilliamFractals needs two confirming candles on
 the right

When the candles ended before two strictly lower (or higher) candles were
found, the fractal was reported anyway.
---
 indicators/williams_fractals.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/williams_fractals.go b/indicators/williams_fractals.go
index 48a5fd7..b7eb77f 100644
--- a/indicators/williams_fractals.go
+++ b/indicators/williams_fractals.go
@@ -113,5 +113,9 @@ func findFractal(candles []market.Candle, start int, fType FractalType) (foundFr
 
 	}
 
+	if rightCandleCount < 2 {
+		return foundFractal, ez.New(op, ez.EINVALID, "Third candle is not followed by two lower or higher candles", nil)
+	}
+
 	return foundFractal, nil
 }
-- 
2.43.0


From 1b44836cbb6ec1a2552326a603b17a7c50b363a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:24 +0000
Subject: [PATCH 05/22] fix: order book updates remove exactly the crossed rows

An update dropped the first row that it did not cross, and kept a crossed row
when it was the last one, which left the book crossed.
---
 market/orderbook.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index e204517..d5b0793 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -96,17 +96,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Asks {
-			if ob.Asks[i].Price < price {
+			if ob.Asks[i].Price <= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Asks)-1)))
-				rowsRemoved = len(ob.Asks) - i
-				ob.Asks = ob.Asks[startIndex:]
+				rowsRemoved = i
+				ob.Asks = ob.Asks[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Asks)
 			ob.Asks = []OrderBookRow{}
 		}
 		return rowsRemoved
@@ -115,17 +115,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Bids {
-			if ob.Bids[i].Price > price {
+			if ob.Bids[i].Price >= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Bids)-1)))
-				rowsRemoved = len(ob.Bids) - i
-				ob.Bids = ob.Bids[startIndex:]
+				rowsRemoved = i
+				ob.Bids = ob.Bids[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Bids)
 			ob.Bids = []OrderBookRow{}
 		}
 		return rowsRemoved
-- 
2.43.0


From e469109f239da4aeb0cd20b2e9fab28c864a83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:26 +0000
Subject: [PATCH 06/22] fix: order book updates keep the accumulated volumes
 current

Rows written by ApplyUpdate had no accumulated volume and the rows behind
them kept the one they had before the update.
---
 market/orderbook.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index d5b0793..7e98bb7 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -45,6 +45,11 @@ func (ob *OrderBook) sort() {
 	ob.Asks = ob.Asks[:int(askDepth)]
 	ob.Bids = ob.Bids[:int(bidDepth)]
 
+	ob.accumulate()
+}
+
+// accumulate sets the accumulated volume of every row
+func (ob *OrderBook) accumulate() {
 	for i := range ob.Asks {
 		if i == 0 {
 			ob.Asks[i].AccumVolume = ob.Asks[i].Volume
@@ -70,6 +75,8 @@ func (ob *OrderBook) limit() {
 	if len(ob.Bids) > ob.MaxDepth {
 		ob.Bids = ob.Bids[:ob.MaxDepth]
 	}
+
+	ob.accumulate()
 }
 
 func (ob *OrderBook) String() string {
-- 
2.43.0


From 0d7a1c8b59e062afe2c0b8d3ac69c5e56d3075cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:28 +0000
Subject: [PATCH 07/22] fix: GetDepth no longer panics on a book with an empty
 side

---
 market/orderbook.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 7e98bb7..48a3546 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -268,9 +268,14 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		return 0, ez.New(op, ez.EINVALID, "Price can't be equal or below zero", nil)
 	}
 
-	firstAsk, lastAsk := ob.Asks[0], ob.Asks[len(ob.Asks)-1]
-	firstBid, lastBid := ob.Bids[0], ob.Bids[len(ob.Bids)-1]
-	if firstAsk.Price <= price && price <= lastAsk.Price {
+	var firstAsk, lastAsk, firstBid, lastBid OrderBookRow
+	if len(ob.Asks) > 0 {
+		firstAsk, lastAsk = ob.Asks[0], ob.Asks[len(ob.Asks)-1]
+	}
+	if len(ob.Bids) > 0 {
+		firstBid, lastBid = ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	}
+	if len(ob.Asks) > 0 && firstAsk.Price <= price && price <= lastAsk.Price {
 		// price is in asks interval
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
@@ -279,7 +284,7 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 			}
 		}
 		return lastAsk.Price, nil
-	} else if lastBid.Price <= price && price <= firstBid.Price {
+	} else if len(ob.Bids) > 0 && lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
-- 
2.43.0


From 00cc099b35cdf0bbbb1e31d4fa69e93dfcf5fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:31 +0000
Subject: [PATCH 08/22] fix: GetDepth returns the accumulated volume

It returned the price of the row instead of the documented volume.
---
 market/orderbook.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 48a3546..7455a06 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -280,19 +280,19 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
 				index := math.Max(0, float64(k-1))
-				return ob.Asks[int(index)].Price, nil
+				return ob.Asks[int(index)].AccumVolume, nil
 			}
 		}
-		return lastAsk.Price, nil
+		return lastAsk.AccumVolume, nil
 	} else if len(ob.Bids) > 0 && lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
 				index := math.Max(0, float64(k-1))
-				return ob.Bids[int(index)].Price, nil
+				return ob.Bids[int(index)].AccumVolume, nil
 			}
 		}
-		return lastBid.Price, nil
+		return lastBid.AccumVolume, nil
 	}
 	return 0, ez.New(op, ez.ENOTFOUND, "No depth for the selected price", nil)
 }
-- 
2.43.0


From 873e29d596596434e6a501dd68475c8d729fc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:33 +0000
Subject: [PATCH 09/22] fix: CalculateOverlap counts a side that overlaps in
 full

When every row of a side was inside the overlap its end was never set and the
whole side was left out of the result.
---
 market/orderbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 7455a06..66d6ce3 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -299,7 +299,7 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 
 func overlapCalculation(obA, obB OrderBook) (float64, error) {
 	var obAAccumVolume, obBAccumVolume float64
-	var obAIndex, obBIndex int
+	obAIndex, obBIndex := len(obA.Asks), len(obB.Bids)
 	for i := range obA.Asks {
 		if obA.Asks[i].Price > obB.Bids[0].Price {
 			obAIndex = i
-- 
2.43.0


From 8feac24fb157d6864a02136340b4d5e9346fff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:35 +0000
Subject: [PATCH 10/22] fix: CalculateOverlap no longer panics on a book with
 an empty side

---
 market/orderbook.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 66d6ce3..90a0af5 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -340,14 +340,11 @@ func overlapCalculation(obA, obB OrderBook) (float64, error) {
 func CalculateOverlap(obA, obB OrderBook) (float64, error) {
 	op := "OrderBook.CalculateOverlap"
 	// First determine if overlap exists
-	if !(obA.Asks[0].Price < obB.Bids[0].Price || obA.Bids[0].Price > obB.Asks[0].Price) {
-		return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
-	}
-	if obA.Asks[0].Price < obB.Bids[0].Price {
+	if len(obA.Asks) > 0 && len(obB.Bids) > 0 && obA.Asks[0].Price < obB.Bids[0].Price {
 		return overlapCalculation(obA, obB)
 	}
-	if obA.Bids[0].Price > obB.Asks[0].Price {
+	if len(obA.Bids) > 0 && len(obB.Asks) > 0 && obA.Bids[0].Price > obB.Asks[0].Price {
 		return overlapCalculation(obB, obA)
 	}
-	return 0, nil
+	return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
 }
-- 
2.43.0


From 1371aa8757ee5111d22e6676b221d6506cb1fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:37 +0000
Subject: [PATCH 11/22] fix: Position.Modify reports trades larger than the
 position

The error was dropped, so a rejected trade looked like an applied one.
---
 market/position.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/position.go b/market/position.go
index 1329f38..afd4999 100644
--- a/market/position.go
+++ b/market/position.go
@@ -130,13 +130,13 @@ func (p *Position) Modify(trade *Trade) error {
 	}
 
 	if p.Type == LongPosition && trade.Action == BuyAction {
-		p.add(trade)
+		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == BuyAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == SellAction {
-		p.add(trade)
+		return p.add(trade)
 	}
 
 	return nil
-- 
2.43.0


From ded5e9fc83e5e2c97762e22a3854f6f93c04adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:40 +0000
Subject: [PATCH 12/22] fix: Position.String no longer panics on short IDs

---
 market/position.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index afd4999..d294244 100644
--- a/market/position.go
+++ b/market/position.go
@@ -97,8 +97,13 @@ func (p *Position) Update(i interface{}) error {
 }
 
 func (p *Position) String() string {
+	id := p.ID
+	if len(id) > 8 {
+		id = id[0:8]
+	}
+
 	return fmt.Sprintf("ID: %s Type: %s Pair: %s Open: %t OpenPrice: %.2f ClosePrice: %.2f Quantity: %.4f Profit: %.2f OpenTime: %s CloseTime: %s # Trades: %d\n",
-		p.ID[0:8],
+		id,
 		p.Type,
 		p.Pair.String(),
 		p.Open,
-- 
2.43.0


From 64760bc6a25b896cfc97e545514f908405b08edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:42 +0000
Subject: [PATCH 13/22] fix: Balance.String no longer panics without an asset

---
 market/balances.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/balances.go b/market/balances.go
index d455028..31b8751 100644
--- a/market/balances.go
+++ b/market/balances.go
@@ -31,5 +31,10 @@ type Balance struct {
 }
 
 func (b *Balance) String() string {
-	return fmt.Sprintf("Asset: %s, Amount: %f\n", b.Asset.String(), b.Amount)
+	var assetStr string
+	if b.Asset != nil {
+		assetStr = b.Asset.String()
+	}
+
+	return fmt.Sprintf("Asset: %s, Amount: %f\n", assetStr, b.Amount)
 }
-- 
2.43.0


From 524d9d5f7836a092d179656771817c05853f8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:44 +0000
Subject: [PATCH 14/22] fix: ModifyInterval rejects arguments that made it
 panic

No candles, a non-positive interval, or candles less than a minute apart.
---
 market/candle.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/market/candle.go b/market/candle.go
index 37c4d6c..9d1472c 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -36,6 +36,12 @@ func (p *Candle) String() string {
 func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	op := "market.ModifyInterval"
 
+	if len(candles) == 0 {
+		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
+	} else if minuteInterval <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Interval can't be less than 1 minute", nil)
+	}
+
 	// If we only have a candle, return the candle, there is nothing to do
 	if len(candles) == 1 {
 		return candles, nil
@@ -44,6 +50,9 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	// Check that if we are requesting a minute interval that there is actually
 	// a minute interval between the candles
 	minuteCandleDelta := (candles[1].Time - candles[0].Time) / 60
+	if minuteCandleDelta == 0 {
+		return nil, ez.New(op, ez.ECONFLICT, "The candles have less than 1 minute between them", nil)
+	}
 	if minuteCandleDelta != 1 && minuteInterval == 1 {
 		return nil, ez.New(op, ez.ECONFLICT, "No 1 minute interval exists", nil)
 	}
-- 
2.43.0


From 3a156e3d0732a3c49b354ca60b4cf3a1c54857f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:46 +0000
Subject: [PATCH 15/22] fix: GetMinInterval is 0 without two candles

It converted math.MaxFloat64 to an int, which is not defined.
---
 market/candle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle.go b/market/candle.go
index 9d1472c..c410efd 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -94,6 +94,10 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 // GetMinInterval - Returns the minimun period interval in minutes from an array of
 // candles
 func GetMinInterval(candles []Candle) int {
+	if len(candles) < 2 {
+		return 0
+	}
+
 	minDiff := math.MaxFloat64
 	for k := range candles {
 		if k == 0 {
-- 
2.43.0


From faa77c37fcb5598b0f4a1fc5bb1103fe02c07f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 16/22] fix: SaveCandlesToFile reports write errors

---
 market/candle_load.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 445740a..9e9c33d 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -22,7 +22,10 @@ func SaveCandlesToFile(candles *[]Candle, filepath string) error {
 	candleList := *candles
 
 	for _, candle := range candleList {
-		fmt.Fprintln(f, candle) // print values to f, one per line
+		// print values to f, one per line
+		if _, err := fmt.Fprintln(f, candle); err != nil {
+			return ez.Wrap(op, err)
+		}
 	}
 
 	return nil
-- 
2.43.0


From a889a791825d0f5a7f3b2544743fe3963eb6b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:51 +0000
Subject: [PATCH 17/22] fix: LoadCandlesFromFile reads times after 2038

SaveCandlesToFile writes 64 bit times; the loader only took 32 bit ones.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 9e9c33d..5aa3e4f 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -51,7 +51,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		lineArr := strings.Split(line, " ")
 
 		// Convert from string to datatypes
-		time, err := strconv.ParseInt(lineArr[0], 10, 32)
+		time, err := strconv.ParseInt(lineArr[0], 10, 64)
 		if err != nil {
 			return nil, ez.Wrap(op, err)
 		}
-- 
2.43.0


From 3a7a826848997801667fabab323c8645d0d3519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:53 +0000
Subject: [PATCH 18/22] fix: LoadCandlesFromFile no longer panics on malformed
 lines

---
 market/candle_load.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 5aa3e4f..412697c 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,8 +47,14 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		text := scanner.Text()
 
 		// Parse each line
+		if len(text) < 2 {
+			return nil, ez.New(op, ez.EINVALID, "Line is not a candle", nil)
+		}
 		line := text[1 : len(text)-1]
 		lineArr := strings.Split(line, " ")
+		if len(lineArr) != 6 {
+			return nil, ez.New(op, ez.EINVALID, "Line is not a candle", nil)
+		}
 
 		// Convert from string to datatypes
 		time, err := strconv.ParseInt(lineArr[0], 10, 64)
-- 
2.43.0


From 7da317f7ff0007b3040a3eeba9eff81a41e5eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:56 +0000
Subject: [PATCH 19/22] fix: DYDXETH maps to the DYDX/ETH pair

---
 market/pair_mappings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/pair_mappings.go b/market/pair_mappings.go
index ca0bb4e..7efdb00 100644
--- a/market/pair_mappings.go
+++ b/market/pair_mappings.go
@@ -1886,7 +1886,7 @@ var PairMappings = map[string]Pair{
 	"GLMRBUSD":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "BUSD"}},
 	"GLMRUSDT":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "USDT"}},
 	"ATOMBIDR":      {Base: Asset{Symbol: "ATOM"}, Quote: Asset{Symbol: "BIDR"}},
-	"DYDXETH":       {Base: Asset{Symbol: "OOKI"}, Quote: Asset{Symbol: "ETH"}},
+	"DYDXETH":       {Base: Asset{Symbol: "DYDX"}, Quote: Asset{Symbol: "ETH"}},
 	"ROSEETH":       {Base: Asset{Symbol: "ROSE"}, Quote: Asset{Symbol: "ETH"}},
 	"UMABUSD":       {Base: Asset{Symbol: "UMA"}, Quote: Asset{Symbol: "BUSD"}},
 	"UNIETH":        {Base: Asset{Symbol: "UNI"}, Quote: Asset{Symbol: "ETH"}},
-- 
2.43.0


From f9346b86c57380264b6073397b85fb342f0bec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:58 +0000
Subject: [PATCH 20/22] fix: close position requests are calculated with the
 current price

They are executed at the current price, like market orders, but the total was
calculated with the price of the request, which they do not have.
---
 market/order_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/order_request.go b/market/order_request.go
index 54a8060..0a22b32 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -75,8 +75,8 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 
 	copy := *o
 
-	// MarketOrder
-	if o.Type == MarketOrder {
+	// MarketOrder and ClosePosition are executed at the current price
+	if o.Type == MarketOrder || o.Type == ClosePosition {
 		if o.Quantity != 0 {
 			copy.Total = o.Quantity * currentPrice
 		} else {
-- 
2.43.0


From 8d7fa841a73fb3b7ca89b392609b755d5a6249ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:16 +0000
Subject: [PATCH 21/22] fix: LoadCandlesFromFile reports read errors

A read error, a directory for instance, looked like the end of the file.
---
 market/candle_load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 412697c..b02726d 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -99,5 +99,9 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		candles = append(candles, candle)
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, ez.Wrap(op, err)
+	}
+
 	return candles, nil
 }
-- 
2.43.0


From 6fd891a64b2f02d64cbb98538682f21b6fada352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:18 +0000
Subject: [PATCH 22/22] fix: Position.Modify reports trades it can not apply

A trade that is neither a buy nor a sell was ignored without an error.
---
 market/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index d294244..32ed459 100644
--- a/market/position.go
+++ b/market/position.go
@@ -144,7 +144,7 @@ func (p *Position) Modify(trade *Trade) error {
 		return p.add(trade)
 	}
 
-	return nil
+	return ez.New(op, ez.EINVALID, "The trade action or the position type is not valid", nil)
 }
 
 // add increments the position size and averages the price
-- 
2.43.0

