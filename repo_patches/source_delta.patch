From 6e6917829084d8af1ceb9b7a316bea96bdea29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:33 +0000
Subject: [PATCH 01/20] fix: report write and close errors when saving candles

---
 market/candle_load.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 445740a..61ca09f 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -22,7 +22,15 @@ func SaveCandlesToFile(candles *[]Candle, filepath string) error {
 	candleList := *candles
 
 	for _, candle := range candleList {
-		fmt.Fprintln(f, candle) // print values to f, one per line
+		// print values to f, one per line
+		if _, err := fmt.Fprintln(f, candle); err != nil {
+			return ez.Wrap(op, err)
+		}
+	}
+
+	// A failed close can mean that the data never reached the disk
+	if err := f.Close(); err != nil {
+		return ez.Wrap(op, err)
 	}
 
 	return nil
-- 
2.43.0


From cf4af89d2487e432a238d5f1e77e1cc3613686e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:33 +0000
Subject: [PATCH 02/20] fix: close the candle file and report read errors and
 damaged records when loading

---
 market/candle_load.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 61ca09f..7f21b0b 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,16 +47,27 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		return nil, ez.Wrap(op, err)
 	}
 
+	defer f.Close()
+
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
 		text := scanner.Text()
 
+		// A record that is cut short or damaged must not be mistaken for a candle
+		if len(text) < 2 || text[0] != '{' || text[len(text)-1] != '}' {
+			return nil, ez.New(op, ez.EINVALID, "Malformed candle record", nil)
+		}
+
 		// Parse each line
 		line := text[1 : len(text)-1]
 		lineArr := strings.Split(line, " ")
 
+		if len(lineArr) != 6 {
+			return nil, ez.New(op, ez.EINVALID, "Malformed candle record", nil)
+		}
+
 		// Convert from string to datatypes
-		time, err := strconv.ParseInt(lineArr[0], 10, 32)
+		time, err := strconv.ParseInt(lineArr[0], 10, 64)
 		if err != nil {
 			return nil, ez.Wrap(op, err)
 		}
@@ -98,5 +109,9 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		candles = append(candles, candle)
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, ez.Wrap(op, err)
+	}
+
 	return candles, nil
 }
-- 
2.43.0


From c2d8fbbe6ddf78debdc14ebace134569ac3aa416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:19 +0000
Subject: [PATCH 03/20] fix: remove exactly the crossed levels from the
 opposite side of the order book

---
 market/orderbook.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index e204517..d5b0793 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -96,17 +96,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Asks {
-			if ob.Asks[i].Price < price {
+			if ob.Asks[i].Price <= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Asks)-1)))
-				rowsRemoved = len(ob.Asks) - i
-				ob.Asks = ob.Asks[startIndex:]
+				rowsRemoved = i
+				ob.Asks = ob.Asks[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Asks)
 			ob.Asks = []OrderBookRow{}
 		}
 		return rowsRemoved
@@ -115,17 +115,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Bids {
-			if ob.Bids[i].Price > price {
+			if ob.Bids[i].Price >= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Bids)-1)))
-				rowsRemoved = len(ob.Bids) - i
-				ob.Bids = ob.Bids[startIndex:]
+				rowsRemoved = i
+				ob.Bids = ob.Bids[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Bids)
 			ob.Bids = []OrderBookRow{}
 		}
 		return rowsRemoved
-- 
2.43.0


From 0f39fdfa57aba20c4ea6bce5a629cc789cb25271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:19 +0000
Subject: [PATCH 04/20] fix: keep the accumulated volume current when the order
 book is updated

---
 market/orderbook.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index d5b0793..2e4bc18 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -45,6 +45,11 @@ func (ob *OrderBook) sort() {
 	ob.Asks = ob.Asks[:int(askDepth)]
 	ob.Bids = ob.Bids[:int(bidDepth)]
 
+	ob.accumulate()
+}
+
+// accumulate recalculates the accumulated volume of every level
+func (ob *OrderBook) accumulate() {
 	for i := range ob.Asks {
 		if i == 0 {
 			ob.Asks[i].AccumVolume = ob.Asks[i].Volume
@@ -70,6 +75,8 @@ func (ob *OrderBook) limit() {
 	if len(ob.Bids) > ob.MaxDepth {
 		ob.Bids = ob.Bids[:ob.MaxDepth]
 	}
+
+	ob.accumulate()
 }
 
 func (ob *OrderBook) String() string {
-- 
2.43.0


From 5b7d3ec5d3ce7db389f4a63d52c81b82f1adea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:19 +0000
Subject: [PATCH 05/20] fix: don't share the snapshot rows between the caller
 and the order book

---
 market/orderbook.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index 2e4bc18..4a90f44 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -18,6 +18,10 @@ type OrderBook struct {
 
 func NewOrderBook(asks, bids []OrderBookRow, maxDepth int) OrderBook {
 
+	// The book is modified in place, so it can't share its rows with the caller
+	asks = append(asks[:0:0], asks...)
+	bids = append(bids[:0:0], bids...)
+
 	ob := OrderBook{
 		Time:     time.Now().Unix(),
 		Asks:     asks,
-- 
2.43.0


From 628895a20e66a87753ee6cd424125dd738bf6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:19 +0000
Subject: [PATCH 06/20] fix: return the accumulated volume from GetDepth and
 accept one-sided books

---
 market/orderbook.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 4a90f44..f708357 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -272,26 +272,32 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		return 0, ez.New(op, ez.EINVALID, "Price can't be equal or below zero", nil)
 	}
 
-	firstAsk, lastAsk := ob.Asks[0], ob.Asks[len(ob.Asks)-1]
-	firstBid, lastBid := ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	// An empty side has no interval, no price can be in it
+	var firstAsk, lastAsk, firstBid, lastBid OrderBookRow
+	if len(ob.Asks) > 0 {
+		firstAsk, lastAsk = ob.Asks[0], ob.Asks[len(ob.Asks)-1]
+	}
+	if len(ob.Bids) > 0 {
+		firstBid, lastBid = ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	}
 	if firstAsk.Price <= price && price <= lastAsk.Price {
 		// price is in asks interval
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
 				index := math.Max(0, float64(k-1))
-				return ob.Asks[int(index)].Price, nil
+				return ob.Asks[int(index)].AccumVolume, nil
 			}
 		}
-		return lastAsk.Price, nil
+		return lastAsk.AccumVolume, nil
 	} else if lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
 				index := math.Max(0, float64(k-1))
-				return ob.Bids[int(index)].Price, nil
+				return ob.Bids[int(index)].AccumVolume, nil
 			}
 		}
-		return lastBid.Price, nil
+		return lastBid.AccumVolume, nil
 	}
 	return 0, ez.New(op, ez.ENOTFOUND, "No depth for the selected price", nil)
 }
-- 
2.43.0


From f907de4d5b6f2f630d1a052b4f542adee296d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:20 +0000
Subject: [PATCH 07/20] fix: include every overlapping level and accept empty
 sides in CalculateOverlap

---
 market/orderbook.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index f708357..a02fa8b 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -304,7 +304,8 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 
 func overlapCalculation(obA, obB OrderBook) (float64, error) {
 	var obAAccumVolume, obBAccumVolume float64
-	var obAIndex, obBIndex int
+	// Until a level out of the overlap is found, every level is part of it
+	obAIndex, obBIndex := len(obA.Asks), len(obB.Bids)
 	for i := range obA.Asks {
 		if obA.Asks[i].Price > obB.Bids[0].Price {
 			obAIndex = i
@@ -344,14 +345,16 @@ func overlapCalculation(obA, obB OrderBook) (float64, error) {
 
 func CalculateOverlap(obA, obB OrderBook) (float64, error) {
 	op := "OrderBook.CalculateOverlap"
-	// First determine if overlap exists
-	if !(obA.Asks[0].Price < obB.Bids[0].Price || obA.Bids[0].Price > obB.Asks[0].Price) {
+	// First determine if overlap exists, an empty side can't be part of one
+	asksOverlap := len(obA.Asks) > 0 && len(obB.Bids) > 0 && obA.Asks[0].Price < obB.Bids[0].Price
+	bidsOverlap := len(obA.Bids) > 0 && len(obB.Asks) > 0 && obA.Bids[0].Price > obB.Asks[0].Price
+	if !(asksOverlap || bidsOverlap) {
 		return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
 	}
-	if obA.Asks[0].Price < obB.Bids[0].Price {
+	if asksOverlap {
 		return overlapCalculation(obA, obB)
 	}
-	if obA.Bids[0].Price > obB.Asks[0].Price {
+	if bidsOverlap {
 		return overlapCalculation(obB, obA)
 	}
 	return 0, nil
-- 
2.43.0


From 13f275024aad49fd832e0c29301fa76187d51dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:36 +0000
Subject: [PATCH 08/20] fix: report the trades a position refuses and keep
 closed positions closed

---
 market/position.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/market/position.go b/market/position.go
index 1329f38..a856bb0 100644
--- a/market/position.go
+++ b/market/position.go
@@ -129,14 +129,25 @@ func (p *Position) Modify(trade *Trade) error {
 		return ez.New(op, ez.EINVALID, "A trade must have same pair as the position", nil)
 	}
 
+	if !p.Open {
+		return ez.New(op, ez.EINVALID, "A closed position can't be modified", nil)
+	}
+
+	var err error
 	if p.Type == LongPosition && trade.Action == BuyAction {
-		p.add(trade)
+		err = p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-		p.substract(trade)
+		err = p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == BuyAction {
-		p.substract(trade)
+		err = p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == SellAction {
-		p.add(trade)
+		err = p.add(trade)
+	} else {
+		err = ez.New(op, ez.EINVALID, "The trade action is not valid for the position", nil)
+	}
+
+	if err != nil {
+		return ez.Wrap(op, err)
 	}
 
 	return nil
-- 
2.43.0


From c6f768a5dfe1c9738927b96899536a79bf74bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:36 +0000
Subject: [PATCH 09/20] fix: close a position when only a rounding error of its
 quantity remains

---
 market/position.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/position.go b/market/position.go
index a856bb0..3982678 100644
--- a/market/position.go
+++ b/market/position.go
@@ -173,8 +173,8 @@ func (p *Position) substract(trade *Trade) error {
 
 	if totalQuantity < 0 && totalQuantity < -0.0001 {
 		return ez.New(op, ez.EINVALID, "Trade volume is larger than the position size, this would not only close the position but open a new opossite one", nil)
-	} else if totalQuantity <= 0 {
-		// Close the trade
+	} else if totalQuantity <= p.Quantity*1e-9 {
+		// Close the trade, what can remain at this point is only a rounding error
 		p.ClosePrice = trade.Price
 		if p.Type == LongPosition {
 			p.Profit = (p.ClosePrice - p.OpenPrice) * p.Quantity
-- 
2.43.0


From dbedaae8d84461adb64c1e9732a3a44643ce8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:36 +0000
Subject: [PATCH 10/20] fix: don't share the list of trades between copies of a
 position

---
 market/position.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/position.go b/market/position.go
index 3982678..8c65097 100644
--- a/market/position.go
+++ b/market/position.go
@@ -160,7 +160,7 @@ func (p *Position) add(trade *Trade) error {
 
 	p.OpenPrice = (p.OpenPrice * p.Quantity / totalQuantity) + (trade.Price * trade.Quantity / totalQuantity)
 	p.Quantity = totalQuantity
-	p.Trades = append(p.Trades, trade.ID)
+	p.Trades = append(p.Trades[:len(p.Trades):len(p.Trades)], trade.ID)
 
 	return nil
 }
@@ -191,7 +191,7 @@ func (p *Position) substract(trade *Trade) error {
 		p.Quantity = totalQuantity
 	}
 
-	p.Trades = append(p.Trades, trade.ID)
+	p.Trades = append(p.Trades[:len(p.Trades):len(p.Trades)], trade.ID)
 
 	return nil
 }
-- 
2.43.0


From a21c060a5ebd7b4e74cdea0cc6dcf8fd5d477151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:54 +0000
Subject: [PATCH 11/20] fix: don't read candles behind the end of the series in
 RSI

---
 indicators/rsi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index cd4cb13..d8d5483 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -35,7 +35,8 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 	j := period - 1
 
 	for {
-		if j == len(candles) {
+		// The window needs one candle more than the period
+		if j+1 >= len(candles) {
 			break
 		}
 
-- 
2.43.0


From d12ee305072e3c9b0fa88897ee2a1a9f53912a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:55 +0000
Subject: [PATCH 12/20] fix: don't report fractals that later candles can still
 revoke

---
 indicators/williams_fractals.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/williams_fractals.go b/indicators/williams_fractals.go
index 48a5fd7..5413fce 100644
--- a/indicators/williams_fractals.go
+++ b/indicators/williams_fractals.go
@@ -113,5 +113,9 @@ func findFractal(candles []market.Candle, start int, fType FractalType) (foundFr
 
 	}
 
+	if rightCandleCount < 2 {
+		return foundFractal, ez.New(op, ez.EINVALID, "The fractal is not confirmed yet by two candles on its right", nil)
+	}
+
 	return foundFractal, nil
 }
-- 
2.43.0


From 3ab5ae3e6e74553ca7bb539a2f20928606757e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:55 +0000
Subject: [PATCH 13/20] fix: align resampled candles independently of the local
 time zone

---
 market/candle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 37c4d6c..482c07b 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -118,7 +118,7 @@ func findFirstIndex(candles []Candle, minuteInterval int) (int, error) {
 			return -1, ez.New(op, ez.EINVALID, "Could not find the initial candle", nil)
 		}
 
-		currentMinute := time.Unix(candles[i].Time, 0).Minute()
+		currentMinute := time.Unix(candles[i].Time, 0).UTC().Minute()
 		if currentMinute%modMinutes == 0 || currentMinute == 0 {
 			break
 		}
-- 
2.43.0


From d1317dcc61e8686a1902c9c4c7c8f8ee2c70753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:09 +0000
Subject: [PATCH 14/20] fix: resample candle series with gaps and repeated
 candles correctly

---
 market/candle.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/market/candle.go b/market/candle.go
index 482c07b..cc4a95a 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -36,6 +36,10 @@ func (p *Candle) String() string {
 func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	op := "market.ModifyInterval"
 
+	if len(candles) == 0 {
+		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
+	}
+
 	// If we only have a candle, return the candle, there is nothing to do
 	if len(candles) == 1 {
 		return candles, nil
@@ -48,7 +52,7 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 		return nil, ez.New(op, ez.ECONFLICT, "No 1 minute interval exists", nil)
 	}
 
-	if int64(minuteInterval)%minuteCandleDelta != 0 {
+	if minuteInterval < 1 || minuteCandleDelta < 1 || int64(minuteInterval)%minuteCandleDelta != 0 {
 		return nil, ez.New(op, ez.ECONFLICT, fmt.Sprintf(`The retrieved candles cannot be modified to the %d minutes timeframe, the delta between candles is %d minutes`, minuteInterval, minuteCandleDelta), nil)
 	}
 
@@ -60,8 +64,11 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	var modifiedCandles []Candle
 	firstCandleIndex := start
 	pivot := candles[start].Time
+	bucket := int64(0)
 	for k, v := range candles[firstCandleIndex+1:] {
-		if int(math.Abs(float64((v.Time-pivot)/60)))%minuteInterval == 0 {
+		// A new candle starts with the first candle of an interval, which can be missing its first minutes
+		if newBucket := (v.Time - pivot) / 60 / int64(minuteInterval); newBucket != bucket {
+			bucket = newBucket
 			compressedCandle, err := compressCandle(candles, start, k+firstCandleIndex+1)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 5a002eb8b0d91d80fb448c12412f38769a2120e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:23 +0000
Subject: [PATCH 15/20] fix: print a position whose ID is shorter than 8
 characters

Position.String sliced the ID without looking at its length, so logging an
empty position, or one with a short ID, panicked.
---
 market/position.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index 8c65097..bdeb700 100644
--- a/market/position.go
+++ b/market/position.go
@@ -97,8 +97,13 @@ func (p *Position) Update(i interface{}) error {
 }
 
 func (p *Position) String() string {
+	id := p.ID
+	if len(id) > 8 {
+		id = id[:8]
+	}
+
 	return fmt.Sprintf("ID: %s Type: %s Pair: %s Open: %t OpenPrice: %.2f ClosePrice: %.2f Quantity: %.4f Profit: %.2f OpenTime: %s CloseTime: %s # Trades: %d\n",
-		p.ID[0:8],
+		id,
 		p.Type,
 		p.Pair.String(),
 		p.Open,
-- 
2.43.0


From 09b841dee065d3ebde397d99b12fa841a93c599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:23 +0000
Subject: [PATCH 16/20] fix: print a balance that has no asset

Balance.String called String on a nil asset and panicked.
---
 market/balances.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/balances.go b/market/balances.go
index d455028..31b8751 100644
--- a/market/balances.go
+++ b/market/balances.go
@@ -31,5 +31,10 @@ type Balance struct {
 }
 
 func (b *Balance) String() string {
-	return fmt.Sprintf("Asset: %s, Amount: %f\n", b.Asset.String(), b.Amount)
+	var assetStr string
+	if b.Asset != nil {
+		assetStr = b.Asset.String()
+	}
+
+	return fmt.Sprintf("Asset: %s, Amount: %f\n", assetStr, b.Amount)
 }
-- 
2.43.0


From 038ed3846b821900e838fc339786cba1a97d6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:23 +0000
Subject: [PATCH 17/20] fix: return a copy when there is a single candle to
 convert

ModifyInterval returned the slice it was given, so changing the result changed
the caller's candles and the other way round.
---
 market/candle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index cc4a95a..2f559d6 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -42,7 +42,7 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 
 	// If we only have a candle, return the candle, there is nothing to do
 	if len(candles) == 1 {
-		return candles, nil
+		return []Candle{candles[0]}, nil
 	}
 
 	// Check that if we are requesting a minute interval that there is actually
-- 
2.43.0


From 5e6d2307dfa1e60a1a6095dbc90fc4c2e821ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:43:56 +0000
Subject: [PATCH 18/20] fix: refuse to calculate the quantity for a total
 without a price

---
 market/order_request.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/market/order_request.go b/market/order_request.go
index 54a8060..44306c5 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -73,6 +73,15 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 		return nil, ez.New(op, ez.EINVALID, "Either total or quantity must be zero", nil)
 	}
 
+	// Without a price there is no quantity that is worth the total
+	price := o.Price
+	if o.Type == MarketOrder {
+		price = currentPrice
+	}
+	if o.Total != 0 && price == 0 {
+		return nil, ez.New(op, ez.EINVALID, "The quantity for a total can't be calculated without a price", nil)
+	}
+
 	copy := *o
 
 	// MarketOrder
-- 
2.43.0


From bf4564d45f9639b909f134d73b6bb580428c07a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:17 +0000
Subject: [PATCH 19/20] fix: refuse a period below 1 in RSI

---
 indicators/rsi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index d8d5483..b5048e5 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -27,6 +27,8 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
 	} else if len(candles) < 14 {
 		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI with less than 14 candles", nil)
+	} else if period <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Period can't be less than 1", nil)
 	}
 
 	var rsiArray []float32
-- 
2.43.0


From 2cceb863de697307544850a10120a3ec02ca5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:06 +0000
Subject: [PATCH 20/20] fix: count the first candle behind the initial window
 in the exponential average

---
 indicators/ma.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/ma.go b/indicators/ma.go
index 9ebfe0c..396c583 100644
--- a/indicators/ma.go
+++ b/indicators/ma.go
@@ -63,7 +63,9 @@ func ExponentialMovingAverage(candles []market.Candle, period int) ([]float64, e
 		}
 
 		if len(emaArray) == 0 {
-			emaArray = append(emaArray, average(candles[:period]))
+			// The average of the first window is the value before this candle
+			ema := (candles[i].Close * p) + (average(candles[:period]) * (1 - p))
+			emaArray = append(emaArray, ema)
 		} else {
 			ema := (candles[i].Close * p) + (emaArray[len(emaArray)-1] * (1 - p))
 			emaArray = append(emaArray, ema)
-- 
2.43.0

