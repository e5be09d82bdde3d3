From 7375df591b124126b371c8004b1b0b298dd25fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 01/26] fix: uint256.Udivrem returns remainder u when u has
 fewer words than d

Dividing a number by one with more words read past the quotient and panicked,
e.g. fullmath.MulDiv(5, 3, 2^128).
---
 uint256/uint256.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..ee51cab 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,12 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	// u has fewer words than d, so the quotient is zero and u the remainder.
+	if uLen < dLen {
+		copy(rem[:], u[:uLen])
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From 1be54f4850b3fc44c0ef320da2e51f475432817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 02/26] fix: compress negative ticks towards negative infinity
 in the tick search

Integer division truncates towards zero, so the word bounds for a negative tick
that is not a multiple of the spacing were off by one and a swap could be given
a target price on the wrong side of the current price.
---
 lib/tickdata/tickdata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..5bb3b86 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -166,6 +166,9 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed-- // round towards negative infinity
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From 840b7bae059ab0f2d3d5455ad364caf9f2ea37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 03/26] fix: key positions by the decimal tick values

string(int) yields the character with that code point, and the same replacement
character for every negative tick, so different ranges shared one position.
---
 lib/pool/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..9ae58b1 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -97,7 +98,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +168,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From f49bf1c28c3c2a9c9c11022ffe4b164580b7a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/26] fix: ExactOutputSwap specifies a negative amount

swap treats a positive amount as exact input, so the requested output was spent
as input instead.
---
 lib/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index 9ae58b1..11d58b7 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -199,7 +199,7 @@ func (p *Pool) ExactInputSwap(inputAmount *ui.Int, token string, sqrtPriceLimitX
 
 func (p *Pool) ExactOutputSwap(outputAmount *ui.Int, token string, sqrtPriceLimitX96 *ui.Int) (*ui.Int, *ui.Int) {
 	zeroForOne := token == p.Token1
-	return p.swap(zeroForOne, outputAmount, sqrtPriceLimitX96)
+	return p.swap(zeroForOne, new(ui.Int).Neg(outputAmount), sqrtPriceLimitX96)
 }
 
 func (p *Pool) modifyPosition(lower int, upper int, amount *ui.Int) {
-- 
2.43.0


From 2a325f39a5a0f5cde7e86662474ef1085ebba3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 05/26] fix: position.Clone copies the owed amount of token0

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From d27f80fedfd50943559814a2ef8d7c9e6bfccd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 06/26] fix: TickData.Clone copies the numbers of every tick

The copied ticks pointed to the same numbers, which Cross and UpdateTick modify
in place, so a pool and its clone changed each other.
---
 lib/tickdata/tickdata.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 5bb3b86..039bf78 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -26,6 +26,13 @@ func (t *TickData) Clone() *TickData {
 		tickSpacing: t.tickSpacing,
 	}
 	copy(newTickData.ticks, t.ticks)
+	for i := range newTickData.ticks {
+		tick := &newTickData.ticks[i]
+		tick.LiquidityNet = tick.LiquidityNet.Clone()
+		tick.LiquidityGross = tick.LiquidityGross.Clone()
+		tick.FeeGrowthOutside0X128 = tick.FeeGrowthOutside0X128.Clone()
+		tick.FeeGrowthOutside1X128 = tick.FeeGrowthOutside1X128.Clone()
+	}
 	return newTickData
 }
 
-- 
2.43.0


From c2f25d2daa00d5fe6bffad82bd063fe3ddc5004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 07/26] fix: next price for token1 input above 160 bits uses
 full-precision mulDiv

amount * 2^96 overflowed 256 bits.
---
 lib/sqrtprice_math/sqrtprice_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..fa44c4f 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -98,7 +98,7 @@ func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int
 		if amount.Cmp(MaxUint160) <= 0 {
 			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
 		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
+			quotient = fm.MulDiv(amount, cons.Q96, liquidity)
 		}
 		return new(ui.Int).Add(sqrtPX96, quotient)
 	}
-- 
2.43.0


From 357f713c4e63a09be38b0dad6110db7e94fde678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/26] fix: amount less fee uses full-precision mulDiv

amountRemaining * (1e6 - fee) overflowed 256 bits for large remaining amounts.
---
 lib/swapmath/swapmath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0


From abb61f5ebbdd160aa3d0e132d5444a6ccd1dfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 09/26] fix: collecting from a position that never existed
 returns zero

It dereferenced a nil position; the contract pays out nothing.
---
 lib/pool/pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index 11d58b7..b35f4c2 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -170,6 +170,10 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
 	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos := p.Positions[searchString]
+	if pos == nil {
+		// Nothing was ever owed to a position that never existed
+		return ui.NewInt(0), ui.NewInt(0)
+	}
 
 	amount0 = pos.TokensOwed0.Clone()
 	amount1 = pos.TokensOwed1.Clone()
-- 
2.43.0


From 829b70f15a727641997db98e7bf603028cf97d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 10/26] fix: BurnAll forgets the burned positions

TwoIntervalAroundPrice, ConstantInterval and IntervalAroundPrice kept them, so
GetAmounts counted them twice and a second BurnAll burned them again.
---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..861c97d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..0c08b57 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From 1d8a9e22e052b7450f7391777807d9a5d48c79f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/26] fix: do not mint a zero amount of liquidity

Init of ConstantInterval and IntervalAroundPrice and both steps of
IntervalAroundPriceAndSwap crashed when the budget affords no liquidity (for
example a one-sided budget inside the range); every other mint skips it.
---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 861c97d..352900b 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -74,6 +74,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0c08b57..12b1fea 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -75,6 +75,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..c223bbe 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -94,6 +94,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From 1aebcc955b180c091e4ccdd20458900545639b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 12/26] fix: volatility strategies skip an empty band

With a flat price window the band collapses to one tick and the liquidity
computation divided by zero.
---
 lib/strategy/bollinger_bands.go            | 3 +++
 lib/strategy/bollinger_fill_up.go          | 3 +++
 lib/strategy/volatility_sized_intervals.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index efb4516..02fa79e 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -98,6 +98,9 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 434172d..1e08e2f 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -99,6 +99,9 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsFillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 288a35a..32cfa1d 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -96,6 +96,9 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 }
 
 func (s *VolatilitySizedIntervalStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
-- 
2.43.0


From 486719026fc8f3f480968fad3f484e5de7e9f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 13/26] fix: full range of the v2 strategy is aligned to the
 pool's tick spacing

-887270 is a multiple of 10 only, not of the spacings 60 and 200.
---
 lib/strategy/v2_strategy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/strategy/v2_strategy.go b/lib/strategy/v2_strategy.go
index 678f65a..ac00a29 100644
--- a/lib/strategy/v2_strategy.go
+++ b/lib/strategy/v2_strategy.go
@@ -19,7 +19,8 @@ func (s *V2Strategy) Rebalance() (currAmount0, currAmount1 *ui.Int) {
 	currAmount0, currAmount1 = s.BurnAll()
 
 	// New Positions
-	tickLower := -887270
+	tickSpacing := s.Pool.TickSpacing
+	tickLower := -(tickmath.MaxTick / tickSpacing * tickSpacing)
 	tickUpper := -tickLower
 	s.mintPosition(tickLower, tickUpper)
 	return
@@ -91,7 +92,8 @@ func (s *V2Strategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	currAmount0, currAmount1 = s.Amount0.Clone(), s.Amount1.Clone()
 
 	// New Positions
-	tickLower := -887270
+	tickSpacing := s.Pool.TickSpacing
+	tickLower := -(tickmath.MaxTick / tickSpacing * tickSpacing)
 	tickUpper := -tickLower
 	s.mintPosition(tickLower, tickUpper)
 	return
-- 
2.43.0


From a160d0e394925d7865548c88500f7770cf4202ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 14/26] fix: limit order is one tick spacing wide

10 is the spacing of the 0.05 % pools only; elsewhere the order was not aligned.
---
 lib/strategy/limit_order.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index d3de10b..7a3085d 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -118,7 +118,7 @@ func (s *LimitOrderStrategy) setPositions() {
 	// Secondary position
 	if !s.Amount0.IsZero() {
 		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
-		tickUpper = tickLower + 10
+		tickUpper = tickLower + tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickUpper
 		s.Direction = true
@@ -126,7 +126,7 @@ func (s *LimitOrderStrategy) setPositions() {
 
 	if !s.Amount1.IsZero() {
 		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
-		tickLower = tickUpper - 10
+		tickLower = tickUpper - tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickLower
 		s.Direction = false
-- 
2.43.0


From 99cf88bb42f09896af5a4548d05681a5f1693fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 15/26] fix: reject burning more than the position holds

The liquidity of the position and its ticks wrapped around; the contract rejects
such a burn, and one of an empty position.
---
 lib/pool/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index b35f4c2..9d3d13f 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -156,6 +156,9 @@ func (p *Pool) MintStrategy(tickLower int, tickUpper int, amount *ui.Int) (amoun
 // BurnStrategy doesn't actually pay out. It just updates the position.
 func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.Int, *ui.Int) {
 
+	pos := p.Positions[strconv.Itoa(tickLower)+"-"+strconv.Itoa(tickUpper)]
+	invariant.Invariant(pos != nil && !pos.Liquidity.IsZero() && !amount.Gt(pos.Liquidity), "amount must not exceed the liquidity of the position")
+
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
 	pos, amount0Int, amount1Int := p.modifyPositionStrategy(tickLower, tickUpper, amountMinus)
-- 
2.43.0


From 814d312885847a94649eca9986c8ab83585d264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 16/26] fix: an execution may start after the last transaction

The capacity of the snapshot slice became negative and CreateExecution crashed.
---
 lib/executor/executor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..c3308ee 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -24,6 +24,9 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 	maxTime := transactions[len(transactions)-1].Timestamp
 	length := (maxTime - startTime) / updateInterval
+	if length < 0 {
+		length = 0
+	}
 	snapshots := make([]*ui.Int, 0, length)
 
 	return &Execution{
-- 
2.43.0


From 15a7c6fd4267af7af26f601cd9731e57d52a344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 17/26] fix: price samples are due from the first transaction
 on

The schedule started at time zero and advances by one interval per sample, so
with real timestamps it never caught up and every transaction was sampled; the
window then held the last n transactions instead of the last n intervals.
---
 lib/executor/executor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index c3308ee..c945c4e 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -53,6 +53,9 @@ func (e *Execution) Run() {
 	nextSnapshot := math.MaxInt64
 	// We need some Snapshots for Init(), the easiest way is to get Snapshots from the first transaction
 	nextPriceSnapshot := 0
+	if len(transactions) > 0 {
+		nextPriceSnapshot = transactions[0].Timestamp - 1
+	}
 	//limitRebalance := false
 	for _, trans := range transactions {
 
-- 
2.43.0


From 8092b0c91f2dd9b8c9dbbb0ef9eb8b351c725fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 18/26] fix: reject prices whose square overflows 256 bits

The check looked at the product modulo 2^256 only.
---
 lib/prices/prices.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..cc390e2 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -24,7 +24,8 @@ func (p *Prices) Add(price *ui.Int) {
 	//Square the price
 	// For USDC - ETH Pool this never overflows. Absolutely not guaranteed otherwise.
 	// Todo Fix this so it never overflows
-	priceSquareX192 := new(ui.Int).Mul(price, price)
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(price, price)
+	invariant.Invariant(!overflow, "Price square should not overflow")
 
 	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
 	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
-- 
2.43.0


From cc009a72712d672436930a6d15e47f320b188034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 19/26] fix: rounding must not make the variance negative

The square root was NaN, which JSON cannot represent, and the whole result file
stayed empty.
---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index de5b2ab..48ccdbc 100644
--- a/main.go
+++ b/main.go
@@ -176,6 +176,10 @@ func calculateStd(prices []*ui.Int) float64 {
 	sum2 = sum2 / float64(quotient)
 
 	variance := sum1 - sum2
+	if variance < 0 {
+		// rounding error
+		variance = 0
+	}
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0


From 915edd9ccc3ccf84538811c7c6ec057061ce2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 20/26] fix: reading hexadecimal text replaces the old value

---
 uint256/conversion.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index c0e6655..1b2606d 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -79,6 +79,7 @@ func (z *Int) fromHex(hex string) error {
 	if len(hex) > 66 {
 		return ErrBig256Range
 	}
+	z.Clear()
 	end := len(hex)
 	for i := 0; i < 4; i++ {
 		start := end - 16
-- 
2.43.0


From ce67c3a618e92a9ebd9a81a4d3de98767140cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 21/26] fix: SetBytes29 rejects inputs shorter than 29 bytes

---
 uint256/conversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index 1b2606d..8203ea2 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -364,7 +364,7 @@ func (z *Int) SetBytes21(in []byte) *Int {
 }
 
 func (z *Int) SetBytes29(in []byte) *Int {
-	_ = in[23] // bounds check hint to compiler; see golang.org/issue/14808
+	_ = in[28] // bounds check hint to compiler; see golang.org/issue/14808
 	z[3] = bigEndianUint40(in[0:5])
 	z[2] = binary.BigEndian.Uint64(in[5:13])
 	z[1] = binary.BigEndian.Uint64(in[13:21])
-- 
2.43.0


From a08e2c9fceccf557e834960ec5b5d358e1e166f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 22/26] fix: the tick search works when no tick is initialised

---
 lib/tickdata/tickdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 039bf78..9dabf7d 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -179,7 +179,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-		if t.isBelowSmallest(tick) {
+		if len(t.ticks) == 0 || t.isBelowSmallest(tick) {
 			return minimum, false
 		}
 
@@ -189,7 +189,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	} else {
 		wordPos := (compressed + 1) >> 8
 		maximum := (((wordPos + 1) << 8) - 1) * t.tickSpacing
-		if t.isAtOrAboveLargest(tick) {
+		if len(t.ticks) == 0 || t.isAtOrAboveLargest(tick) {
 			return maximum, false
 		}
 		index := t.nextInitializedTick(tick, lte).Index
-- 
2.43.0


From f5053cc46ec97dc622c4d6aa94980ae38cefdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 23/26] fix: keep strategy ranges within the ticks the pool
 allows

---
 lib/strategy/2_interval_around_price.go             |  4 ++++
 lib/strategy/constant_intervall_strategy.go         |  7 +++++++
 lib/strategy/fill_up.go                             |  4 ++++
 lib/strategy/interval_around_average.go             |  9 ++++++++-
 lib/strategy/interval_around_current_price.go       |  8 ++++++++
 lib/strategy/limit_order.go                         |  8 ++++++++
 lib/strategy/strategy.go                            | 13 +++++++++++++
 .../swap_half_constant_interval_current_price.go    |  4 ++++
 8 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index a48413a..56e0e2b 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -68,6 +68,10 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 }
 
 func (s *TwoIntervalAroundPriceStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 352900b..62aed5d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -70,7 +70,11 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
 	s.tickLower, s.tickUpper = tickLower, tickUpper
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
@@ -103,6 +107,9 @@ func (s *ConstantIntervalStrategy) Rebalance() (currAmount0, currAmount1 *ui.Int
 	// New Positions
 	tickLower := s.tickLower
 	tickUpper := s.tickUpper
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
diff --git a/lib/strategy/fill_up.go b/lib/strategy/fill_up.go
index 62fd952..fcdc1ca 100644
--- a/lib/strategy/fill_up.go
+++ b/lib/strategy/fill_up.go
@@ -60,6 +60,10 @@ func (s *FillUpStrategy) BurnAll() (retAmount0, retAmount1 *ui.Int) {
 }
 
 func (s *FillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/interval_around_average.go b/lib/strategy/interval_around_average.go
index 561091e..0047069 100644
--- a/lib/strategy/interval_around_average.go
+++ b/lib/strategy/interval_around_average.go
@@ -72,7 +72,10 @@ func (s *IntervalAroundAverageStrategy) BurnAll() (retamount0, retamount1 *ui.In
 func (s *IntervalAroundAverageStrategy) getTicks() (tickLower, tickUpper int) {
 	priceX192 := s.PriceHistory.Average()
 	sqrtPriceX96 := new(ui.Int).Sqrt(priceX192)
-	tick := tickmath.TM.GetTickAtSqrtRatio(sqrtPriceX96)
+	tick := tickmath.MinTick
+	if sqrtPriceX96.Cmp(tickmath.MinSqrtRatio) >= 0 {
+		tick = tickmath.TM.GetTickAtSqrtRatio(sqrtPriceX96)
+	}
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower = tickmath.Round(tick-s.IntervalWidth, tickSpacing)
 	tickUpper = tickmath.Round(tick+s.IntervalWidth, tickSpacing)
@@ -80,6 +83,10 @@ func (s *IntervalAroundAverageStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *IntervalAroundAverageStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 12b1fea..be50af4 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -70,6 +70,10 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
@@ -106,6 +110,10 @@ func (s *IntervalAroundPriceStrategy) Rebalance() (currAmount0, currAmount1 *ui.
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 
 	// New Positions
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index 7a3085d..1bdd718 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -63,6 +63,10 @@ func (s *LimitOrderStrategy) GetDirection() bool {
 }
 
 func (s *LimitOrderStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
@@ -86,6 +90,10 @@ func (s *LimitOrderStrategy) mintAmount(tickLower, tickUpper int, amount *ui.Int
 }
 
 func (s *LimitOrderStrategy) mintHalf(tickLower, tickUpper int) {
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/strategy.go b/lib/strategy/strategy.go
index 8736267..3d620f2 100644
--- a/lib/strategy/strategy.go
+++ b/lib/strategy/strategy.go
@@ -2,6 +2,7 @@ package strategy
 
 import (
 	"uniswap-simulator/lib/pool"
+	"uniswap-simulator/lib/tickmath"
 	ui "uniswap-simulator/uint256"
 )
 
@@ -21,3 +22,15 @@ type Strategy interface {
 	//GetCurrentLimitTick() int
 	//GetDirections() bool
 }
+
+// boundTicks cuts a range off at the outermost ticks the pool allows.
+func boundTicks(tickLower, tickUpper, tickSpacing int) (int, int) {
+	maxTick := tickmath.MaxTick / tickSpacing * tickSpacing
+	if tickLower < -maxTick {
+		tickLower = -maxTick
+	}
+	if tickUpper > maxTick {
+		tickUpper = maxTick
+	}
+	return tickLower, tickUpper
+}
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index c223bbe..83bf13c 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -64,6 +64,10 @@ func (s *IntervalAroundPriceAndSwapStrategy) BurnAll() (retamount0, retamount1 *
 }
 
 func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper = boundTicks(tickLower, tickUpper, s.Pool.TickSpacing)
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
-- 
2.43.0


From ff77c1462c39ea85ee6b028814f89401963e6bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 24/26] fix: the swapping strategy does not swap beyond the end
 of the price range

---
 lib/strategy/swap_half_constant_interval_current_price.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index 83bf13c..c3c8a92 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -83,7 +83,7 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 	if amount0Cmp.Cmp(amount1Diff) > 0 {
 		// amount0 is more than amount1
 		amount0DiffHalf := new(ui.Int).Div(amount0Diff, ui.NewInt(2))
-		if amount0DiffHalf.Sign() == 1 {
+		if amount0DiffHalf.Sign() == 1 && s.Pool.SqrtRatioX96.Cmp(new(ui.Int).Add(tickmath.MinSqrtRatio, cons.One)) > 0 {
 			amount0Swap, amount1Swap := s.Pool.ExactInputSwap(amount0DiffHalf, s.Pool.Token0, cons.Zero)
 			s.Amount0.Sub(s.Amount0, amount0Swap)
 			s.Amount1.Sub(s.Amount1, amount1Swap)
@@ -91,7 +91,7 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 	} else {
 		// amount1 is more than amount0
 		amount1DiffHalf := new(ui.Int).Div(amount1Diff, ui.NewInt(2))
-		if amount1DiffHalf.Sign() == 1 {
+		if amount1DiffHalf.Sign() == 1 && s.Pool.SqrtRatioX96.Cmp(new(ui.Int).Sub(tickmath.MaxSqrtRatio, cons.One)) < 0 {
 			amount0Swap, amount1Swap := s.Pool.ExactInputSwap(amount1DiffHalf, s.Pool.Token1, cons.Zero)
 			s.Amount0.Sub(s.Amount0, amount0Swap)
 			s.Amount1.Sub(s.Amount1, amount1Swap)
-- 
2.43.0


From 7a32a2fc60350483a340d536a2eec461f41f4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 25/26] fix: value conversion is exact for prices whose square
 exceeds 256 bits

---
 lib/executor/executor.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index c945c4e..01fb4fe 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -2,8 +2,9 @@ package executor
 
 import (
 	"math"
+	"math/big"
 	cons "uniswap-simulator/lib/constants"
-	"uniswap-simulator/lib/fullmath"
+	"uniswap-simulator/lib/invariant"
 	strat "uniswap-simulator/lib/strategy"
 	ent "uniswap-simulator/lib/transaction"
 	ui "uniswap-simulator/uint256"
@@ -42,6 +43,16 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 }
 
+// convertToToken0 is amount1 / price, rounded down. The square of the price may have more than 256 bits.
+func convertToToken0(amount1, sqrtPriceX96 *ui.Int) *ui.Int {
+	priceX192 := sqrtPriceX96.ToBig()
+	priceX192.Mul(priceX192, priceX192)
+	amount0 := new(big.Int).Lsh(amount1.ToBig(), 192)
+	ret, overflow := ui.FromBig(amount0.Div(amount0, priceX192))
+	invariant.Invariant(!overflow, "value must fit in 256 bits")
+	return ret
+}
+
 func (e *Execution) Run() {
 	//
 	strategy := e.Strategy
@@ -69,8 +80,7 @@ func (e *Execution) Run() {
 			amount0, amount1 := strategy.Init()
 			// Not Precise
 			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+			amount1to0 := convertToToken0(amount1, x96)
 			amountUSD := new(ui.Int).Add(amount1to0, amount0)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
@@ -98,8 +108,7 @@ func (e *Execution) Run() {
 		if trans.Timestamp >= nextSnapshot {
 			amount0, amount1 := strategy.GetAmounts()
 			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+			amount1to0 := convertToToken0(amount1, x96)
 			amountUSD := new(ui.Int).Add(amount1to0, amount0)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 			nextSnapshot += e.SnapShotInterval
@@ -128,8 +137,7 @@ func (e *Execution) Run() {
 
 	amount0, amount1 := strategy.BurnAll()
 	x96 := strategy.GetPool().SqrtRatioX96
-	priceSquareX192 := new(ui.Int).Mul(x96, x96)
-	amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+	amount1to0 := convertToToken0(amount1, x96)
 	amountUSD := new(ui.Int).Add(amount1to0, amount0)
 	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
-- 
2.43.0


From ca15e2caa476556da1b7f58add02a452bd54c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 26/26] fix: a return from or to a value of zero is left out of
 the risk figures

---
 main.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index 48ccdbc..5f761bd 100644
--- a/main.go
+++ b/main.go
@@ -96,6 +96,10 @@ func main() {
 func getReturns(prices []*ui.Int) []float64 {
 	returns := make([]float64, 0, len(prices))
 	for i := 1; i < len(prices); i++ {
+		// a return from or to zero has no logarithm
+		if prices[i-1].IsZero() || prices[i].IsZero() {
+			continue
+		}
 		sIMinus1 := prices[i-1].ToBig()
 		sI := prices[i].ToBig()
 		sIMinus1F, _ := new(big.Float).SetInt(sIMinus1).Float64()
@@ -127,10 +131,10 @@ func calculateMaximumDrawdown(prices []*ui.Int) float64 {
 
 // MAR is Zero
 func calculateDownDeviation(prices []*ui.Int) float64 {
-	if len(prices) <= 2 {
+	returns := getReturns(prices)
+	if len(returns) <= 1 {
 		return 0
 	}
-	returns := getReturns(prices)
 	sum := 0.0
 	for _, r := range returns {
 		if r < 0 {
@@ -146,10 +150,10 @@ func calculateDownDeviation(prices []*ui.Int) float64 {
 
 // VaR 95%
 func calculateVar(prices []*ui.Int) float64 {
-	if len(prices) <= 2 {
+	returns := getReturns(prices)
+	if len(returns) <= 1 {
 		return 0
 	}
-	returns := getReturns(prices)
 	sort.Float64s(returns)
 	idx := len(returns) / 20
 	var95 := returns[idx]
@@ -157,10 +161,10 @@ func calculateVar(prices []*ui.Int) float64 {
 }
 
 func calculateStd(prices []*ui.Int) float64 {
-	if len(prices) <= 2 {
+	returns := getReturns(prices)
+	if len(returns) <= 1 {
 		return 0
 	}
-	returns := getReturns(prices)
 	n := len(returns)
 	sum1 := 0.0
 	for _, r := range returns {
-- 
2.43.0

