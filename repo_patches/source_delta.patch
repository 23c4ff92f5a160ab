From f2e91ab6a29c9c408b655f2e1664a85c14192d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 01/14] fix: stop netting opposite trades once the new trade
 quantity is used up

---
 estrade/trade_provider.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..d3b4a35 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,6 +164,9 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
+            if trade.open_quantity <= 0:
+                # every requested quantity was used to close opposite trades
+                break
             if open_trade.direction == opposite_direction:
                 logger.info(
                     "A trade was opened when another is still open in "
-- 
2.43.0


From 133062f703d041696be37dbe6084680a7c7853e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 02/14] fix: reset min/max results when netting reduces the
 opened quantity

---
 estrade/trade_provider.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index d3b4a35..30514cc 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -187,6 +187,9 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                # min/max results must only reflect the quantities really opened
+                trade.max_result = trade.result
+                trade.min_result = trade.result
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From 1caee39ec24c28482d14bc1cc28691f4ddf1a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 03/14] fix: refuse to close a zero or negative quantity

---
 estrade/trade.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..8a083b6 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -230,7 +230,10 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             The [`TradeClose`][estrade.trade.TradeClose] instance created.
 
         """
-        quantity = quantity or self.opened_quantities
+        if quantity is None:
+            quantity = self.opened_quantities
+        elif quantity <= 0:
+            raise TradeException(f"Invalid quantity to close: {quantity}")
 
         if quantity > self.opened_quantities:
             logger.error(
-- 
2.43.0


From d750f2c84e32c8126fa41682fdaf1ac5a4cb9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 04/14] fix: keep a zero close value on trade creation

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 8a083b6..b4f8dda 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From 8622ac45fd2c4cbe7e1bbf43285522b0b3b36fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 05/14] fix: only update trades of the epic receiving the tick

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..c83893f 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,8 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            if trade.epic is self:
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
-- 
2.43.0


From b6865284bb2e07daf40f16f3b72f9599a13b3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 06/14] fix: do not replace an empty list of trade days by the
 default one

---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index c83893f..44bee17 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -79,7 +79,7 @@ class Epic(RefMixin):
         self.timezone: str = timezone
         self.open_time = open_time
         self.close_time = close_time
-        self.trade_days = trade_days or [0, 1, 2, 3, 4]
+        self.trade_days = [0, 1, 2, 3, 4] if trade_days is None else trade_days
         self.holidays = holidays or []
         self.trade_provider = trade_provider or TradeProviderBacktests()
 
-- 
2.43.0


From fd08aa2b3618f38aac02323e16afadadd06bd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 07/14] fix: close tick frames on day change when ticks come
 from the epic

---
 estrade/graph/frame_set.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..e0ac782 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -167,7 +167,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         self._is_timeframe_over_func = self.is_frame_over_timed
         self._create_new_frame_func = self._create_new_frame_timed
         if self.unit == Unit.TICK:
-            self._is_timeframe_over_func = self.is_frame_over_tick
+            self._is_timeframe_over_func = self._is_tick_frame_over
             self._create_new_frame_func = self._create_new_frame_tick
 
         self.epic: Optional["Epic"] = None
@@ -255,6 +255,16 @@ class FrameSet(TimeframeMixin, RefMixin):
             return True
         return False
 
+    def _is_tick_frame_over(self, tick: "Tick") -> bool:
+        if self.is_frame_over_tick(tick):
+            return True
+        # the epic last tick may already be the new tick, so the day change is also
+        # checked against the last tick of the current frame.
+        return bool(
+            self.current
+            and tick.datetime.date() > self.current.last_tick.datetime.date()
+        )
+
     def add_tick_to_last(self, tick: "Tick") -> None:
         if self.current:
             self.current.on_new_tick(tick)
-- 
2.43.0


From 1ab72258d3f98aaf6178ab85e5b04561825ef6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 08/14] fix: do not attach an indicator refused by its frame
 set

---
 estrade/graph/frame_set.py      | 2 +-
 estrade/graph/indicators/rsi.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index e0ac782..6450cd2 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -187,8 +187,8 @@ class FrameSet(TimeframeMixin, RefMixin):
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
-        self.indicators[indicator.ref] = indicator
         indicator.set_frame_set(self)
+        self.indicators[indicator.ref] = indicator
 
     def clean_old_frames(self):
         import gc
diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..4519953 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -127,9 +127,10 @@ class RSI(BaseIndicator):
         self.rsi_periods: Optional[int] = None
 
     def set_frame_set(self, frame_set: "FrameSet") -> None:
-        super(RSI, self).set_frame_set(frame_set)
-        self.rsi_periods = self.periods * frame_set.unit_quantity
-        if self.rsi_periods > frame_set.max_frames_in_memory:
+        rsi_periods = self.periods * frame_set.unit_quantity
+        if rsi_periods > frame_set.max_frames_in_memory:
             raise BaseIndicatorException(
                 "Not enough frames kept in memory to calculate RSI"
             )
+        super(RSI, self).set_frame_set(frame_set)
+        self.rsi_periods = rsi_periods
-- 
2.43.0


From c0b2211f490edaf20003cc9cdc60c1cec12e27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 09/14] fix: write csv rows when the report file already exists

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From c72740fb3ae5b120a9808218bd9c8ef4fcddd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 10/14] fix: do not replace an empty list of trades by all
 trades of the strategy

---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From 28c9a2c042c88cd36d65aacaa4e63eaac31f62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 11/14] fix: keep no previous value for indicators on a single
 period

---
 estrade/graph/indicators/rsi.py                   | 6 +++++-
 estrade/graph/indicators/simple_moving_average.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 4519953..21fb2f8 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,11 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            self.last_changes = (
+                self.last_changes[(max_last_changes_size * -1) :]
+                if max_last_changes_size > 0
+                else []
+            )
 
             self._update_rsi()
 
diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..6b0c6fa 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,11 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        self.last_closes = (
+            self.last_closes[(max_last_closes_size * -1) :]
+            if max_last_closes_size > 0
+            else []
+        )
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From d94d9724c985056aea47d03ea001baa9a4b9119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 12/14] fix: compute supports and resistances of a zero pivot

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 7d54cc0d6c48d9ff9e497ccd258f32750c759808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 13/14] fix: compute color and shape of candles opening or
 ending on zero

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From 65142126bf1ef142158735d54f09dae75a899e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 14/14] fix: refuse zero or negative timeframe quantities

---
 estrade/mixins/timeframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..a60218b 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -34,6 +34,9 @@ class TimeframeMixin:
         self._check_unit_consistency()
 
     def _check_unit_consistency(self) -> None:
+        if self.unit_quantity < 1:
+            raise TimeFrameException("Invalid timeframe Unit quantity")
+
         if self.unit in [Unit.TICK, Unit.YEAR]:
             return
 
-- 
2.43.0

