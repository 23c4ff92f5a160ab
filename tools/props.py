"""Writes properties.jsonl and MANIFEST.json (development tool; the committed files are what counts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["estrade/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": "estrade/" + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "estrade/" + w} for n, w in mech]}})


I, H, C, S = "inputs", "histories", "configurations", "schedules"

prop("C01", "A tick has a valid quote and its prices derive from it",
     "A tick keeps the bid and ask it is given; its spread is ask - bid rounded to 2 decimals and its value is bid plus half that spread, rounded to 2 decimals. "
     "A bid above the ask, or a bid or ask that is not a number, is refused with a tick exception; every other quote (equal, zero and negative prices included) is accepted.",
     [I], "every bid, every ask, every type of value",
     "the tests try a handful of quotes; rounding, equality, zero and sign boundaries are over all numbers",
     ["tick.py"], [("quote validation and derived prices", "tick.py Tick")])
prop("C02", "Every date kept by the package is timezone-aware",
     "Ticks, trades and closes only accept timezone-aware datetimes: a naive datetime, or something that is not a datetime, is refused with a time exception, on creation and on assignment, and a refused assignment keeps the previous date. "
     "Aware Python datetimes are kept as the equivalent Arrow, Arrow dates as they are, and the UTC date is the same instant in UTC.",
     [I], "every date given to a tick, a trade or a close, at creation or later",
     "tests use one or two sample dates",
     ["mixins/timed.py", "tick.py", "trade.py"], [("datetime setter", "mixins/timed.py TimedMixin.datetime")])
prop("C03", "A tick older than the last one of its epic is refused without trace",
     "An epic given a tick strictly older than its last tick raises an epic exception and nothing changes: last tick, market state, frames, trades and strategies are as before and nobody is notified. "
     "A tick at the same instant or later is accepted and becomes the last tick, whatever timezone it comes in.",
     [I, H], "every pair of successive ticks and every state of the epic",
     "tests look at the exception, not at everything the refused tick must leave untouched, nor at every state of the epic",
     ["epic.py"], [("chronology check before any update", "epic.py Epic.on_new_tick")],
     [("last_tick", "the last accepted tick", "epic.py Epic")])
prop("C04", "An accepted tick reaches every frame set, trade and strategy, once, in order",
     "An accepted tick, converted to the timezone of its epic, first becomes the last tick and decides the market state, then is passed once to each frame set of the epic in registration order, then values each opened trade of the epic, and only then each active strategy is called. "
     "No registered frame set, opened trade or active strategy is skipped, called twice or called before the step ahead of it is complete.",
     [I, H, C], "every number of frame sets, trades and strategies and every state they are in",
     "tests register one or two mocks; order and exactly-once delivery hold over any number of them",
     ["epic.py"], [("propagation order", "epic.py Epic.on_new_tick")])
prop("C05", "The market is open within hours, on a trade day that is not a holiday",
     "After a tick, an epic is open exactly when the time of the tick in the epic's timezone is between opening and closing time (both included), its weekday is a trade day and its date is not a holiday; this is decided before the tick is passed on. "
     "A new epic is closed; by default it is open from 9:30 to 17:30 on Monday to Friday without holidays, and given hours, days (an empty list included) and holidays are used as given.",
     [I, C], "every tick date, opening hours, list of trade days and list of holidays",
     "tests sample a few times and days; bounds, empty lists and combinations are not enumerable",
     ["epic.py"], [("market state", "epic.py Epic.is_market_open")], [("market_open", "state after the last tick", "epic.py Epic")])
prop("C06", "Strategies get the opening, closing and tick calls the market state implies",
     "On each accepted tick, every active strategy of the epic, in registration order, gets: market close if the market was open and is now closed, market open if it was closed and is now open, then the open-market tick call if it is open, then always the every-tick call. "
     "Each call is made once, with the epic, and sees the new last tick and market state; the default implementation of these calls does nothing.",
     [I, H, C], "every number of strategies, market transition and activity state",
     "tests cover one strategy and one transition at a time",
     ["epic.py", "strategy.py"], [("dispatch", "epic.py Epic._execute_strategies"), ("hooks", "strategy.py BaseStrategy.on_*")])
prop("C07", "A strategy is ignored while stopped or paused, and no longer",
     "A strategy is active unless it is stopped or the date is strictly before the end of its pause; an inactive strategy receives no call. "
     "The pause is lifted for good at the first date not before its end and is kept until then, and being stopped never changes by itself.",
     [I, H], "every date, pause and stop state",
     "tests check a few dates; the pause state machine is over every sequence of dates",
     ["strategy.py", "epic.py"], [("activity", "strategy.py BaseStrategy.is_active")], [("paused_until", "end of the pause", "strategy.py BaseStrategy")])
prop("C08", "Registration is unique by reference, visible from both sides and atomic",
     "A frame set or strategy added to an epic is found under its reference and knows the epic; adding one whose reference is already used raises an epic exception and changes nothing, and other registrations are never affected. "
     "An epic only accepts known timezones (epic exception otherwise, on creation and on change, keeping the previous one), and a tick provider finds each of its epics by reference and nothing else.",
     [I, H, C], "every reference, set of registrations and timezone name",
     "tests add one or two objects; uniqueness and absence of side effects are over all registries",
     ["epic.py", "tick_provider.py", "strategy.py"], [("add_frame_set / add_strategy", "epic.py Epic"), ("get_epic_by_ref", "tick_provider.py BaseTickProvider")])
prop("C09", "A trade opens on the right side of the quote",
     "A trade opened from a tick or from an epic's last tick enters at the ask and is valued at the bid for a buy, the opposite for a sell, is dated by that tick, and keeps the epic, strategy, quantity, status, reference and meta it is given and nothing else in their place; any other direction is refused with a trade exception. "
     "A trade created with explicit values keeps them, a closing value of zero included; without one it is valued at its open value, and its highest and lowest results both start at its first result.",
     [I], "every quote, direction, quantity and explicit value",
     "tests use fixed numbers and never a zero",
     ["trade.py"], [("open_from_tick / open_from_epic / constructor", "trade.py Trade")])
prop("C10", "Ticks value the opened trades of their epic and only those",
     "Each tick values every opened trade of its epic, and no trade of another epic, at the bid for a buy and the ask for a sell; the highest and lowest results are the extremes of the results seen so far. "
     "A closed trade is never changed by a new value, and valuing a trade changes nothing but its close value and its two extremes.",
     [I, H], "every sequence of values, mix of trades and state of each trade",
     "tests mark one trade a few times",
     ["trade.py", "epic.py"], [("update / update_from_tick", "trade.py Trade"), ("per-epic marking", "epic.py Epic._update_open_trades")],
     [("max_result, min_result", "extremes of the result", "trade.py Trade")])
prop("C11", "The result of a trade is the result of its closes plus its opened part",
     "For a buy a unit earns close minus open price, for a sell the opposite, rounded to 2 decimals; a close is worth that times its quantity (rounded), the opened part that at the current close value times the opened quantity, and the result of the trade is the sum of both. "
     "Opened quantity is the quantity opened minus the quantities closed, a trade is closed exactly when none is left, averages are per closed unit and per unit of the trade, and reading any of these changes nothing.",
     [I, H], "every direction, price, quantity and sequence of partial closes",
     "tests check sample numbers with one or two closes",
     ["trade.py"], [("result properties", "trade.py Trade, TradeClose")])
prop("C12", "A close never closes more than what is opened, nor a quantity of zero or less",
     "Closing without quantity closes all that is opened; a larger quantity is reduced to what is opened; zero and negative quantities are refused with a trade exception and leave no trace. "
     "So the opened quantity never becomes negative nor grows by a close, through any sequence of closes.",
     [I, H], "every quantity and sequence of closes",
     "tests try a couple of quantities on fresh trades",
     ["trade.py"], [("close", "trade.py Trade.close")])
prop("C13", "A close is recorded once, at the given price and date, on its trade",
     "Closing a trade appends exactly one close holding its trade, price, quantity, date, status (created unless given), reference and meta, after the earlier ones. "
     "Closing from a tick or an epic uses the price of the side a trade closes on (bid for a buy, ask for a sell) and the date of the tick, includes that price in the trade's highest and lowest results, and changes nothing else.",
     [I, H], "every trade, tick and sequence of earlier closes",
     "tests check one close of one trade",
     ["trade.py"], [("close / close_from_tick / close_from_epic", "trade.py Trade")])
prop("C14", "Each opening and closing is registered and requested exactly once",
     "A provider opening a trade registers it, and registers it with its strategy if any, before it sends the open request once; closing sends the close request once; each request runs in its own thread, tracked by the provider, which is alive while any of them runs. "
     "The backtest provider's requests confirm the trade or the close they are given and change nothing else.",
     [I, H, S], "every provider state and trade; the request is considered at the point where its thread starts",
     "tests cannot see the order between registering and starting the thread, and use a single provider state",
     ["trade_provider.py"], [("open_trade / close_trade", "trade_provider.py BaseTradeProvider"), ("confirmation", "trade_provider.py TradeProviderBacktests")],
     [("threads", "tracked requests", "trade_provider.py BaseTradeProvider")])
prop("C15", "Strategies and epics route openings and closings to the right provider, once",
     "Opening through an epic, or through a strategy on an epic, makes a trade at the epic's last tick, owned by that epic (and strategy), and hands it once to the epic's provider; a refused opening leaves no trace. "
     "Closing through an epic or a strategy closes at the last tick and hands the close once to the provider of the trade's epic; closing all opened trades of a strategy closes each opened one, once, newest first, and no other.",
     [I, H, C], "every strategy, epic, trade and set of trades",
     "tests mock the provider and use one trade",
     ["epic.py", "strategy.py"], [("open_trade / close_trade", "epic.py Epic"), ("open_trade / close_trade / close_opened_trades", "strategy.py BaseStrategy")])
prop("C16", "Backtests net a new trade against opposite trades of the same strategy",
     "Before a backtest opens a trade, the opened trades of the same strategy and epic in the opposite direction are closed, newest first, at their epic's last price, each by at most the quantity still to open, and the new trade's quantity is reduced by as much; netting stops when nothing remains. "
     "The new trade is registered once, with what remains and with its highest and lowest results restarted, only if something remains; trades in the same direction, closed, or of other strategies or epics are left alone.",
     [I, H], "every set of opened trades and quantities (collections of bounded size)",
     "tests net one trade against one",
     ["trade_provider.py"], [("netting loop", "trade_provider.py TradeProviderBacktests.open_trade")])
prop("C17", "Listing trades filters exactly as asked, newest first",
     "The opened trades of a provider are its trades with something left opened, newest first. "
     "The trades of a strategy are listed newest first, restricted to the given epics (none for an empty list), to opened ones when asked, and to those dated at or after a given date when trades are recorded chronologically; listing changes nothing.",
     [I, H], "every list of trades and combination of filters",
     "tests use a few trades and single filters",
     ["strategy.py", "trade_provider.py"], [("get_trades", "strategy.py BaseStrategy"), ("opened_trades", "trade_provider.py BaseTradeProvider")])
prop("C18", "Result and profit factor cover exactly the trades given",
     "The result of a strategy is the sum of the results of the given trades rounded to 2 decimals; its profit factor is their gains when there is no loss, else gains over losses in absolute value rounded to 2 decimals, losses smaller than 1 counting as 1. "
     "Trades may be a list or a generator, an empty one gives 0, only a missing argument means all trades of the strategy, and reading changes nothing.",
     [I, H], "every list of trades and results",
     "tests use a few fixed results, never an empty selection",
     ["strategy.py"], [("result / profit_factor", "strategy.py BaseStrategy")])
prop("C19", "A frame holds the first, last, highest and lowest of its ticks and their number",
     "A frame starts with one tick, which is first, last, highest and lowest, and each tick added makes it the last one, counts one more and replaces the highest (lowest) only when its value is strictly above (below). "
     "The first tick, the period and the links of a frame never change when a tick is added, and a frame is closed exactly when another one follows it.",
     [I, H], "every sequence of ticks",
     "tests feed two or three ticks",
     ["graph/frame_set.py"], [("Frame.on_new_tick", "graph/frame_set.py Frame")])
prop("C20", "Timed frames roll over on aligned boundaries, without gaps",
     "In a frame set by time, a tick before the end of the current period goes to the current frame; a later one starts a frame whose period is the aligned one that holds the tick and whose first tick it is. "
     "Periods skipped without ticks get one frame each, contiguous, holding only the last known tick, so that each frame starts where the previous one ends, and the tick is never counted in the frame that ends.",
     [I, H, C], "every unit and quantity, current frame and tick, up to the gaps stated in DESIGN.md",
     "tests use one unit and one gap",
     ["graph/frame_set.py", "mixins/timeframe.py"], [("_create_new_frame_timed", "graph/frame_set.py FrameSet"), ("alignment", "mixins/timeframe.py TimeframeMixin")])
prop("C21", "Frames of ticks end when full or when the day changes",
     "In a frame set by ticks, a tick goes to the current frame unless that frame already holds the asked number of ticks or the tick is of a later day than the frame's last tick; then it starts a new frame, dated by the tick and without end, linked to the previous one. "
     "The same holds when ticks come through the epic, in its timezone.",
     [I, H, C], "every quantity, current frame and tick",
     "tests feed ticks directly and never across midnight through an epic",
     ["graph/frame_set.py", "epic.py"], [("_is_tick_frame_over / is_frame_over_tick", "graph/frame_set.py FrameSet")])
prop("C22", "Frames form one chain and no more than the asked number is kept",
     "After any sequence of ticks, the frames kept are the most recent ones, never more than the maximum (100 by default) and none dropped before it is reached, frames made for skipped periods included. "
     "Each frame kept is linked to its neighbours in both directions, the oldest kept one has no previous frame, and the current frame is the last one.",
     [H, C], "every maximum and sequence of frames (up to 5 frames per maximum, and any maximum up to 4 frames)",
     "tests check one maximum",
     ["graph/frame_set.py"], [("create_new_frame / clean_old_frames", "graph/frame_set.py FrameSet")])
prop("C23", "Periods are aligned on their unit and every accepted quantity divides it",
     "The period of a date starts at the last multiple of the quantity of seconds, minutes, hours, weekdays (Monday first), Mondays, months of the year or years, at midnight for days and longer, and lasts that quantity of the unit; for fixed-length units it holds the date. "
     "Quantities below 1 are refused with a timeframe exception, as are those that do not divide 60 seconds, 60 minutes, 12 hours, 7 days, 1 week or 12 months; every other quantity, and any positive number of years or ticks, is accepted.",
     [I, C], "every unit, quantity and date",
     "tests sample a few dates and quantities per unit",
     ["mixins/timeframe.py", "enums/__init__.py"], [("get_frame_start / get_frame_end / quantity check", "mixins/timeframe.py TimeframeMixin")])
prop("C24", "Every frame has a value of each indicator, fed with every tick of the frame",
     "An indicator added to a frame set is known by its reference and knows the frame set and its epic; one the frame set refuses (an RSI needing more frames than are kept) stays unattached and changes nothing. "
     "A new frame asks each indicator for a value; each later tick goes once to each value the frame has, with the market state, and indicators without a value are asked again: in a frame started out of market hours, an indicator limited to them has a value only from the first tick of market hours.",
     [I, H, C], "every set of indicators, frame and market state",
     "tests use one indicator and one market state",
     ["graph/frame_set.py", "graph/base_indicator.py", "graph/indicators/rsi.py"], [("_upsert_indicators", "graph/frame_set.py Frame"), ("build_value_from_frame", "graph/base_indicator.py BaseIndicator")])
prop("C25", "An indicator value follows its own ticks and finds its neighbours",
     "A value starts on the last tick of its frame and then tracks first, last, highest and lowest (replaced only when strictly exceeded) of the ticks it gets, ignoring those out of market hours when its indicator asks so. "
     "Its previous value is the closest earlier one of the same indicator, skipping frames without one, its next value the one of the next frame, and its closed state and number of ticks are those of its frame.",
     [I, H], "every sequence of ticks, market states and chain of frames (up to three frames back)",
     "tests use short chains where every frame has a value",
     ["graph/base_indicator.py"], [("BaseIndicatorValue", "graph/base_indicator.py")])
prop("C26", "Japanese candles show the prices of their ticks",
     "A Japanese candle has as open, high, low and last prices the values of its first, highest, lowest and last ticks rounded to 2 decimals, and a close price, the last one, only once its frame is over. "
     "Its color compares last with open (green above, red below, black equal, whatever their sign or zero), height is high - low, body, head and tail are the distances between open, last and the extremes, none negative; without open or last price there is no color nor shape; candle sets give Japanese candles by default.",
     [I], "every set of tick values",
     "tests use positive sample prices",
     ["graph/indicators/candle_set.py"], [("JapaneseCandle / BaseCandle", "graph/indicators/candle_set.py")])
prop("C27", "Heikin-Ashi candles average their ticks and follow the previous candle",
     "A Heikin-Ashi candle's last price is the mean of its first, highest, lowest and last ticks, its open price the middle of open and last prices of the previous candle (its first tick when there is none), its high and low the extremes of open, last and its ticks, all rounded to 2 decimals. "
     "Its close price exists only once its frame is over, and color and shape derive from these prices as for any candle.",
     [I, H], "every set of tick values and previous candle",
     "tests use one chain of sample prices",
     ["graph/indicators/candle_set.py"], [("HeikinAshiCandle", "graph/indicators/candle_set.py")])
prop("C28", "Pivot levels come from the previous period by the published formulas",
     "The classic pivot is the mean of the highest, lowest and last values of the previous period; the OLHC one also averages the opening of the current period; rounded to 2 decimals. "
     "The three supports and three resistances are 2P-H, P-(H-L), L-2(H-P) and 2P-L, P+(H-L), H+2(P-L), rounded, present whenever a previous period exists (a pivot of zero included) and absent otherwise; the classic type is the default.",
     [I, C], "every set of previous values and pivot type",
     "tests use one set of sample prices",
     ["graph/indicators/pivot.py"], [("PivotTypeClassic / PivotTypeOLHC", "graph/indicators/pivot.py")])
prop("C29", "A moving average is the mean of the last prices, or nothing",
     "The average over n periods is the mean of the last prices of the n most recent frames, the current one's latest tick included, rounded to 2 decimals; with fewer than n frames known it is absent. "
     "Each value keeps at most the maximum number of periods minus one earlier prices, in order, for every maximum (1 included).",
     [I, H, C], "every price, maximum and number of periods (histories up to the stated sizes)",
     "tests use one maximum and a few prices",
     ["graph/indicators/simple_moving_average.py"], [("SimpleMovingAverageValue", "graph/indicators/simple_moving_average.py")])
prop("C30", "RSI is the share of gains in the last changes, or nothing",
     "Once as many changes between successive frames' last prices as its periods times the frame set's unit quantity are known, the RSI is 100 when there is no loss, 0 when there is no gain, else 100 - 100 / (1 + gains / losses) over exactly the last changes, rounded to 2 decimals, and it follows each tick of the current frame. "
     "Before that it is absent; older changes never count, and a value cannot be made for an RSI that is not attached to a frame set (indicator exception).",
     [I, H, C], "every change and number of periods (up to the stated sizes)",
     "tests check a few sample series",
     ["graph/indicators/rsi.py"], [("RSIValue / RSI", "graph/indicators/rsi.py")])
prop("C31", "A CSV report has one line per strategy and per trade, and never loses lines",
     "A report writes in its folder (created when missing, 'reports' by default) one line per strategy, in order, with reference, number of trades, result and profit factor, and, unless told not to, one file per strategy with one line per trade, newest first. "
     "A new file starts with its header once; an existing file is continued without a second header and without being truncated; every line is written once, in order.",
     [I, H], "every list of strategies, trades and file state",
     "tests use one strategy and mock or single-run files",
     ["reporting/csv.py"], [("ReportingCSV.report / CSVWriter", "reporting/csv.py")])
prop("C32", "Frames and indicator values are found by offset and reference",
     "Indexing a frame set counts frames from the oldest kept (0) or from the current one (-1); an epic counts back from the current frame (0, the default); out of range gives nothing rather than an error. "
     "An indicator value is the one its frame holds under that reference, or nothing; an unknown frame set reference never finds the frames of another one; lookups change nothing.",
     [I, H], "every number of frames, offset and reference",
     "tests try a few offsets",
     ["graph/frame_set.py", "epic.py"], [("__getitem__", "graph/frame_set.py FrameSet, Frame"), ("get_frame / get_indicator_value", "epic.py Epic")])
prop("C33", "Objects never share mutable state they were not given",
     "Two epics, strategies, trade or tick providers, frame sets, frames, indicators, indicator values, trades, closes or ticks made independently never see each other's registrations, trades, frames, history, settings, calendars or meta. "
     "This holds for those created before and for those created after the change, and a value built from the previous one works on its own copy of the history.",
     [I, H, C], "every class of the package and instances made before or after",
     "tests build fresh objects each time and rarely two of them side by side",
     ["epic.py", "strategy.py", "trade_provider.py", "trade.py", "graph/frame_set.py", "graph/base_indicator.py", "mixins/meta.py"], [("constructors", "every class")])
prop("C34", "Refusals raise the package's exceptions and nothing is swallowed",
     "Every error the package raises itself is one of its own exceptions, all of them catchable as the package's base exception, or NotImplementedError for operations left to implement. "
     "No handler in the package catches everything, or every package exception, and goes on.",
     [I, "programs"], "every raise statement and exception handler of the package",
     "tests only reach some raise statements and no handler with an unexpected error",
     ["exceptions.py", "epic.py", "tick.py", "trade.py"], [("exception hierarchy", "exceptions.py")])
prop("C35", "Operations left to implement refuse to run",
     "Requests of the base trade provider, running the base tick provider, prices of the base candle and levels of the base pivot raise NotImplementedError rather than returning something. "
     "A base provider never confirms a trade by itself.",
     [I, C], "every argument and state",
     "tests do not exercise each abstract operation",
     ["trade_provider.py", "tick_provider.py", "graph/indicators/candle_set.py", "graph/indicators/pivot.py"], [("abstract operations", "trade_provider.py BaseTradeProvider")])
prop("C36", "Trades and ticks are described faithfully as dictionaries",
     "The dictionary of a trade has exactly its reference, status, epic reference, strategy reference ('undefined' without one), opening date (YYYY-MM-DD HH:mm:ss), direction, opened quantity, open value, closed quantities and result. "
     "The dictionary of a tick has exactly its date (as text when asked), bid, ask, spread and value; reading them changes nothing.",
     [I], "every trade and tick",
     "tests compare one sample",
     ["trade.py", "tick.py"], [("asdict", "trade.py Trade, tick.py Tick")])

prop("C37", "Values read are never stale, and reading changes nothing",
     "Spread, value and dictionary of a tick, results and quantities of a trade or close, state of a frame or frame set, and every value of a candle, pivot, moving average or RSI always reflect the latest tick, price, close or frame, whether or not they were read before. "
     "Reading any of them, any number of times, changes neither the object nor what is read later.",
     [H], "every order of reads and updates",
     "tests read once, at the end: a value remembered from an earlier read is only seen by reading between two updates",
     ["tick.py", "trade.py", "strategy.py", "epic.py", "graph/frame_set.py", "graph/base_indicator.py", "graph/indicators/candle_set.py", "graph/indicators/pivot.py", "graph/indicators/simple_moving_average.py", "graph/indicators/rsi.py"],
     [("derived properties", "trade.py Trade"), ("indicator values", "graph/indicators")])
prop("C38", "Recorded trades and closes are never lost or rewritten",
     "A trade recorded by a provider or a strategy, and a close recorded by a trade, stay recorded, once, in the order they came, whatever ticks, openings, nettings, closings, requests and reports follow. "
     "The quantity, price and date of a recorded close never change.",
     [H], "every history of operations after the recording",
     "tests look at the books after one operation on few trades",
     ["trade.py", "trade_provider.py", "strategy.py", "epic.py", "reporting/csv.py"],
     [("registries of trades", "trade_provider.py BaseTradeProvider.open_trade"), ("closes", "trade.py Trade.close")],
     [("trades", "every trade opened", "trade_provider.py BaseTradeProvider"), ("closes", "every close of the trade", "trade.py Trade")])
prop("C39", "Objects are what they are asked to be",
     "An object given a reference keeps it, and gets a non-empty one of its own otherwise. "
     "Every other setting given to a constructor (timezone, hours, calendar, provider, dates, prices, quantities, direction, status, non-empty meta, periods, unit, limits, market-hours flag, folder) is kept as given and has its documented default otherwise, and settings given when opening or closing through a strategy, an epic or a tick reach the trade or close.",
     [I, C], "every setting and value of it",
     "tests give a few settings at a time",
     ["epic.py", "strategy.py", "tick.py", "trade.py", "trade_provider.py", "graph/frame_set.py", "graph/base_indicator.py", "mixins/ref.py", "mixins/meta.py", "mixins/transaction.py"],
     [("constructors", "every class"), ("settings passed on", "trade.py Trade.open_from_tick, Trade.close_from_tick")])
prop("C40", "Runs are reproducible",
     "The same ticks, settings and operations always give the same ticks, trades, closes, frames, indicator values, market states, calls and results: none of them depends on the wall clock, random numbers, object identities or the environment. "
     "Only automatic references and the names of report files may differ between two runs.",
     [I, H], "every run of the same operations, at any time and in any process",
     "tests run once, at one time, in one environment",
     ["epic.py", "strategy.py", "tick.py", "trade.py", "trade_provider.py", "graph/frame_set.py", "graph/indicators/rsi.py"],
     [("sources of indeterminacy", "mixins/ref.py RefMixin.ref, reporting/csv.py ReportingCSV.report")])
prop("C41", "A refused operation leaves everything as it was",
     "When a price, date, direction, quantity to close, registration, indicator or tick is refused with an exception, whatever the way it was asked, no trade, close, request, registration or setting is recorded, replaced or lost. "
     "Objects keep the prices, dates and attachments they had.",
     [I], "every invalid input, through every operation that takes it",
     "tests check the exception and rarely the state after it",
     ["epic.py", "tick.py", "trade.py", "trade_provider.py", "mixins/timed.py", "graph/frame_set.py", "graph/indicators/rsi.py"],
     [("validation before recording", "trade.py Trade.close, graph/frame_set.py FrameSet.add_indicator, epic.py Epic.add_frame_set")])

NA = [
    ("C90", "Frames stay contiguous across clock changes",
     "Across a daylight-saving change of the epic's timezone, aligned periods stay contiguous and every tick falls in the period that holds its instant.",
     [I], "every timezone and clock change", "tests use UTC or fixed offsets", ["mixins/timeframe.py"],
     "depends on the tz database and on wall-clock arithmetic of the arrow library at run time: no static argument over the package's source bounds it"),
    ("C91", "Concurrent requests do not corrupt the books",
     "Whatever the interleaving of request threads with ticks, no trade or close is lost or counted twice and every started request finishes.",
     [S], "every interleaving of provider threads", "tests run one thread at a time", ["trade_provider.py"],
     "requests are user code: what they touch and whether they end is not in this source; the package's own requests only set a status (decided in C14)"),
    ("C92", "Automatic references are unique",
     "Objects created without a reference never share one in the same process.",
     [H], "every number of objects created", "collisions are improbable in a test", ["mixins/ref.py"],
     "references are 5 random hexadecimal digits: uniqueness is a probability, not a property of the source"),
    ("C93", "Prices and results are free of accumulated rounding error",
     "Results computed with floating point numbers equal the exact decimal results to 2 decimals.",
     [I, H], "every sequence of prices", "tests use short series", ["trade.py", "strategy.py"],
     "a bound on the rounding error needs bounds on magnitudes and lengths that the source does not give"),
    ("C94", "Long histories use bounded memory and stack",
     "Memory and recursion depth stay bounded by the maximum number of frames whatever the number of ticks.",
     [H], "every length of history", "tests run short histories", ["graph/frame_set.py", "graph/indicators/candle_set.py"],
     "retention is decided in C22; the depth of the Heikin-Ashi recursion against the interpreter's limit and the collector's behaviour are run-time quantities"),
]
for id, t, s, o, txt, why, files, reason in NA:
    prop(id, t, s, o, txt, why, files, [("see anchors", files[0])])

LINT = {"C34"}
TECH = "abstract interpretation of the source (joins, call inlining, loop summaries) compared with a reference model"
NOTE = ("Static: the package is never run. Obligations marked 'all sizes' in the evidence hold for every input of the model "
        "(exact rational numbers, no NaN); those marked with sizes hold for collections of those sizes. Trusted: the analyser "
        "in sa/, the reference models in specs/, and the assumed behaviour of the standard library, arrow and pytz.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if not p["anchors"]["state"]:
                del p["anchors"]["state"]
            f.write(json.dumps(p) + "\n")
    na = {x[0] for x in NA}
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 10))'",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                     "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": "rules over the resolved syntax tree (raise sites, handlers, class hierarchy)" if p["id"] in LINT else TECH,
                     "level": "other",
                     "level_note": "Every raise statement, handler and exception class of the package is visited." if p["id"] in LINT else NOTE}
                    for p in P if p["id"] not in na],
         "not_applicable": [{"property": x[0], "reason": x[-1]} for x in NA],
         "notes": "DESIGN.md describes the analyser, the decision per property and the planted bugs."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]


main()
