from estrade.enums import TradeDirection, Unit
from estrade.epic import Epic
from estrade.graph.frame_set import Frame, FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage
from estrade.strategy import BaseStrategy
from estrade.tick import Tick
from estrade.tick_provider import BaseTickProvider
from estrade.trade import Trade, TradeClose
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def epics(frame_set: FrameSet, strategy: BaseStrategy, trade: Trade):
    """registering on an epic does not show on another one"""
    a = Epic(ref="a")
    b = Epic(ref="b")
    assume(frame_set.ref != "", strategy.ref != "")
    check(a.trade_provider is not b.trade_provider, "each epic has its own default provider")
    check(a.frame_sets is not b.frame_sets and a.strategies is not b.strategies, "own registries")
    check(a.last_tick is not b.last_tick, "own last tick")
    a.add_frame_set(frame_set)
    a.add_strategy(strategy)
    a.trade_provider.trades.append(trade)
    check_same((len(b.frame_sets), len(b.strategies), len(b.trade_provider.trades)), (0, 0, 0), "the other one is empty")
    c = Epic(ref="c")
    check_same((len(c.frame_sets), len(c.strategies), len(c.trade_provider.trades)), (0, 0, 0), "a later one is empty")
    if isinstance(a.holidays, list):
        a.holidays.append("2020-12-25")
    if isinstance(a.trade_days, list):
        a.trade_days.append(5)
    check_same((len(b.holidays), len(b.trade_days), len(Epic().holidays), len(Epic().trade_days)), (0, 5, 0, 5),
               "calendars are not shared")


def ticks_of_epics(tick: Tick):
    """a tick received by an epic is not known by another one"""
    a = Epic(ref="a")
    b = Epic(ref="b")
    assume(tick.datetime >= a.last_tick.datetime)
    before = b.last_tick
    a.on_new_tick(tick)
    check(b.last_tick is before, "last tick of the other one")
    check_same(b.market_open, False, "market state of the other one")


def strategies(trade: Trade, epic: Epic):
    a = BaseStrategy(ref="a")
    b = BaseStrategy(ref="b")
    a.trades.append(trade)
    a.epics[epic.ref] = epic
    a.stopped = True
    a.paused_until = epic.last_tick.datetime
    check_same((len(b.trades), len(b.epics), b.stopped, b.paused_until), (0, 0, False, None), "another strategy")
    c = BaseStrategy(ref="c")
    check_same((len(c.trades), len(c.epics), c.stopped, c.paused_until), (0, 0, False, None), "a later strategy")


def providers(trade: Trade, other: Trade):
    observe("BaseTradeProvider.open_trade_request", silent=True)
    a = BaseTradeProvider(ref="a")
    b = BaseTradeProvider(ref="b")
    a.open_trade(trade)
    check_same((len(b.trades), len(b.threads), b.is_alive), (0, 0, False), "another provider")
    c = TradeProviderBacktests(ref="c")
    check_same((len(c.trades), len(c.threads), c.is_alive), (0, 0, False), "a later provider")


def frame_sets(frame: Frame, ref: Str):
    a = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref="a")
    b = FrameSet(unit=Unit.HOUR, unit_quantity=1, ref="b")
    a.frames.append(frame)
    a.add_indicator(CandleSet(ref="candles"))
    check_same((len(b.frames), len(b.indicators), b.current), (0, 0, None), "another frame set")
    c = FrameSet(unit=Unit.HOUR, unit_quantity=1, ref="c")
    check_same((len(c.frames), len(c.indicators), c.current), (0, 0, None), "a later frame set")
    check_same((a.unit, a.unit_quantity, b.unit, b.unit_quantity), (Unit.MINUTE, 5, Unit.HOUR, 1), "own timeframe")


def frames(fs: FrameSet, tick: Tick, other: Tick, start: Arrow):
    fs.indicators = {}
    a = Frame(parent_frameset=fs, first_tick=tick, period_start=start)
    b = Frame(parent_frameset=fs, first_tick=tick, period_start=start)
    a.on_new_tick(other)
    a.indicators["x"] = None
    check_same((b.nb_ticks, len(b.indicators)), (1, 0), "another frame")
    check(b.last_tick is tick, "ticks of another frame")
    c = Frame(parent_frameset=fs, first_tick=tick, period_start=start)
    check_same((c.nb_ticks, len(c.indicators)), (1, 0), "a later frame")


def indicator_values(frame: Frame, other: Frame):
    """values of one indicator, or of two of the same kind, keep their own history"""
    frame.previous_frame = None
    other.previous_frame = None
    ind = SimpleMovingAverage(max_periods=5, ref="a")
    a = ind.build_value_from_frame(frame, True)
    b = ind.build_value_from_frame(other, True)
    a.last_closes.append(1)
    check_same(len(b.last_closes), 0, "another value")
    check_same(len(ind.build_value_from_frame(frame, True).last_closes), 0, "a later value")
    check_same(len(SimpleMovingAverage(max_periods=5, ref="b").build_value_from_frame(frame, True).last_closes), 0,
               "another indicator")
    x = SimpleMovingAverage(max_periods=7, ref="b")
    check_same((ind.max_periods, x.max_periods, ind.ref, x.ref), (5, 7, "a", "b"), "own settings")


def indicators(fs: FrameSet, other: FrameSet):
    a = RSI(periods=2, ref="a")
    b = RSI(periods=3, ref="b")
    assume(fs.max_frames_in_memory >= 2 * fs.unit_quantity)
    fs.add_indicator(a)
    check_same((b.frame_set, b.rsi_periods, b.periods), (None, None, 3), "another indicator is not attached")


def values_following(frame: Frame, p: Frame, ref: Str, old: SimpleMovingAverageValue, n: Num):
    """a new value works on its own copy of the closes of the previous value"""
    assume(ref != "", p is not frame)
    old.frame = p
    old.last_closes = [n]
    frame.previous_frame = p
    p.indicators = {ref: old}
    v = SimpleMovingAverage(max_periods=5, ref=ref).build_value_from_frame(frame, True)
    v.last_closes.append(3)
    check_same(list(old.last_closes), [n], "closes of the previous value")


def trades(epic: Epic, tick: Tick, quantity: Int, dt: Arrow):
    assume(quantity > 1)
    a = Trade(epic=epic, direction=TradeDirection.BUY, quantity=quantity, open_value=10, open_datetime=dt, ref="a")
    b = Trade(epic=epic, direction=TradeDirection.BUY, quantity=quantity, open_value=10, open_datetime=dt, ref="b")
    a.close(close_value=12, quantity=1, datetime=dt)
    check_same((len(b.closes), b.opened_quantities, b.result), (0, quantity, 0), "another trade")
    c = Trade(epic=epic, direction=TradeDirection.SELL, quantity=quantity, open_value=10, open_datetime=dt)
    check_same((len(c.closes), c.opened_quantities), (0, quantity), "a later trade")
    a.meta["k"] = 1
    check_same((len(b.meta), len(c.meta)), (0, 0), "own meta")


def meta(dt: Arrow, trade: Trade):
    a = Tick(datetime=dt, bid=1, ask=2)
    b = Tick(datetime=dt, bid=1, ask=2)
    a.meta["k"] = 1
    check_same((len(b.meta), len(Tick(datetime=dt, bid=1, ask=2).meta)), (0, 0), "meta of another tick")
    x = TradeClose(trade=trade, close_value=1, quantity=1, datetime=dt)
    y = TradeClose(trade=trade, close_value=1, quantity=1, datetime=dt)
    x.meta["k"] = 1
    check_same(len(y.meta), 0, "meta of another close")


def tick_providers(epic: Epic):
    assume(epic.ref != "")
    a = BaseTickProvider(epics=[epic])
    b = BaseTickProvider(epics=[])
    check_same(b.get_epic_by_ref(epic.ref), None, "another tick provider")
    check(a.get_epic_by_ref(epic.ref) is epic, "own epics")


def alike(trade: Trade, frame: Frame, fs: FrameSet, epic: Epic, ref: Str, tick: Tick, dt: Arrow):
    """objects made with the same settings, the same reference included, are still separate"""
    observe("BaseTradeProvider.open_trade_request", silent=True)
    assume(ref != "", fs.ref != "", epic.ref != "")
    a, b = BaseStrategy(ref=ref), BaseStrategy(ref=ref)
    check(a is not b, "two strategies")
    a.trades.append(trade)
    a.epics[epic.ref] = epic
    a.stopped = True
    a.paused_until = dt
    for o in (b, BaseStrategy(ref=ref)):
        check_same((len(o.trades), len(o.epics), o.stopped, o.paused_until), (0, 0, False, None), "strategy of the same reference")
    p, q = BaseTradeProvider(ref=ref), BaseTradeProvider(ref=ref)
    p.open_trade(trade)
    for o in (q, BaseTradeProvider(ref=ref), TradeProviderBacktests(ref=ref)):
        check_same((len(o.trades), len(o.threads), o.is_alive), (0, 0, False), "provider of the same reference")
    e, f = Epic(ref=ref), Epic(ref=ref)
    assume(tick.datetime >= e.last_tick.datetime)
    check(e is not f and e.trade_provider is not f.trade_provider, "two epics")
    e.add_frame_set(fs)
    e.add_strategy(a)
    was = f.last_tick
    e.last_tick = tick
    e.market_open = True
    e.trade_provider.trades.append(trade)
    check(f.last_tick is was, "last tick of the epic of the same reference")
    for o in (f, Epic(ref=ref)):
        check_same((len(o.frame_sets), len(o.strategies), len(o.trade_provider.trades), o.market_open), (0, 0, 0, False),
                   "epic of the same reference")
    x = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref=ref)
    y = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref=ref)
    x.frames.append(frame)
    x.add_indicator(CandleSet(ref=ref))
    for o in (y, FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref=ref)):
        check_same((len(o.frames), len(o.indicators), o.current), (0, 0, None), "frame set of the same reference")


def alike_made(trade: Trade, epic: Epic, ref: Str, dt: Arrow, fs: FrameSet, tick: Tick, other: Tick):
    """trades, closes, ticks, frames and indicators alike"""
    assume(ref != "")
    a = Trade(epic=epic, direction=TradeDirection.BUY, quantity=9, open_value=1, open_datetime=dt, ref=ref)
    b = Trade(epic=epic, direction=TradeDirection.BUY, quantity=9, open_value=1, open_datetime=dt, ref=ref)
    a.meta["x"] = 1
    a.close(close_value=2, datetime=dt, quantity=1)
    a.update(5)
    for o in (b, Trade(epic=epic, direction=TradeDirection.BUY, quantity=9, open_value=1, open_datetime=dt, ref=ref)):
        check_same((len(o.meta), len(o.closes), o.opened_quantities, o.current_close_value, o.max_result), (0, 0, 9, 1, 0), "another trade")
    k, l = TradeClose(trade=a, close_value=1, quantity=1, datetime=dt, ref=ref), TradeClose(trade=a, close_value=1, quantity=1, datetime=dt, ref=ref)
    k.meta["x"] = 1
    k.status = None
    check_same((len(l.meta), l.status is None), (0, False), "another close")
    t, u = Tick(datetime=dt, bid=1, ask=2), Tick(datetime=dt, bid=1, ask=2)
    t.meta["x"] = 1
    t.bid = 0
    for o in (u, Tick(datetime=dt, bid=1, ask=2)):
        check_same((len(o.meta), o.bid, o.value), (0, 1, 1.5), "another tick")
    fs.indicators = {}
    m, n = Frame(parent_frameset=fs, first_tick=tick, period_start=dt), Frame(parent_frameset=fs, first_tick=tick, period_start=dt)
    m.on_new_tick(other)
    m.indicators[ref] = None
    for o in (n, Frame(parent_frameset=fs, first_tick=tick, period_start=dt)):
        check_same((o.nb_ticks, len(o.indicators)), (1, 0), "another frame")
    i, j = RSI(periods=2, ref=ref), RSI(periods=2, ref=ref)
    assume(fs.max_frames_in_memory >= 2 * fs.unit_quantity)
    fs.add_indicator(i)
    check_same((j.frame_set, j.rsi_periods), (None, None), "another indicator")
