import arrow
from estrade.enums import CandleColor, CandleType, TradeDirection, Unit
from estrade.epic import Epic
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
from estrade.graph.frame_set import Frame, FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.pivot import Pivot
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage
from estrade.strategy import BaseStrategy
from estrade.tick import Tick
from estrade.tick_provider import BaseTickProvider
from estrade.trade import Trade, TradeClose
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def ticks(dt: Arrow, a: Num, b: Num, c: Num, d: Num, later: Arrow):
    """a tick whose quote or date is corrected"""
    assume(a <= b, c <= d, a <= d)
    t = Tick(datetime=dt, bid=a, ask=b)
    first = (t.spread, t.value, t.asdict(), t.datetime_utc)
    check_same((t.spread, t.value, t.asdict(), t.datetime_utc), first, "the same when read again")
    t.ask = d
    t.bid = c
    t.datetime = later
    check_same(t.spread, round(d - c, 2), "spread of the new quote")
    check_same(t.value, round(c + round(d - c, 2) / 2, 2), "value of the new quote")
    check_same(t.datetime_utc, later.to("UTC"), "UTC date of the new date")
    check_same((t.asdict()["bid"], t.asdict()["ask"], t.asdict()["spread"]), (c, d, round(d - c, 2)), "new dictionary")


def trades(epic: Epic, direction: TradeDirection, a: Num, b: Num, c: Num, dt: Arrow):
    """results are read between the events of a trade"""
    sign = 1 if direction == TradeDirection.BUY else -1
    t = Trade(epic=epic, direction=direction, quantity=4, open_value=a, open_datetime=dt)
    read = lambda: (t.result, t.result_avg, t.opened_result, t.opened_result_avg, t.closed_result, t.closed_result_avg,
                    t.opened_quantities, t.closed_quantities, t.closed, t.asdict()["result"], t.asdict()["closed_quantities"])
    check_same(read(), read(), "the same when read again")
    t.update(b)
    unit = round(sign * (b - a), 2)
    check_same((t.opened_result_avg, t.opened_result, t.result, t.asdict()["result"]), (unit, unit * 4, unit * 4, unit * 4), "after a value")
    check_same(read(), read(), "the same when read again")
    t.close(close_value=c, datetime=dt, quantity=1)
    gain = round(sign * (c - a), 2)
    check_same((t.opened_quantities, t.closed_quantities, t.closed, t.asdict()["closed_quantities"]), (3, 1, False, 1), "after a close")
    check_same((t.closed_result, t.opened_result, t.result), (gain, unit * 3, gain + unit * 3), "after a close")
    check_same(read(), read(), "the same when read again")
    t.close(close_value=b, datetime=dt)
    check_same((t.opened_quantities, t.closed_quantities, t.closed), (0, 4, True), "once closed")
    check_same((t.opened_result, t.closed_result, t.result), (0, gain + round(unit * 3, 2), gain + round(unit * 3, 2)), "once closed")


def closes(trade: Trade, a: Num, n: Int, dt: Arrow):
    """a close whose price or quantity is corrected"""
    k = TradeClose(trade=trade, close_value=a, quantity=n, datetime=dt)
    check_same((k.result_avg, k.result), (k.result_avg, k.result), "the same when read again")
    for v, m in [(a + 1, n), (a + 1, n + 2)]:
        k.close_value = v
        k.quantity = m
        unit = round(v - trade.open_value, 2) if trade.direction == TradeDirection.BUY else round(trade.open_value - v, 2)
        check_same((k.result_avg, k.result), (unit, round(unit * m, 2)), "after the change")


def frames(a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    """frames and frame sets are read between ticks"""
    for t, v in [(a, x), (b, y), (c, z)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=2)
    check_same((fs.current, fs[0], fs[-1]), (None, None, None), "nothing before the first tick")
    fs.on_new_tick(a)
    first = fs.current
    check(fs[0] is first and fs[-1] is first and fs[1] is None, "one frame")
    check_same((first.closed, first.nb_ticks), (False, 1), "current frame")
    fs.on_new_tick(b)
    second = fs.current
    check(second is not first and fs[0] is first and fs[-1] is second and fs[1] is second and fs[2] is None, "two frames")
    check_same((first.closed, second.closed), (True, False), "the first frame is over")
    fs.on_new_tick(c)
    check(fs[0] is second and fs[-1] is fs.current and fs.current is not second and fs[2] is None, "the oldest is gone")


def candles(a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    """candles are read between ticks"""
    for t, v in [(a, x), (b, y), (c, z)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(CandleSet(ref="candles"))
    fs.on_new_tick(a)
    v = fs.current["candles"]
    check_same((v.open, v.high, v.low, v.last, v.close, v.color, v.body), (round(x, 2), round(x, 2), round(x, 2), round(x, 2), None, CandleColor.BLACK, 0), "one tick")
    fs.add_tick_to_last(b)
    check_same((v.open, v.high, v.low, v.last, v.close), (round(x, 2), round(max(x, y), 2), round(min(x, y), 2), round(y, 2), None), "two ticks")
    check_same(v.color, CandleColor.GREEN if round(y, 2) > round(x, 2) else CandleColor.RED if round(y, 2) < round(x, 2) else CandleColor.BLACK, "color")
    check_same((v.closed, v.nb_ticks, v.next), (False, 2, None), "not over yet")
    fs.on_new_tick(c)
    check_same((v.close, v.closed, v.nb_ticks), (round(y, 2), True, 2), "over")
    check(v.next is fs.current["candles"] and v.next.previous is v, "followed")


def heikin_ashi(a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    for t, v in [(a, x), (b, y), (c, z)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref="candles"))
    fs.on_new_tick(a)
    v = fs.current["candles"]
    check_same((v.open, v.last, v.close), (round(x, 2), round((x + x + x + x) / 4, 2), None), "one tick")
    fs.add_tick_to_last(b)
    last = round((x + max(x, y) + min(x, y) + y) / 4, 2)
    check_same((v.open, v.last, v.close), (round(x, 2), last, None), "two ticks")
    fs.on_new_tick(c)
    check_same((v.close, fs.current["candles"].open), (last, round((round(x, 2) + last) / 2, 2)), "over")


def averages(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    for t, v in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(SimpleMovingAverage(max_periods=2, ref="sma"))
    fs.on_new_tick(a)
    v = fs.current["sma"]
    check_same((v.get_value(1), v.get_value(2)), (round(x, 2), None), "one frame")
    fs.add_tick_to_last(b)
    check_same((v.get_value(1), v.get_value(2)), (round(y, 2), None), "its second tick")
    fs.on_new_tick(c)
    v = fs.current["sma"]
    check_same((v.get_value(1), v.get_value(2)), (round(z, 2), round((y + z) / 2, 2)), "two frames")
    fs.add_tick_to_last(d)
    check_same((v.get_value(1), v.get_value(2)), (round(w, 2), round((y + w) / 2, 2)), "the second tick of the second frame")


def _rsi(changes):
    up = sum([c for c in changes if c >= 0])
    down = sum([c for c in changes if c < 0])
    n = len(changes)
    if down == 0:
        return 100
    if up == 0:
        return 0
    return round(100 - 100 / (1 + (up / n) / abs(down / n)), 2)


def strength(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    for t, v in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(RSI(periods=1, ref="rsi"))
    fs.on_new_tick(a)
    check_same(fs.current["rsi"].value, None, "no change yet")
    fs.on_new_tick(b)
    check_same(fs.current["rsi"].value, _rsi([y - x]), "one change")
    fs.add_tick_to_last(c)
    check_same(fs.current["rsi"].value, _rsi([z - x]), "the change of the second tick")
    fs.add_tick_to_last(d)
    check_same(fs.current["rsi"].value, _rsi([w - x]), "the change of the third tick")


def pivots(a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    for t, v in [(a, x), (b, y), (c, z)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(Pivot(ref="pivots"))
    fs.on_new_tick(a)
    check_same((fs.current["pivots"].pivot, fs.current["pivots"].support1), (None, None), "first period")
    fs.on_new_tick(b)
    check_same(fs.current["pivots"].pivot, round((x + x + x) / 3, 2), "second period")
    fs.on_new_tick(c)
    p = round((y + y + y) / 3, 2)
    check_same((fs.current["pivots"].pivot, fs.current["pivots"].resistance1), (p, round(p * 2 - y, 2)), "third period")


def neighbours(a: Tick, b: Tick, c: Tick):
    """neighbours are looked for again when frames come and go"""
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=2)
    fs.add_indicator(BaseIndicator(value_class=BaseIndicatorValue, ref="i"))
    fs.on_new_tick(a)
    first = fs.current["i"]
    check(first.next is None and first.previous is None and not first.closed, "alone")
    fs.on_new_tick(b)
    second = fs.current["i"]
    check(first.next is second and second.previous is first and second.next is None and first.closed, "followed")
    fs.on_new_tick(c)
    check(second.next is fs.current["i"] and second.previous is None, "the oldest one has no previous value")


def market(a: Tick, b: Tick, tz: Str):
    """the market state is decided again for each tick and each setting"""
    e = Epic(ref="e", timezone="UTC")
    x, y = a.datetime.to("UTC"), b.datetime.to("UTC")
    assume(a is not b, x >= e.last_tick.datetime, y >= x)
    is_open = lambda dt: arrow.get("2020-01-01 09:30:00").time() <= dt.time() <= arrow.get("2020-01-01 17:30:00").time()
    e.on_new_tick(a)
    first = e.is_market_open()
    check_same(first, e.market_open, "as on the tick")
    e.on_new_tick(b)
    check_same(e.is_market_open(), e.market_open, "as on the next tick")
    e.trade_days = []
    check_same(e.is_market_open(), False, "without trade days")


def lookups(fs: FrameSet, frame: Frame, value: BaseIndicatorValue, other: Frame):
    """lookups of an epic follow its frame sets"""
    e = Epic(ref="e")
    fs.ref = "f"
    fs.frames = [frame]
    frame.indicators = {}
    e.add_frame_set(fs)
    check(e.get_frame(frame_set_ref="f") is frame, "the only frame")
    check_same((e.get_indicator_value(frame_set_ref="f", indicator_ref="i"), e.get_frame(frame_set_ref="f", offset=1)), (None, None), "nothing else")
    frame.indicators["i"] = value
    check(e.get_indicator_value(frame_set_ref="f", indicator_ref="i") is value, "the value it has now")
    fs.frames.append(other)
    check(e.get_frame(frame_set_ref="f") is other and e.get_frame(frame_set_ref="f", offset=1) is frame, "the frames there are now")
    check(frame["i"] is value and frame["x"] is None, "by reference")


def books(epic: Epic, a: Num, b: Num, c: Num, dt: Arrow):
    """listings and results of a strategy and of a provider follow their trades"""
    observe("BaseTradeProvider.open_trade_request", silent=True)
    s = BaseStrategy(ref="s")
    p = BaseTradeProvider(ref="p")
    check_same((s.result(), s.profit_factor(), list(s.get_trades()), p.opened_trades), (0, 0, [], []), "nothing yet")
    t = Trade(epic=epic, strategy=s, direction=TradeDirection.BUY, quantity=1, open_value=a, open_datetime=dt, ref="t")
    u = Trade(epic=epic, strategy=s, direction=TradeDirection.BUY, quantity=1, open_value=a, open_datetime=dt, ref="u")
    p.open_trade(t)
    check_same([x.ref for x in s.get_trades()], ["t"], "one trade")
    check_same([x.ref for x in p.opened_trades], ["t"], "one opened trade")
    check_same(s.result(), round(t.result, 2), "its result")
    p.open_trade(u)
    t.update(b)
    check_same([x.ref for x in s.get_trades()], ["u", "t"], "two trades")
    check_same([x.ref for x in p.opened_trades], ["u", "t"], "two opened trades")
    check_same(s.result(), round(t.result + u.result, 2), "their results")
    u.close(close_value=c, datetime=dt)
    check_same([x.ref for x in s.get_trades(open_only=True)], ["t"], "one left opened")
    check_same([x.ref for x in p.opened_trades], ["t"], "one left opened")
    check_same(s.result(), round(t.result + round(c - a, 2), 2), "their results")


def activity(dt: Arrow, later: Arrow):
    """a strategy is asked again for each date and setting"""
    assume(dt < later)
    s = BaseStrategy(ref="s")
    check_same(s.is_active(dt), True, "new")
    s.stopped = True
    check_same(s.is_active(dt), False, "stopped")
    s.stopped = False
    check_same(s.is_active(dt), True, "started again")
    s.paused_until = later
    check_same(s.is_active(dt), False, "paused")
    check_same(s.is_active(later), True, "after the pause")
    check_same(s.is_active(dt), True, "the pause is over")


def periods(dt: Arrow, other: Arrow):
    """periods are computed from the date they are asked for"""
    fs = FrameSet(unit=Unit.HOUR, unit_quantity=2)
    x = fs.get_frame_start(dt)
    y = fs.get_frame_start(other)
    check_same(fs.get_frame_start(dt), x, "the same for the same date")
    check_same(y, FrameSet(unit=Unit.HOUR, unit_quantity=2).get_frame_start(other), "each date has its own")
    check_same(fs.get_frame_end(x), x.shift(hours=2), "end of the period")
    check_same(fs.get_frame_end(y), y.shift(hours=2), "end of the other period")


def attached(fs: FrameSet, other: FrameSet, epic: Epic):
    """an indicator and a frame set know the epic of the moment"""
    ind = BaseIndicator(value_class=BaseIndicatorValue, ref="i")
    check_same(ind.epic, None, "not attached")
    fs.epic = None
    fs.add_indicator(ind)
    check_same((ind.epic, fs.epic_market_open), (None, False), "a frame set without epic")
    fs.epic = epic
    check(ind.epic is epic, "the epic of its frame set")
    epic.market_open = True
    check_same(fs.epic_market_open, True, "market opened")
    epic.market_open = False
    check_same(fs.epic_market_open, False, "market closed")


def reading_changes_nothing(epic: Epic, fs: FrameSet, frame: Frame, tick: Tick, strategy: BaseStrategy, dt: Arrow):
    check_no_effect(lambda: (tick.spread, tick.value, tick.datetime_utc, tick.asdict()), "reading a tick")
    check_no_effect(lambda: (fs.current, fs.epic_market_open, frame.closed), "reading frames")
    check_no_effect(lambda: (epic.is_market_open(), epic.timezone, epic.ref), "reading an epic")
    check_no_effect(lambda: (strategy.result(), strategy.profit_factor(), list(strategy.get_trades())), "reading a strategy")


def reading_values(v: BaseIndicatorValue, ind: BaseIndicator, provider: BaseTradeProvider, feed: BaseTickProvider, ref: Str):
    check_no_effect(lambda: (v.closed, v.nb_ticks, v.next, ind.epic, ind.ref), "reading an indicator")
    check_no_effect(lambda: (provider.is_alive, list(provider.opened_trades)), "reading a provider")
    check_no_effect(lambda: feed.get_epic_by_ref(ref), "reading a tick provider")


def reading_timed(dt: Arrow):
    timed = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref="m")
    check_no_effect(lambda: (timed.get_frame_start(dt), timed.get_frame_end(dt)), "reading periods")
