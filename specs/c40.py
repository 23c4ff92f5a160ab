from datetime import timedelta
from estrade.enums import CandleType, TradeDirection, Unit
from estrade.epic import Epic
from estrade.graph.frame_set import Frame, FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.pivot import Pivot
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage
from estrade.strategy import BaseStrategy
from estrade.tick import Tick
from estrade.trade import Trade, TradeClose
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def _same(result, msg):
    check_same(result, other_run(result), msg)


def _trade(t):
    return (t.datetime, t.datetime_utc, t.direction, t.open_quantity, t.open_value, t.current_close_value, t.max_result, t.min_result,
            t.opened_quantities, t.closed_quantities, t.closed, t.result, t.result_avg, t.opened_result, t.opened_result_avg,
            t.closed_result, t.closed_result_avg, t.status)


def _close(k):
    return (k.datetime, k.close_value, k.quantity, k.result, k.result_avg, k.status)


def quote(dt: Arrow, a: Num, b: Num):
    def f():
        t = Tick(datetime=dt, bid=a, ask=b)
        return (t.datetime, t.datetime_utc, t.bid, t.ask, t.spread, t.value, t.asdict(), t.asdict(True))
    _same(outcome(f), "a tick")


def epic_tick(epic: Epic, t: Tick):
    """what a tick changes and whom it calls"""
    for hook in ("BaseStrategy.on_every_tick", "BaseStrategy.on_market_open", "BaseStrategy.on_market_close",
                 "BaseStrategy.on_every_tick_market_open", "FrameSet.on_new_tick", "Trade.update"):
        observe(hook)
    _same(outcome(lambda: epic.on_new_tick(t), see=lambda: (epic.last_tick, epic.market_open, t.datetime)), "an epic and its calls")


def activity(s: BaseStrategy, dt: Arrow):
    _same(outcome(lambda: s.is_active(dt), see=lambda: (s.paused_until, s.stopped)), "activity")


def trade(epic: Epic, direction: TradeDirection, n: Int, a: Num, b: Num, c: Num, dt: Arrow, later: Arrow, q: Int):
    """the life of a trade"""
    made = []

    def f():
        t = Trade(epic=epic, direction=direction, quantity=n, open_value=a, open_datetime=dt, ref="t")
        made.append(t)
        first = _trade(t)
        t.update(b)
        second = _trade(t)
        k = t.close(close_value=c, datetime=later, quantity=q, ref="k")
        return (first, second, _trade(t), _close(k))

    _same(outcome(f), "a trade")


def opened(epic: Epic, direction: TradeDirection, n: Int):
    observe("BaseTradeProvider.open_trade", silent=True)
    _same(outcome(lambda: _trade(epic.open_trade(direction=direction, quantity=n, ref="t"))), "an opened trade")


def closed(epic: Epic, t: Trade, n: Int):
    observe("BaseTradeProvider.close_trade", silent=True)
    _same(outcome(lambda: (_close(epic.close_trade(t, quantity=n, ref="k")), _trade(t))), "a close")


def netted(provider: TradeProviderBacktests, trade: Trade, a: Trade):
    """netting, dates of the closes included"""
    provider.trades = [a]
    trade.closes = []
    assume(a is not trade)
    _same(outcome(lambda: provider.open_trade(trade), see=lambda: (trade.open_quantity, trade.max_result, trade.min_result, _trade(a), [_close(k) for k in a.closes[-1:]], len(provider.trades))), "netting")


def selected(s: BaseStrategy, after: Arrow):
    _same(outcome(lambda: list(s.get_trades(open_only=True, only_after=after))), "selection")
    _same(outcome(lambda: (s.result(), s.profit_factor())), "results")


def timed(a: Tick, b: Tick, n: Int):
    """frames of minutes"""
    assume(60 % n == 0, n > 0, b.datetime >= a.datetime, b.datetime - a.datetime < timedelta(minutes=1))

    def f():
        fs = FrameSet(unit=Unit.MINUTE, unit_quantity=n, ref="f")
        fs.on_new_tick(a)
        first = (fs.current.period_start, fs.current.period_end)
        fs.on_new_tick(b)
        return (first, fs.current.period_start, fs.current.period_end, fs.current.nb_ticks, len(fs.frames))

    _same(outcome(f), "frames")


def counted(a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    """frames of ticks with their indicators"""
    for t, v in [(a, x), (b, y), (c, z)]:
        stub(t, "value", v)

    def f():
        fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
        fs.add_indicator(CandleSet(ref="candles"))
        fs.add_indicator(CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref="smooth"))
        fs.add_indicator(Pivot(ref="pivot"))
        fs.add_indicator(SimpleMovingAverage(max_periods=2, ref="sma"))
        fs.add_indicator(RSI(periods=2, ref="rsi"))
        seen = []
        for t in (a, b, c):
            fs.on_new_tick(t)
            g = fs.current
            g.on_new_tick(a)
            v, h, p = g["candles"], g["smooth"], g["pivot"]
            seen.append((v.open, v.high, v.low, v.last, v.color, h.open, h.high, h.low, h.last, p.pivot, p.support1, p.resistance2,
                         g["sma"].get_value(2), g["rsi"].value, g.nb_ticks, g.period_start,
                         g.first_tick, g.last_tick, g.high_tick, g.low_tick, v.high_tick, v.low_tick))
        return tuple(seen)

    _same(outcome(f), "indicators")



def in_order(epic: Epic, t: Tick, r: BaseStrategy, s: BaseStrategy, f: FrameSet, g: FrameSet, a: Trade, b: Trade, c: Trade):
    """the order of the calls when several objects are registered"""
    for hook in ("BaseStrategy.on_every_tick", "BaseStrategy.on_market_open", "BaseStrategy.on_market_close",
                 "BaseStrategy.on_every_tick_market_open", "FrameSet.on_new_tick", "Trade.update"):
        observe(hook)
    assume(r is not s, f is not g, a is not b, b is not c, a is not c, r.ref != s.ref, f.ref != g.ref)
    epic.strategies = {r.ref: r, s.ref: s}
    epic.frame_sets = {f.ref: f, g.ref: g}
    epic.trade_provider.trades = [a, b, c]
    _same(outcome(lambda: epic.on_new_tick(t)), "order of the calls")
    _same(outcome(lambda: list(epic.trade_provider.opened_trades)), "order of the opened trades")


def listed(s: BaseStrategy, e: Epic, f: Epic, a: Trade, b: Trade, c: Trade):
    """the order of the trades"""
    assume(a is not b, b is not c, a is not c)
    s.trades = [a, b, c]
    _same(outcome(lambda: list(s.get_trades())), "order of the trades")
    _same(outcome(lambda: list(s.get_trades(epics=[e, f]))), "order of the trades of some epics")
