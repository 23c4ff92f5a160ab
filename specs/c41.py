from estrade.enums import TradeDirection, Unit
from estrade.epic import Epic
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.rsi import RSI
from estrade.strategy import BaseStrategy
from estrade.tick import Tick
from estrade.trade import Trade, TradeClose


def _books(epic, trade, strategy):
    return (list(epic.trade_provider.trades), list(epic.trade_provider.threads), list(strategy.trades), list(trade.closes),
            trade.open_quantity, trade.status, trade.open_value, trade.datetime)


def close_refused(epic: Epic, trade: Trade, strategy: BaseStrategy, n: Int, a: Num, dt: Arrow):
    """an invalid quantity to close, whatever the way it is asked"""
    assume(n <= 0, trade.epic is epic)
    before = _books(epic, trade, strategy)
    for ask in [lambda: trade.close(close_value=a, datetime=dt, quantity=n), lambda: trade.close_from_epic(quantity=n),
                lambda: trade.close_from_tick(epic.last_tick, quantity=n), lambda: epic.close_trade(trade, quantity=n),
                lambda: strategy.close_trade(trade, quantity=n)]:
        check_same(catch(ask), "TradeException", "refused")
        check_same(_books(epic, trade, strategy), before, "nothing recorded")


def dateless_close(trade: Trade, a: Num, n: Int, dt: PyDatetime):
    """a close at a date that is not timezone-aware"""
    assume(n > 0, dt.tzinfo is None)
    before = (list(trade.closes), trade.opened_quantities, trade.current_close_value, trade.result)
    check_same(catch(lambda: trade.close(close_value=a, datetime=dt, quantity=n)), "TimeException", "refused")
    check_same((list(trade.closes), trade.opened_quantities, trade.current_close_value, trade.result), before, "nothing recorded")


def opening_refused(epic: Epic, strategy: BaseStrategy, n: Int, direction: Any):
    """an opening without a valid direction"""
    assume(direction != TradeDirection.BUY, direction != TradeDirection.SELL)
    p = epic.trade_provider
    before = (list(p.trades), list(p.threads), list(strategy.trades))
    for ask in [lambda: epic.open_trade(direction=direction, quantity=n), lambda: strategy.open_trade(epic, direction=direction, quantity=n)]:
        check_same(catch(ask), "TradeException", "refused")
        check_same((list(p.trades), list(p.threads), list(strategy.trades)), before, "nothing recorded")


def quote_refused(t: Tick, v: Any):
    """a price that is not a number"""
    assume(not isinstance(v, int), not isinstance(v, float))
    before = (t.bid, t.ask, t.spread, t.value)

    def bid():
        t.bid = v

    def ask():
        t.ask = v

    for change in (bid, ask):
        check_same(catch(change), "TickException", "refused")
        check_same((t.bid, t.ask, t.spread, t.value), before, "prices kept")


def date_refused(t: Tick, trade: Trade, k: TradeClose, dt: PyDatetime):
    assume(dt.tzinfo is None)
    for o in (t, trade, k):
        before = (o.datetime, o.datetime_utc)

        def change():
            o.datetime = dt

        check_same(catch(change), "TimeException", "refused")
        check_same((o.datetime, o.datetime_utc), before, "date kept")


def registration_refused(epic: Epic, fs: FrameSet, strategy: BaseStrategy):
    """a reference already taken: registries and the other side keep what they hold"""
    assume(fs.ref in epic.frame_sets, strategy.ref in epic.strategies)
    assume(epic.frame_sets[fs.ref] is not fs, epic.strategies[strategy.ref] is not strategy)
    before = (dict(epic.frame_sets), dict(epic.strategies), fs.epic, dict(strategy.epics))
    check_same(catch(lambda: epic.add_frame_set(fs)), "EpicException", "refused")
    check_same(catch(lambda: epic.add_strategy(strategy)), "EpicException", "refused")
    check_same((dict(epic.frame_sets), dict(epic.strategies), fs.epic, dict(strategy.epics)), before, "registrations kept")


def indicator_refused(fs: FrameSet, other: FrameSet, n: Int):
    """an indicator refused by a frame set stays where it was"""
    ind = RSI(periods=n, ref="rsi")
    assume(n * other.unit_quantity <= other.max_frames_in_memory, n * fs.unit_quantity > fs.max_frames_in_memory, fs is not other)
    other.add_indicator(ind)
    before = (dict(fs.indicators), dict(other.indicators), ind.rsi_periods)
    check_same(catch(lambda: fs.add_indicator(ind)), "BaseIndicatorException", "refused")
    check(ind.frame_set is other, "attached where it was")
    check_same((dict(fs.indicators), dict(other.indicators), ind.rsi_periods), before, "nothing else changed")


def tick_refused(epic: Epic, t: Tick, fs: FrameSet, trade: Trade, strategy: BaseStrategy):
    """an older tick"""
    assume(t.datetime < epic.last_tick.datetime)
    see = lambda: (epic.last_tick, epic.market_open, fs.current, len(fs.frames), trade.current_close_value, trade.max_result,
                   trade.min_result, strategy.paused_until)
    before = see()
    check_same(catch(lambda: epic.on_new_tick(t)), "EpicException", "refused")
    check_same(see(), before, "nothing changed")
