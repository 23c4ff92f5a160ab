from estrade.enums import TradeDirection
from estrade.trade import Trade


def _result(trade):
    """result of a trade that has no close"""
    sign = 1 if trade.direction == TradeDirection.BUY else -1
    return round(sign * (trade.current_close_value - trade.open_value), 2) * trade.open_quantity


def marked(epic: Epic, direction: TradeDirection, quantity: Int, a: Num, b: Num, c: Num, dt: Arrow):
    """three successive values of a trade"""
    assume(quantity > 0)
    t = Trade(epic=epic, direction=direction, quantity=quantity, open_value=a, open_datetime=dt)
    first = t.result
    t.update(b)
    check_same(t.current_close_value, b, "close value")
    second = t.result
    check_same(second, _result(t), "result")
    check_same(t.max_result, max(first, second), "highest result")
    check_same(t.min_result, min(first, second), "lowest result")


def extremes(trade: Trade, value: Num):
    assume(not trade.closed)
    hi, lo = trade.max_result, trade.min_result
    trade.update(value)
    check_same(trade.current_close_value, value, "close value")
    check_same(trade.max_result, max(hi, trade.result), "highest result since it was opened")
    check_same(trade.min_result, min(lo, trade.result), "lowest result since it was opened")


def from_tick(trade: Trade, tick: Tick):
    assume(not trade.closed)
    hi, lo = trade.max_result, trade.min_result
    trade.update_from_tick(tick)
    check_same(trade.current_close_value, tick.bid if trade.direction == TradeDirection.BUY else tick.ask,
               "a buy is valued at the bid, a sell at the ask")
    check_same(trade.max_result, max(hi, trade.result), "highest result since it was opened")
    check_same(trade.min_result, min(lo, trade.result), "lowest result since it was opened")


def from_epic(trade: Trade):
    assume(not trade.closed)
    tick = trade.epic.last_tick
    trade.update_from_epic()
    check_same(trade.current_close_value, tick.bid if trade.direction == TradeDirection.BUY else tick.ask,
               "valued at the last tick of its epic")


def closed_is_frozen(trade: Trade, tick: Tick, value: Num):
    assume(trade.closed)
    check_no_effect(lambda: trade.update(value), "a closed trade is not updated")
    check_no_effect(lambda: trade.update_from_tick(tick), "a closed trade is not updated by a tick")
    check_no_effect(lambda: trade.update_from_epic(), "a closed trade is not updated by its epic")


def nothing_else_changes(trade: Trade, tick: Tick):
    check_no_effect(lambda: trade.update_from_tick(tick), "valuing a trade changes nothing else",
                    ignore=((trade, "current_close_value"), (trade, "max_result"), (trade, "min_result")))


def on_tick(epic: Epic, tick: Tick):
    """a tick values the opened trades of its epic, and only them"""
    observe("FrameSet.on_new_tick", silent=True)
    observe("Trade.update")
    observe("BaseStrategy.is_active", silent=True, type="Bool")
    observe("BaseStrategy.on_every_tick", silent=True)
    observe("BaseStrategy.on_market_open", silent=True)
    observe("BaseStrategy.on_market_close", silent=True)
    observe("BaseStrategy.on_every_tick_market_open", silent=True)
    assume(tick.datetime >= epic.last_tick.datetime)

    def model():
        for trade in reversed(epic.trade_provider.trades):
            if trade.epic is epic and not trade.closed:
                trade.update(tick.bid if trade.direction == TradeDirection.BUY else tick.ask)

    check_same(outcome(lambda: epic.on_new_tick(tick)), outcome(model), "trades valued by a tick")


def three_values(epic: Epic, direction: TradeDirection, a: Num, b: Num, c: Num, d: Num, dt: Arrow):
    """the extremes are those of the whole life of the trade"""
    t = Trade(epic=epic, direction=direction, quantity=1, open_value=a, open_datetime=dt)
    results = [t.result]
    for v in (b, c, d):
        t.update(v)
        results.append(t.result)
    check_same(t.max_result, max(results), "highest result")
    check_same(t.min_result, min(results), "lowest result")
