from estrade.enums import TradeDirection, TransactionStatus
from estrade.trade import Trade, TradeClose


def explicit(trade: Trade, value: Num, dt: Arrow, quantity: Int, ref: Str, meta: Dict[Str, Any],
             status: TransactionStatus):
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    assume(quantity > 0, quantity <= left)
    old = list(trade.closes)
    c = trade.close(close_value=value, datetime=dt, quantity=quantity, ref=ref, meta=meta, status=status)
    check(c.trade is trade, "knows its trade")
    check_same((c.close_value, c.quantity, c.datetime, c.status), (value, quantity, dt, status), "as asked")
    if ref:
        check_same(c.ref, ref, "reference")
    if len(meta) > 0:
        check_same(c.meta, meta, "meta")
    check_same(list(trade.closes), old + [c], "added once, after the previous ones")


def from_tick(trade: Trade, tick: Tick):
    assume(trade.open_quantity - sum(c.quantity for c in trade.closes) > 0)
    price = tick.bid if trade.direction == TradeDirection.BUY else tick.ask
    old = list(trade.closes)
    c = trade.close_from_tick(tick)
    check_same(c.close_value, price, "a buy is closed at the bid, a sell at the ask")
    check_same(c.datetime, tick.datetime, "dated by the tick")
    check_same(trade.current_close_value, price, "the trade is valued at the close price")
    check(c.trade is trade, "knows its trade")
    check_same(c.status, TransactionStatus.CREATED, "created")
    check_same(list(trade.closes), old + [c], "added once, after the previous ones")


def extremes_include_the_close_price(trade: Trade, tick: Tick):
    assume(trade.open_quantity - sum(c.quantity for c in trade.closes) > 0)
    hi, lo = trade.max_result, trade.min_result
    got = outcome(lambda: trade.close_from_tick(tick).quantity, see=lambda: (trade.max_result, trade.min_result))

    def model():
        left = trade.open_quantity - sum(c.quantity for c in trade.closes)
        trade.current_close_value = tick.bid if trade.direction == TradeDirection.BUY else tick.ask
        r = trade.result
        trade.max_result = max(hi, r)
        trade.min_result = min(lo, r)
        return left

    check_same(got, outcome(model, see=lambda: (trade.max_result, trade.min_result)), "extremes updated at close price")


def from_epic(trade: Trade):
    assume(trade.open_quantity - sum(c.quantity for c in trade.closes) > 0)
    tick = trade.epic.last_tick
    c = trade.close_from_epic()
    check_same(c.close_value, tick.bid if trade.direction == TradeDirection.BUY else tick.ask,
               "closed at the last price of the epic of the trade")
    check_same(c.datetime, tick.datetime, "dated by the last tick")
    check(c.trade is trade, "knows its trade")


def nothing_else(trade: Trade, tick: Tick, quantity: Int):
    check_no_effect(lambda: catch(lambda: trade.close_from_tick(tick, quantity=quantity)), "closing changes nothing else",
                    ignore=((trade, "current_close_value"), (trade, "max_result"), (trade, "min_result"),
                            trade.closes))
