from estrade.enums import TradeDirection
from estrade.trade import Trade, TradeClose


def close_result(close: TradeClose):
    sign = 1 if close.trade.direction == TradeDirection.BUY else -1
    avg = round(sign * (close.close_value - close.trade.open_value), 2)
    check_same(close.result_avg, avg, "result of one closed unit")
    check_same(close.result, round(avg * close.quantity, 2), "result of a close")


def quantities(trade: Trade):
    closed = sum(c.quantity for c in trade.closes)
    check_same(trade.closed_quantities, closed, "closed quantity")
    check_same(trade.opened_quantities, trade.open_quantity - closed, "opened quantity")
    check_same(trade.closed, trade.open_quantity == closed, "closed")


def opened_result(trade: Trade):
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    sign = 1 if trade.direction == TradeDirection.BUY else -1
    avg = 0 if left == 0 else round(sign * (trade.current_close_value - trade.open_value), 2)
    check_same(trade.opened_result_avg, avg, "result of one opened unit")
    check_same(trade.opened_result, avg * left, "result of the opened quantity")


def closed_result(trade: Trade):
    total = sum(c.result for c in trade.closes)
    n = sum(c.quantity for c in trade.closes)
    check_same(trade.closed_result, total, "result of the closes")
    assume(implies(len(trade.closes) > 0, n != 0))
    check_same(trade.closed_result_avg, 0 if len(trade.closes) == 0 else round(total / n, 2),
               "average result of the closed quantity")


def total(trade: Trade):
    assume(trade.open_quantity != 0)
    closed = sum(c.result for c in trade.closes)
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    sign = 1 if trade.direction == TradeDirection.BUY else -1
    opened = 0 if left == 0 else round(sign * (trade.current_close_value - trade.open_value), 2) * left
    check_same(trade.result, opened + closed, "result = opened + closed")
    check_same(trade.result_avg, round((opened + closed) / trade.open_quantity, 2), "average result per unit")


def lifecycle(epic: Epic, direction: TradeDirection, a: Num, b: Num, c: Num, d: Num, n: Int, m: Int, dt: Arrow):
    """open n, close m at b, value at c, close the rest at d"""
    assume(0 < m, m < n)
    sign = 1 if direction == TradeDirection.BUY else -1
    t = Trade(epic=epic, direction=direction, quantity=n, open_value=a, open_datetime=dt)
    t.close(close_value=b, quantity=m, datetime=dt)
    first = round(round(sign * (b - a), 2) * m, 2)
    check_same(t.closed_quantities, m, "closed quantity")
    check_same(t.opened_quantities, n - m, "opened quantity")
    check_same(t.closed, False, "still open")
    check_same(t.closed_result, first, "result of the first close")
    t.update(c)
    check_same(t.result, round(sign * (c - a), 2) * (n - m) + first, "result while partially closed")
    t.close(close_value=d, datetime=dt)
    check_same(t.closed, True, "closed")
    check_same(t.opened_result, 0, "nothing opened")
    check_same(t.result, first + round(round(sign * (d - a), 2) * (n - m), 2), "final result")
    check_same(t.result, t.closed_result, "final result is the result of the closes")


def reading_is_pure(trade: Trade):
    assume(trade.open_quantity != 0)
    assume(implies(len(trade.closes) > 0, sum(c.quantity for c in trade.closes) != 0))
    check_no_effect(lambda: (trade.result, trade.result_avg, trade.opened_result, trade.closed_result,
                             trade.closed_result_avg, trade.opened_result_avg, trade.closed), "reading results")


@options(bounded_only=True)
def every_close(trade: Trade):
    """however many closes there are"""
    closes = list(trade.closes)
    trade.direction = TradeDirection.BUY
    trade.open_value = 1
    trade.open_quantity = 5000
    trade.current_close_value = 4
    for c in closes:
        c.trade = trade
        c.quantity = 2
        c.close_value = 3
    n = len(closes)
    check_same(trade.closed_quantities, 2 * n, "closed quantity")
    check_same(trade.closed_result, 4 * n, "result of the closes")
    check_same(trade.closed_result_avg, 2 if n else 0, "average result of the closed quantity")
    check_same(trade.result, 4 * n + 3 * (5000 - 2 * n), "result")
