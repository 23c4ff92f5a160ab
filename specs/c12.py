from estrade.enums import TradeDirection
from estrade.trade import Trade


def refused(trade: Trade, value: Num, dt: Arrow, quantity: Int):
    assume(quantity <= 0)
    check_same(catch(lambda: trade.close(close_value=value, datetime=dt, quantity=quantity)), "TradeException",
               "zero or negative quantity refused")


def refused_leaves_no_trace(trade: Trade, value: Num, dt: Arrow, quantity: Int):
    assume(quantity <= 0)
    check_no_effect(lambda: trade.close(close_value=value, datetime=dt, quantity=quantity),
                    "a refused close leaves no trace")


def part(trade: Trade, value: Num, dt: Arrow, quantity: Int):
    """some quantity asked, some opened"""
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    assume(left > 0, quantity > 0)
    n = len(trade.closes)
    c = trade.close(close_value=value, datetime=dt, quantity=quantity)
    check_same(c.quantity, min(quantity, left), "never more than the opened quantity")
    check_same(len(trade.closes), n + 1, "one close more")
    check(trade.closes[n] is c, "recorded last")
    check_same(trade.open_quantity - sum(k.quantity for k in trade.closes), left - min(quantity, left),
               "opened quantity decreases by the closed quantity")


def all_left(trade: Trade, value: Num, dt: Arrow):
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    assume(left > 0)
    c = trade.close(close_value=value, datetime=dt)
    check_same(c.quantity, left, "everything still opened is closed by default")
    check_same(trade.closed, True, "the trade is closed")


def all_left_from_tick(trade: Trade, tick: Tick):
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    assume(left > 0)
    c = trade.close_from_tick(tick)
    check_same(c.quantity, left, "everything still opened is closed by default")
    check_same(trade.closed, True, "the trade is closed")


def part_from_epic(trade: Trade, quantity: Int):
    left = trade.open_quantity - sum(c.quantity for c in trade.closes)
    assume(left > 0, quantity > 0)
    c = trade.close_from_epic(quantity=quantity)
    check_same(c.quantity, min(quantity, left), "never more than the opened quantity")
    check_same(trade.opened_quantities, left - min(quantity, left), "opened quantity")


def never_beyond(epic: Epic, direction: TradeDirection, v: Num, n: Int, a: Int, b: Int, c: Int, dt: Arrow):
    """any three closes of a new trade"""
    assume(n > 0)
    t = Trade(epic=epic, direction=direction, quantity=n, open_value=v, open_datetime=dt)
    catch(lambda: t.close(close_value=v, datetime=dt, quantity=a))
    check(0 <= t.opened_quantities and t.opened_quantities <= n, "opened quantity after one close")
    catch(lambda: t.close(close_value=v, datetime=dt, quantity=b))
    check(0 <= t.opened_quantities and t.opened_quantities <= n, "opened quantity after two closes")
    catch(lambda: t.close(close_value=v, datetime=dt, quantity=c))
    check(0 <= t.opened_quantities and t.opened_quantities <= n, "opened quantity after three closes")
    check_same(t.closed_quantities + t.opened_quantities, n, "closed + opened = quantity at entry")


def quantity_at_entry_kept(trade: Trade, value: Num, dt: Arrow, quantity: Int):
    n = trade.open_quantity
    catch(lambda: trade.close(close_value=value, datetime=dt, quantity=quantity))
    check_same(trade.open_quantity, n, "closing does not change the quantity at entry")
