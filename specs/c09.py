from estrade.enums import TradeDirection, TransactionStatus
from estrade.trade import Trade


def from_tick(tick: Tick, epic: Epic, strategy: BaseStrategy, direction: TradeDirection, quantity: Int, ref: Str,
              meta: Dict[Str, Any], status: TransactionStatus):
    t = Trade.open_from_tick(tick=tick, epic=epic, direction=direction, quantity=quantity, strategy=strategy, ref=ref,
                             meta=meta, status=status)
    buy = direction == TradeDirection.BUY
    check_same(t.open_value, tick.ask if buy else tick.bid, "a buy opens at the ask, a sell at the bid")
    check_same(t.current_close_value, tick.bid if buy else tick.ask, "closed on the other side")
    check_same(t.datetime, tick.datetime, "dated by the tick")
    check_same(t.direction, direction, "direction")
    check_same(t.open_quantity, quantity, "quantity")
    check(t.epic is epic and t.strategy is strategy, "epic and strategy")
    check_same(t.status, status, "status")
    check_same(len(t.closes), 0, "a new trade has no close")
    if ref:
        check_same(t.ref, ref, "reference")
    if len(meta) > 0:
        check_same(t.meta, meta, "meta")


def from_epic(epic: Epic, direction: TradeDirection, quantity: Int):
    t = Trade.open_from_epic(epic=epic, direction=direction, quantity=quantity)
    tick = epic.last_tick
    buy = direction == TradeDirection.BUY
    check_same(t.open_value, tick.ask if buy else tick.bid, "opened at the price of the last tick")
    check_same(t.current_close_value, tick.bid if buy else tick.ask, "closed on the other side")
    check_same(t.datetime, tick.datetime, "dated by the last tick")
    check(t.epic is epic, "epic")
    check_same(t.direction, direction, "direction")
    check_same(t.open_quantity, quantity, "quantity")
    check_same((t.strategy, t.status), (None, TransactionStatus.CREATED), "no strategy, created")


def invalid_direction(tick: Tick, epic: Epic, direction: Any, quantity: Int):
    assume(not isinstance(direction, TradeDirection))
    check_same(catch(lambda: Trade.open_from_tick(tick=tick, epic=epic, direction=direction, quantity=quantity)),
               "TradeException", "only buy and sell are accepted")


def text_direction(tick: Tick, epic: Epic, quantity: Int):
    check_same(catch(lambda: Trade.open_from_tick(tick=tick, epic=epic, direction="BUY", quantity=quantity)),
               "TradeException", "only buy and sell are accepted")
    check_same(catch(lambda: Trade.open_from_epic(epic=epic, direction=1, quantity=quantity)),
               "TradeException", "only buy and sell are accepted")
    check_same(catch(lambda: Trade.open_from_epic(epic=epic, direction=None, quantity=quantity)),
               "TradeException", "only buy and sell are accepted")


def explicit_values(epic: Epic, direction: TradeDirection, quantity: Int, value: Num, close: Num, dt: Arrow):
    t = Trade(epic=epic, direction=direction, quantity=quantity, open_value=value, current_close_value=close,
              open_datetime=dt)
    check_same(t.open_value, value, "open value")
    check_same(t.current_close_value, close, "given close value is kept, even zero")
    check_same(t.status, TransactionStatus.CREATED, "created")
    check_same((t.max_result, t.min_result), (t.result, t.result), "extremes start at the first result")
    t = Trade(epic=epic, direction=direction, quantity=quantity, open_value=value, open_datetime=dt)
    check_same(t.current_close_value, value, "without close value, the open value is used")
    check_same(t.result, 0, "no result at entry")


def opening_costs_the_spread(tick: Tick, epic: Epic, direction: TradeDirection, quantity: Int):
    assume(quantity > 0)
    t = Trade.open_from_tick(tick=tick, epic=epic, direction=direction, quantity=quantity)
    check_same(t.result, -1 * round(tick.ask - tick.bid, 2) * quantity, "a new trade loses the spread")
    check_same((t.max_result, t.min_result), (t.result, t.result), "extremes start at the first result")


def given_values_are_those_of_the_tick(tick: Tick, epic: Epic, direction: TradeDirection, quantity: Int, value: Num,
                                       close: Num, dt: Arrow):
    """values given by the caller never replace those of the quote"""
    def opened():
        t = Trade.open_from_tick(tick=tick, epic=epic, direction=direction, quantity=quantity, open_value=value,
                                 current_close_value=close, open_datetime=dt)
        return (t.open_value, t.current_close_value, t.datetime)
    buy = direction == TradeDirection.BUY
    check_same(opened(), (tick.ask if buy else tick.bid, tick.bid if buy else tick.ask, tick.datetime),
               "entered at the quote and dated by the tick")


def nothing_else(epic: Epic, tick: Tick, quantity: Int):
    """what is not given is left empty"""
    assume(quantity > 0)
    epic.last_tick = tick
    for direction in (TradeDirection.BUY, TradeDirection.SELL):
        for t in (Trade.open_from_tick(tick=tick, epic=epic, direction=direction, quantity=quantity),
                  Trade.open_from_epic(epic=epic, direction=direction, quantity=quantity)):
            check_same((len(t.meta), t.strategy, len(t.closes)), (0, None, 0), "no meta, no strategy, no close")
