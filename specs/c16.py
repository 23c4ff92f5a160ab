from estrade.enums import TradeDirection
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def _distinct(trades, trade):
    for i, a in enumerate(trades):
        assume(a is not trade, a.closes is not trade.closes, a.open_quantity >= sum(c.quantity for c in a.closes))
        for b in trades[i + 1:]:
            assume(a is not b, a.closes is not b.closes)


def _net(provider, trade, olds):
    """reference model: opened trades of the same strategy in the opposite direction, newest first, are closed at the
    last price of their epic by at most the quantity that remains to be opened; only the rest is registered"""
    for old in reversed(olds):
        left = old.open_quantity - sum(c.quantity for c in old.closes)
        if trade.open_quantity > 0 and left != 0 and old.direction != trade.direction and old.strategy is trade.strategy:
            q = min(left, trade.open_quantity)
            c = old.close_from_epic(quantity=q)
            provider.close_trade(c)
            trade.open_quantity = trade.open_quantity - q
            trade.max_result = trade.result
            trade.min_result = trade.result
    if trade.open_quantity > 0:
        BaseTradeProvider.open_trade(provider, trade)


@options(bounded_only=True, grow=False, sizes=[(0, 0), (1, 0), (1, 1), (2, 0), (2, 1)], deep=[(2, 2), (3, 0)])
def netting(provider: TradeProviderBacktests, trade: Trade):
    observe("BaseTradeProvider.close_trade")
    observe("BaseTradeProvider.open_trade", exact=True, see=lambda: (trade.open_quantity, trade.result))
    olds = list(provider.trades)
    _distinct(olds, trade)
    trade.closes = []
    assume(trade.open_quantity > 0)
    for old in olds:
        assume(old.epic is trade.epic)
    see = lambda: (trade.open_quantity, trade.max_result, trade.min_result, trade.current_close_value,
                   [(o.closed_quantities, o.closed, o.current_close_value) for o in olds])
    got = outcome(lambda: provider.open_trade(trade), see=see)
    want = outcome(lambda: _net(provider, trade, olds), see=see)
    check_same(got, want, "opposite trades closed by at most the new quantity, the rest registered")


def first_close(provider: TradeProviderBacktests, trade: Trade, old: Trade):
    """one opened trade in the opposite direction"""
    observe("BaseTradeProvider.close_trade")
    observe("BaseTradeProvider.open_trade", exact=True)
    provider.trades = [old]
    trade.closes = []
    left = old.open_quantity - sum(c.quantity for c in old.closes)
    assume(trade is not old, old.epic is trade.epic, old.strategy is trade.strategy, old.direction != trade.direction)
    assume(left > 0, trade.open_quantity > 0)
    n = trade.open_quantity
    provider.open_trade(trade)
    check_same(trade.open_quantity, max(n - left, 0), "the rest is opened")
    check_same(old.opened_quantities, max(left - n, 0), "the old trade is reduced")


def same_direction(provider: TradeProviderBacktests, trade: Trade, old: Trade):
    observe("BaseTradeProvider.close_trade")
    observe("BaseTradeProvider.open_trade", exact=True)
    provider.trades = [old]
    assume(trade is not old, trade.open_quantity > 0)
    assume(old.direction == trade.direction or old.strategy is not trade.strategy or old.closed)
    check_same(outcome(lambda: provider.open_trade(trade)),
               outcome(lambda: BaseTradeProvider.open_trade(provider, trade)),
               "no netting in the same direction, between strategies or with a closed trade")
    see = lambda: (old.closed_quantities, old.current_close_value, trade.open_quantity, trade.max_result)
    check_same(outcome(lambda: provider.open_trade(trade), see=see)[3],
               outcome(lambda: None, see=see)[3], "nothing changed")


def cross_epic(provider: TradeProviderBacktests, trade: Trade, old: Trade):
    observe("BaseTradeProvider.close_trade")
    observe("BaseTradeProvider.open_trade", exact=True)
    provider.trades = [old]
    assume(trade is not old, old.epic is not trade.epic, trade.open_quantity > 0)
    got = outcome(lambda: provider.open_trade(trade), see=lambda: len(old.closes))
    want = outcome(lambda: BaseTradeProvider.open_trade(provider, trade), see=lambda: len(old.closes))
    check_same(got[3], want[3], "a trade of another epic is not closed")


def session(epic: Epic, s: BaseStrategy, d1: TradeDirection, d2: TradeDirection, d3: TradeDirection, n1: Int, n2: Int, n3: Int):
    """three openings of a strategy on an epic: the position is the sum of what was asked, never in both directions"""
    observe("BaseTradeProvider.close_trade", silent=True)
    observe("TradeProviderBacktests.open_trade_request", silent=True)
    provider = TradeProviderBacktests(ref="p")
    epic.trade_provider = provider
    s.trades = []
    assume(n1 > 0, n2 > 0, n3 > 0)
    sign = lambda d: 1 if d == TradeDirection.BUY else -1
    asked = 0
    for d, n in [(d1, n1), (d2, n2), (d3, n3)]:
        s.open_trade(epic=epic, direction=d, quantity=n)
        asked += sign(d) * n
        check_same(sum([sign(t.direction) * t.opened_quantities for t in provider.trades]), asked, "position")
        check(all([t.opened_quantities == 0 or asked * sign(t.direction) > 0 for t in provider.trades]), "one direction")
        check_same(list(s.trades), list(provider.trades), "the strategy knows the same trades")


def _several(provider, trade, olds, opposite):
    """several opened trades, `opposite` of them in the other direction: (closed quantities asked of each, rest)"""
    provider.trades = list(olds)
    trade.closes = []
    n = trade.open_quantity
    assume(n > 0)
    for i, old in enumerate(olds):
        old.closes = []
        assume(old is not trade, old.open_quantity > 0, old.epic is trade.epic, old.strategy is trade.strategy)
        assume((old.direction != trade.direction) if opposite[i] else (old.direction == trade.direction))
    rest = n
    want = []
    for i in range(len(olds) - 1, -1, -1):
        q = min(rest, olds[i].open_quantity) if opposite[i] else 0
        want.insert(0, q)
        rest = rest - q
    provider.open_trade(trade)
    check_same([old.closed_quantities for old in olds], want, "quantities closed, newest trade first")
    check_same(trade.open_quantity, rest, "the rest is opened")
    check_same(len(provider.trades), len(olds) + (1 if rest > 0 else 0), "recorded if something is left")


def three_opposite(provider: TradeProviderBacktests, trade: Trade, a: Trade, b: Trade, c: Trade):
    observe("BaseTradeProvider.close_trade", silent=True)
    observe("TradeProviderBacktests.open_trade_request", silent=True)
    assume(a is not b, a is not c, b is not c)
    _several(provider, trade, [a, b, c], [True, True, True])


def four_mixed(provider: TradeProviderBacktests, trade: Trade, a: Trade, b: Trade, c: Trade, d: Trade):
    observe("BaseTradeProvider.close_trade", silent=True)
    observe("TradeProviderBacktests.open_trade_request", silent=True)
    assume(a is not b, a is not c, b is not c, a is not d, b is not d, c is not d)
    _several(provider, trade, [a, b, c, d], [True, False, True, False])


@options(bounded_only=True)
def all_netted(provider: TradeProviderBacktests, trade: Trade):
    """however many opposite trades there are, all are closed when the quantity suffices"""
    observe("BaseTradeProvider.close_trade", silent=True)
    observe("BaseTradeProvider.open_trade", silent=True, exact=True)
    olds = list(provider.trades)
    trade.direction = TradeDirection.BUY
    trade.closes = []
    trade.open_quantity = len(olds) + 3
    for old in olds:
        assume(old is not trade)
        old.closes = []
        old.open_quantity = 1
        old.direction = TradeDirection.SELL
        old.epic = trade.epic
        old.strategy = trade.strategy
    provider.open_trade(trade)
    check_same([o.closed_quantities for o in olds], [1 for o in olds], "every opposite trade is closed")
    check_same(trade.open_quantity, 3, "the rest is opened")
