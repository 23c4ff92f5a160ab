def _result(trades):
    return round(sum(t.result for t in trades), 2)


def _factor(trades):
    gains = sum(t.result for t in trades if t.result >= 0)
    losses = sum(t.result for t in trades if t.result < 0)
    if losses == 0:
        return gains
    return abs(round(gains / (losses if losses <= -1 else 1), 2))


def result(strategy: BaseStrategy, trades: List[Trade]):
    check_same(strategy.result(), _result(strategy.trades), "result of every trade of the strategy")
    check_same(strategy.result(trades=trades), _result(trades), "result of the given trades")


def profit_factor(strategy: BaseStrategy, trades: List[Trade]):
    observe("Trade.result", type="Num", silent=True)
    check_same(strategy.profit_factor(), _factor(strategy.trades), "profit factor of every trade of the strategy")
    check_same(strategy.profit_factor(trades=trades), _factor(trades), "profit factor of the given trades")


def nothing_given(strategy: BaseStrategy):
    check_same(strategy.result(trades=[]), 0, "no trade, no result")
    check_same(strategy.profit_factor(trades=[]), 0, "no trade, no gain")


def generators(strategy: BaseStrategy, epics: List[Epic]):
    observe("Trade.result", type="Num", silent=True)
    mine = [t for t in strategy.trades if t.epic in epics]
    check_same(strategy.result(trades=strategy.get_trades(epics=epics)), _result(mine), "result of a generator of trades")
    check_same(strategy.profit_factor(trades=strategy.get_trades(epics=epics)), _factor(mine),
               "profit factor of a generator of trades")


def two_trades(strategy: BaseStrategy, a: Trade, b: Trade):
    observe("Trade.result", type="Num", silent=True)
    assume(a is not b, a.result > 0, b.result <= -1)
    check_same(strategy.result(trades=[a, b]), round(a.result + b.result, 2), "sum of the results")
    check_same(strategy.profit_factor(trades=[a, b]), round(a.result / (-1 * b.result), 2), "gains over losses")
    check_same(strategy.profit_factor(trades=[a]), a.result, "gains when there is no loss")


def reading_is_pure(strategy: BaseStrategy):
    check_no_effect(lambda: (strategy.result(), strategy.profit_factor()), "reading results")


@options(bounded_only=True)
def every_trade(strategy: BaseStrategy, trades: List[Trade]):
    """however many trades there are, each counts"""
    for t in trades:
        stub(t, "result", 2)
    for t in strategy.trades:
        stub(t, "result", 3)
    check_same((strategy.result(trades=trades), strategy.profit_factor(trades=trades)), (2 * len(trades), 2 * len(trades)), "given trades")
    n = len(strategy.trades)
    check_same((strategy.result(), strategy.profit_factor()), (3 * n, 3 * n), "trades of the strategy")


@options(bounded_only=True)
def every_loss(strategy: BaseStrategy, trades: List[Trade]):
    for t in trades:
        stub(t, "result", -2)
    check_same(strategy.result(trades=trades), -2 * len(trades), "given trades")
    if len(trades) > 0:
        trades = trades + [trades[0]]
        stub(trades[0], "result", 10)
        check_same(strategy.profit_factor(trades=trades), round(20 / (2 * len(trades) - 4), 2) if len(trades) > 2 else 20, "gains over losses")
