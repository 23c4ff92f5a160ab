from estrade.enums import TradeDirection
from estrade.trade import Trade


def epic_opens(epic: Epic, direction: TradeDirection, quantity: Int, ref: Str):
    observe("BaseTradeProvider.open_trade", see=lambda: len(epic.strategies))

    def model():
        t = Trade.open_from_epic(epic=epic, direction=direction, quantity=quantity, ref=ref)
        epic.trade_provider.open_trade(t)
        return t

    see = lambda: len(epic.trade_provider.trades)
    got = outcome(lambda: epic.open_trade(direction=direction, quantity=quantity, ref=ref), see=see)
    check_same(got, outcome(model, see=see), "opened at the last tick and sent once to the provider of the epic")


def epic_opens_trade(epic: Epic, direction: TradeDirection, quantity: Int):
    observe("BaseTradeProvider.open_trade")
    t = epic.open_trade(direction=direction, quantity=quantity)
    tick = epic.last_tick
    check(t.epic is epic, "epic")
    check_same(t.open_value, tick.ask if direction == TradeDirection.BUY else tick.bid, "open value")
    check_same((t.direction, t.open_quantity, t.strategy), (direction, quantity, None), "as asked")


def strategy_opens(strategy: BaseStrategy, epic: Epic, direction: TradeDirection, quantity: Int):
    observe("BaseTradeProvider.open_trade")

    def model():
        t = Trade.open_from_epic(epic=epic, direction=direction, quantity=quantity, strategy=strategy)
        epic.trade_provider.open_trade(t)
        return t

    see = lambda: (len(strategy.trades), len(epic.trade_provider.trades))
    got = outcome(lambda: strategy.open_trade(epic=epic, direction=direction, quantity=quantity), see=see)
    check_same(got, outcome(model, see=see), "opened for the strategy, on the epic")
    t = strategy.open_trade(epic=epic, direction=direction, quantity=quantity)
    check(t.strategy is strategy and t.epic is epic, "strategy and epic of the trade")


def refused_opening(epic: Epic, strategy: BaseStrategy, quantity: Int):
    observe("BaseTradeProvider.open_trade")
    check_same(catch(lambda: epic.open_trade(direction="BUY", quantity=quantity)), "TradeException", "refused")
    check_no_effect(lambda: epic.open_trade(direction="BUY", quantity=quantity), "refused trade leaves no trace")
    check_no_effect(lambda: strategy.open_trade(epic=epic, direction="BUY", quantity=quantity),
                    "refused trade leaves no trace")


def epic_closes(epic: Epic, trade: Trade, quantity: Int):
    assume(trade.epic is epic)
    observe("BaseTradeProvider.close_trade", see=lambda: len(trade.closes))

    def model():
        c = trade.close_from_epic(quantity=quantity)
        epic.trade_provider.close_trade(c)
        return c

    see = lambda: (list(trade.closes), trade.current_close_value)
    got = outcome(lambda: epic.close_trade(trade=trade, quantity=quantity), see=see)
    check_same(got, outcome(model, see=see), "closed at the last tick and sent once to the provider of the epic")


def strategy_closes(strategy: BaseStrategy, trade: Trade, quantity: Int):
    observe("BaseTradeProvider.close_trade", see=lambda: len(trade.closes))

    def model():
        c = trade.close_from_epic(quantity=quantity)
        trade.epic.trade_provider.close_trade(c)
        return c

    see = lambda: (list(trade.closes), trade.current_close_value)
    got = outcome(lambda: strategy.close_trade(trade=trade, quantity=quantity), see=see)
    check_same(got, outcome(model, see=see), "closed by the epic of the trade")
    got = outcome(lambda: strategy.close_trade(trade=trade), see=see)

    def model_all():
        c = trade.close_from_epic()
        trade.epic.trade_provider.close_trade(c)
        return c

    check_same(got, outcome(model_all, see=see), "closed entirely by default")


@options(bounded_only=True, grow=False, sizes=[(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0)], deep=[(3, 1), (4, 0)])
def strategy_closes_everything(strategy: BaseStrategy):
    observe("BaseTradeProvider.close_trade")
    trades = list(strategy.trades)
    for i, a in enumerate(trades):
        for b in trades[i + 1:]:
            assume(a is not b, a.closes is not b.closes)

    def model():
        for t in reversed(trades):
            if not t.closed:
                c = t.close_from_epic()
                t.epic.trade_provider.close_trade(c)

    see = lambda: [t.closed for t in trades]
    check_same(outcome(lambda: strategy.close_opened_trades(), see=see), outcome(model, see=see),
               "every opened trade is closed, once, newest first")


def no_trade_left_opened(strategy: BaseStrategy, trade: Trade):
    observe("BaseTradeProvider.close_trade")
    strategy.trades = [trade]
    strategy.close_opened_trades()
    check_same(trade.closed, True, "closed")


@options(bounded_only=True)
def all_closed(strategy: BaseStrategy):
    """however many opened trades there are"""
    observe("BaseTradeProvider.close_trade", silent=True)
    trades = list(strategy.trades)
    for t in trades:
        t.closes = []
        t.open_quantity = 1
    strategy.close_opened_trades()
    check_same([t.closed_quantities for t in trades], [1 for t in trades], "every trade is closed")
