from estrade.enums import TradeDirection
from estrade.reporting.csv import ReportingCSV
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def _quiet():
    observe("BaseTradeProvider.open_trade_request", silent=True)
    observe("BaseTradeProvider.close_trade_request", silent=True)
    observe("TradeProviderBacktests.open_trade_request", silent=True)
    observe("TradeProviderBacktests.close_trade_request", silent=True)


def tick(epic: Epic, t: Tick, trade: Trade, strategy: BaseStrategy):
    """a tick records and removes nothing"""
    for hook in ("FrameSet.on_new_tick", "BaseStrategy.on_every_tick", "BaseStrategy.on_market_open",
                 "BaseStrategy.on_market_close", "BaseStrategy.on_every_tick_market_open"):
        observe(hook, silent=True)
    assume(t.datetime >= epic.last_tick.datetime)
    epic.trade_provider.trades = [trade]
    see = lambda: (list(epic.trade_provider.trades), list(strategy.trades), list(trade.closes))
    before = see()
    epic.on_new_tick(t)
    check_same(see(), before, "trades and closes")


def valued(trade: Trade, value: Num, t: Tick):
    before = list(trade.closes)
    trade.update(value)
    trade.update_from_tick(t)
    trade.update_from_epic()
    check_same(list(trade.closes), before, "closes")


def opened(provider: BaseTradeProvider, trade: Trade, strategy: BaseStrategy):
    """an opened trade comes after the earlier ones"""
    _quiet()
    trade.strategy = strategy
    before, known = list(provider.trades), list(strategy.trades)
    provider.open_trade(trade)
    check_same(list(provider.trades), before + [trade], "trades of the provider")
    check_same(list(strategy.trades), known + [trade], "trades of the strategy")


def opened_alone(provider: BaseTradeProvider, trade: Trade):
    _quiet()
    trade.strategy = None
    before = list(provider.trades)
    provider.open_trade(trade)
    check_same(list(provider.trades), before + [trade], "trades of the provider")


def netted(provider: TradeProviderBacktests, trade: Trade, a: Trade, b: Trade, strategy: BaseStrategy):
    """opening against opened trades adds closes to them and removes nothing"""
    _quiet()
    provider.trades = [a, b]
    strategy.trades = [b]
    trade.closes = []
    trade.strategy = strategy
    for t in (a, b):
        assume(t.epic is trade.epic, t is not trade, t.closes is not trade.closes,
               t.open_quantity >= sum(c.quantity for c in t.closes))
    assume(a is not b, a.closes is not b.closes, trade.open_quantity > 0)
    old = [list(a.closes), list(b.closes)]
    provider.open_trade(trade)
    check_same(list(provider.trades)[:2], [a, b], "trades of the provider")
    check_same(list(provider.trades)[2:], [trade] if trade.open_quantity > 0 else [], "and the new one")
    check_same(list(strategy.trades), [b] + ([trade] if trade.open_quantity > 0 else []), "trades of the strategy")
    check(len(a.closes) - len(old[0]) in (0, 1) and len(b.closes) - len(old[1]) in (0, 1), "one more close at most")


def closed(epic: Epic, trade: Trade, quantity: Int):
    """a close comes after the earlier ones"""
    observe("BaseTradeProvider.close_trade", silent=True)
    assume(not trade.closed, quantity > 0)
    before, trades = list(trade.closes), list(epic.trade_provider.trades)
    k = epic.close_trade(trade, quantity=quantity)
    check_same(list(trade.closes), before + [k], "closes")
    check_same(list(epic.trade_provider.trades), trades, "trades")


def everything_closed(strategy: BaseStrategy, a: Trade, b: Trade):
    observe("BaseTradeProvider.close_trade", silent=True)
    strategy.trades = [a, b]
    assume(a is not b, a.closes is not b.closes)
    old = [list(a.closes), list(b.closes)]
    done = [a.closed, b.closed]
    strategy.close_opened_trades()
    check_same(list(strategy.trades), [a, b], "trades of the strategy")
    check_same([len(a.closes), len(b.closes)], [len(o) + (0 if d else 1) for o, d in zip(old, done)], "one close each")
    check_same(list(a.closes)[:-1] if not done[0] else list(a.closes), old[0], "earlier closes")


def requests(provider: BaseTradeProvider, close: TradeClose):
    """closing on the provider side records nothing but the request"""
    _quiet()
    before = (list(provider.trades), list(close.trade.closes))
    alive = lambda: [t for t in provider.threads if t.is_alive()]
    threads = alive()
    provider.close_trade(close)
    check_same((list(provider.trades), list(close.trade.closes)), before, "trades and closes")
    check_same(alive()[:len(threads)], threads, "earlier requests")


@options(bounded=True)
def requests_running(provider: BaseTradeProvider, close: TradeClose):
    """no request that runs is forgotten"""
    _quiet()
    before = list(provider.threads)
    for t in before:
        assume(t.is_alive())
    provider.close_trade(close)
    check_same(list(provider.threads)[:len(before)], before, "earlier requests")


@options(bounded=True)
def reported(strategy: BaseStrategy, folder: Str):
    before = list(strategy.trades)
    ReportingCSV(target_folder=folder).report([strategy], trade_details=False)
    check_same(list(strategy.trades), before, "trades of the strategy")


def reported_in_detail(strategy: BaseStrategy, a: Trade, b: Trade, c: Trade, folder: Str):
    strategy.trades = [a, b, c]
    assume(a is not b, b is not c, a is not c)
    for t in (a, b, c):
        t.closes = []
    ReportingCSV(target_folder=folder).report([strategy], trade_details=True)
    check_same(list(strategy.trades), [a, b, c], "trades of the strategy")


def read(strategy: BaseStrategy, provider: BaseTradeProvider, a: Trade, b: Trade, c: Trade, after: Arrow):
    """results and selections leave the books alone"""
    strategy.trades = [a, b, c]
    provider.trades = [a, b, c]
    assume(a is not b, b is not c, a is not c)
    for t in (a, b, c):
        t.closes = []
    list(strategy.get_trades(open_only=True, only_after=after))
    strategy.result()
    strategy.profit_factor()
    provider.opened_trades
    provider.is_alive
    check_same((list(strategy.trades), list(provider.trades)), ([a, b, c], [a, b, c]), "trades")


def quantity_kept(trade: Trade, value: Num, dt: Arrow, quantity: Int):
    """what was closed stays closed: quantities and prices of earlier closes are never changed"""
    assume(quantity > 0, not trade.closed)
    k = trade.close(close_value=value, datetime=dt, quantity=1)
    price, n, date = k.close_value, k.quantity, k.datetime
    trade.update(value + 1)
    trade.close(close_value=value + 2, datetime=dt, quantity=quantity) if not trade.closed else None
    check_same((k.close_value, k.quantity, k.datetime), (price, n, date), "the earlier close")
