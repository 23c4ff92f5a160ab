import threading
from estrade.enums import TransactionStatus
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def _running(provider):
    """those still running: a finished one may be forgotten"""
    return [t for t in provider.threads if t.is_alive()]


def open_registered_then_requested(provider: BaseTradeProvider, trade: Trade):
    """the request runs once, in a thread started after the trade has been registered"""
    recorded = lambda: (list(provider.trades), list(trade.strategy.trades) if trade.strategy else None)
    observe("BaseTradeProvider.open_trade_request", see=recorded)

    def model():
        provider.trades.append(trade)
        if trade.strategy is not None:
            trade.strategy.trades.append(trade)
        t = threading.Thread(target=provider.open_trade_request, kwargs={"trade": trade})
        provider.threads.append(t)
        t.start()

    see = lambda: (list(provider.trades), list(trade.strategy.trades) if trade.strategy else None,
                   provider.threads[-1:])
    check_same(outcome(lambda: provider.open_trade(trade), see=see)[1:], outcome(model, see=see)[1:],
               "trade registered, request sent once in a tracked thread")


def close_requested(provider: BaseTradeProvider, close: TradeClose):
    recorded = lambda: (list(close.trade.closes), close.quantity)
    observe("BaseTradeProvider.close_trade_request", see=recorded)

    def model():
        t = threading.Thread(target=provider.close_trade_request, kwargs={"trade_close": close})
        provider.threads.append(t)
        t.start()

    see = lambda: (list(provider.trades), provider.threads[-1:])
    check_same(outcome(lambda: provider.close_trade(close), see=see)[1:], outcome(model, see=see)[1:],
               "close request sent once in a tracked thread")


def alive(provider: BaseTradeProvider):
    check_same(provider.is_alive, any(t.is_alive() for t in provider.threads),
               "alive while one request is running")
    check_no_effect(lambda: provider.is_alive, "reading is_alive")


def new_provider(ref: Str, trade: Trade):
    observe("BaseTradeProvider.open_trade_request")
    p = BaseTradeProvider(ref=ref)
    check_same(p.is_alive, False, "no request")
    check_same((len(p.trades), len(p.threads), len(p.opened_trades)), (0, 0, 0), "no trade")
    p.open_trade(trade)
    check_same(list(p.trades), [trade], "trade registered")
    check_same(p.is_alive, p.threads[0].is_alive(), "alive while its request runs")


def backtests_confirm(provider: TradeProviderBacktests, trade: Trade, close: TradeClose):
    provider.open_trade_request(trade)
    check_same(trade.status, TransactionStatus.CONFIRMED, "opening confirmed")
    provider.close_trade_request(close)
    check_same(close.status, TransactionStatus.CONFIRMED, "closing confirmed")


def backtests_confirm_only(provider: TradeProviderBacktests, trade: Trade, close: TradeClose):
    check_no_effect(lambda: provider.open_trade_request(trade), "nothing but the status", ignore=((trade, "status"),))
    check_no_effect(lambda: provider.close_trade_request(close), "nothing but the status",
                    ignore=((close, "status"),))


def backtests_confirm_in_thread(provider: TradeProviderBacktests, close: TradeClose):
    def confirm():
        close.status = TransactionStatus.CONFIRMED

    def model():
        t = threading.Thread(target=confirm)
        provider.threads.append(t)
        t.start()

    see = lambda: (list(provider.trades), provider.threads[-1:])
    check_same(outcome(lambda: provider.close_trade(close), see=see)[1:], outcome(model, see=see)[1:],
               "closing confirmed by the thread")


def backtests_open_in_thread(provider: TradeProviderBacktests, trade: Trade):
    assume(len(provider.trades) == 0, trade.open_quantity > 0)

    def confirm():
        trade.status = TransactionStatus.CONFIRMED

    def model():
        provider.trades.append(trade)
        if trade.strategy is not None:
            trade.strategy.trades.append(trade)
        t = threading.Thread(target=confirm)
        provider.threads.append(t)
        t.start()

    see = lambda: (provider.threads[-1:], list(provider.trades),
                   list(trade.strategy.trades) if trade.strategy else None)
    check_same(outcome(lambda: provider.open_trade(trade), see=see)[1:], outcome(model, see=see)[1:],
               "opening confirmed by the thread")


def requests_followed_while_running(provider: BaseTradeProvider, close: TradeClose, trade: Trade):
    """a request that runs stays tracked, whatever is requested after it"""
    observe("BaseTradeProvider.close_trade_request")

    def model():
        t = threading.Thread(target=provider.close_trade_request, kwargs={"trade_close": close})
        provider.threads.append(t)
        t.start()

    see = lambda: _running(provider)
    check_same(outcome(lambda: provider.close_trade(close), see=see)[1:], outcome(model, see=see)[1:],
               "the requests still running are tracked after a closing")
    observe("BaseTradeProvider.open_trade_request")

    def opening():
        provider.trades.append(trade)
        if trade.strategy is not None:
            trade.strategy.trades.append(trade)
        t = threading.Thread(target=provider.open_trade_request, kwargs={"trade": trade})
        provider.threads.append(t)
        t.start()

    check_same(outcome(lambda: provider.open_trade(trade), see=see)[1:], outcome(opening, see=see)[1:],
               "the requests still running are tracked after an opening")


@options(bounded=True)
def alive_whichever(provider: BaseTradeProvider):
    """one running request is enough, whichever it is and however many there were"""
    for t in provider.threads[1:]:
        assume(not t.is_alive())
    if len(provider.threads) > 0:
        assume(provider.threads[0].is_alive())
        check_same(provider.is_alive, True, "the oldest request runs")


@options(bounded=True)
def alive_newest(provider: BaseTradeProvider):
    for t in provider.threads[:-1]:
        assume(not t.is_alive())
    if len(provider.threads) > 0:
        assume(provider.threads[-1].is_alive())
        check_same(provider.is_alive, True, "the newest request runs")
