def opened(provider: BaseTradeProvider):
    check_same(list(provider.opened_trades), [t for t in reversed(provider.trades)
                                              if t.open_quantity != sum(c.quantity for c in t.closes)],
               "opened trades, newest first")
    check_no_effect(lambda: list(provider.opened_trades), "reading the opened trades")


def unfiltered(strategy: BaseStrategy):
    check_same(list(strategy.get_trades()), list(reversed(strategy.trades)), "every trade, newest first")
    check_no_effect(lambda: list(strategy.get_trades()), "reading the trades")


def filtered(strategy: BaseStrategy, epics: List[Epic], open_only: Bool):
    check_same(list(strategy.get_trades(epics=epics, open_only=open_only)),
               [t for t in reversed(strategy.trades) if t.epic in epics and (not open_only or not t.closed)],
               "trades of the given epics, opened ones when asked")
    check_same(list(strategy.get_trades(open_only=open_only)),
               [t for t in reversed(strategy.trades) if not open_only or not t.closed], "opened ones when asked")


def no_epic(strategy: BaseStrategy):
    check_same(list(strategy.get_trades(epics=[])), [], "no epic, no trade")


@options(bounded_only=True)
def recent(strategy: BaseStrategy, epics: List[Epic], open_only: Bool, after: Arrow):
    """trades are recorded chronologically"""
    trades = list(strategy.trades)
    for i, a in enumerate(trades):
        if i > 0:
            assume(trades[i - 1].datetime <= a.datetime)
    check_same(list(strategy.get_trades(open_only=open_only, only_after=after)),
               [t for t in reversed(trades) if (not open_only or not t.closed) and t.datetime >= after],
               "trades since a date")


@options(bounded_only=True)
def recent_of_epics(strategy: BaseStrategy, epics: List[Epic], after: Arrow):
    trades = list(strategy.trades)
    for i, a in enumerate(trades):
        if i > 0:
            assume(trades[i - 1].datetime <= a.datetime)
    check_same(list(strategy.get_trades(epics=epics, only_after=after)),
               [t for t in reversed(trades) if t.epic in epics and t.datetime >= after],
               "trades of some epics since a date")
