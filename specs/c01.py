from estrade.tick import Tick


def pricing(datetime: Arrow, bid: Num, ask: Num):
    assume(bid <= ask)
    t = Tick(datetime=datetime, bid=bid, ask=ask)
    check_same(t.bid, bid, "bid")
    check_same(t.ask, ask, "ask")
    check_same(t.spread, round(ask - bid, 2), "spread")
    check_same(t.value, round(bid + round(ask - bid, 2) / 2, 2), "value")


def crossed(datetime: Arrow, bid: Num, ask: Num):
    e = catch(lambda: Tick(datetime=datetime, bid=bid, ask=ask))
    check_same(e, "TickException" if bid > ask else None, "refused")


def non_numeric(datetime: Arrow, bid: Any, ask: Any):
    assume(not (isinstance(bid, int) or isinstance(bid, float)))
    check_same(catch(lambda: Tick(datetime=datetime, bid=bid, ask=1)), "TickException", "bid refused")
    check_same(catch(lambda: Tick(datetime=datetime, bid=0, ask=bid)), "TickException", "ask refused")
