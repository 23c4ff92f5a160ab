import arrow
from estrade.tick import Tick
from estrade.trade import Trade, TradeClose
from estrade.enums import TradeDirection


def aware_kept(datetime: Arrow, trade: Trade, epic: Epic):
    t = Tick(datetime=datetime, bid=1, ask=2)
    check_same(t.datetime, datetime, "tick datetime")
    check_same(t.datetime_utc, datetime.to("UTC"), "tick utc datetime")
    tr = Trade(direction=TradeDirection.BUY, quantity=1, open_value=1, open_datetime=datetime, epic=epic)
    check_same(tr.datetime, datetime, "trade datetime")
    check_same(tr.datetime_utc, datetime.to("UTC"), "trade utc datetime")
    c = TradeClose(trade=trade, close_value=1, quantity=1, datetime=datetime)
    check_same(c.datetime, datetime, "close datetime")
    check_same(c.datetime_utc, datetime.to("UTC"), "close utc datetime")


def python_datetime(datetime: PyDatetime, trade: Trade, epic: Epic, tick: Tick):
    naive = datetime.tzinfo is None
    want = "TimeException" if naive else None
    check_same(catch(lambda: Tick(datetime=datetime, bid=1, ask=2)), want, "tick from a python datetime")
    check_same(catch(lambda: Trade(direction=TradeDirection.BUY, quantity=1, open_value=1, open_datetime=datetime,
                                   epic=epic)), want, "trade from a python datetime")
    check_same(catch(lambda: TradeClose(trade=trade, close_value=1, quantity=1, datetime=datetime)), want,
               "close from a python datetime")
    if not naive:
        check_same(Tick(datetime=datetime, bid=1, ask=2).datetime, arrow.get(datetime), "stored as an arrow")


def setter(tick: Tick, datetime: PyDatetime, trade: Trade):
    old = tick.datetime
    old2 = trade.datetime

    def assign():
        tick.datetime = datetime

    def assign2():
        trade.datetime = datetime

    e = catch(assign)
    naive = datetime.tzinfo is None
    check_same(e, "TimeException" if naive else None, "assignment of a naive datetime")
    check_same(tick.datetime, old if naive else arrow.get(datetime), "datetime after assignment")
    check_same(catch(assign2), e, "assignment on a trade")
    check_same(trade.datetime, old2 if naive else arrow.get(datetime), "trade datetime after assignment")


def not_a_datetime(datetime: Any, trade: Trade, epic: Epic):
    assume(not hasattr(datetime, "tzinfo"))
    check_same(catch(lambda: Tick(datetime=datetime, bid=1, ask=2)), "TimeException", "tick without datetime")
    check_same(catch(lambda: TradeClose(trade=trade, close_value=1, quantity=1, datetime=datetime)), "TimeException",
               "close without datetime")
    check_same(catch(lambda: Trade(direction=TradeDirection.BUY, quantity=1, open_value=1, open_datetime=datetime,
                                   epic=epic)), "TimeException", "trade without datetime")


def text_or_none(trade: Trade):
    check_same(catch(lambda: Tick(datetime="2020-01-01", bid=1, ask=2)), "TimeException", "text")
    check_same(catch(lambda: Tick(datetime=None, bid=1, ask=2)), "TimeException", "None")
    check_same(catch(lambda: TradeClose(trade=trade, close_value=1, quantity=1, datetime=None)), "TimeException", "None")
