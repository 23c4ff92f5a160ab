from estrade.graph.base_indicator import BaseIndicator
from estrade.graph.indicators.candle_set import BaseCandle
from estrade.graph.indicators.pivot import BasePivotType
from estrade.tick_provider import BaseTickProvider
from estrade.trade_provider import BaseTradeProvider


def trade_provider(ref: Str, trade: Trade, close: TradeClose):
    """requests have to be implemented"""
    p = BaseTradeProvider(ref=ref)
    check_same(catch(lambda: p.open_trade_request(trade)), "NotImplementedError", "open request")
    check_same(catch(lambda: p.close_trade_request(close)), "NotImplementedError", "close request")
    check_no_effect(lambda: catch(lambda: p.open_trade_request(trade)), "nothing is confirmed")
    check_no_effect(lambda: catch(lambda: p.close_trade_request(close)), "nothing is confirmed")


def never_confirmed(ref: Str, trade: Trade, close: TradeClose):
    """opening and closing through the base provider leaves statuses alone"""
    p = BaseTradeProvider(ref=ref)
    status, closing = trade.status, close.status
    p.open_trade(trade)
    check_same((trade.status, close.status), (status, closing), "status after opening")
    p.close_trade(close)
    check_same((trade.status, close.status), (status, closing), "status after closing")


def tick_provider(epics: List[Epic]):
    check_same(catch(lambda: BaseTickProvider(epics=epics).run()), "NotImplementedError", "run")


def candle(ref: Str, frame: Frame):
    c = BaseCandle(indicator=BaseIndicator(value_class=BaseCandle, ref=ref), frame=frame)
    check_same((catch(lambda: c.open), catch(lambda: c.high), catch(lambda: c.low), catch(lambda: c.last),
                catch(lambda: c.close)), ("NotImplementedError", "NotImplementedError", "NotImplementedError", "NotImplementedError", "NotImplementedError"), "prices of a candle")
    check_same((catch(lambda: c.color), catch(lambda: c.body)), ("NotImplementedError",) * 2, "shape without prices")


def pivot(ref: Str, frame: Frame):
    p = BasePivotType(indicator=BaseIndicator(value_class=BasePivotType, ref=ref), frame=frame)
    check_same((catch(lambda: p.pivot), catch(lambda: p.support1), catch(lambda: p.support2), catch(lambda: p.support3),
                catch(lambda: p.resistance1), catch(lambda: p.resistance2), catch(lambda: p.resistance3)),
               ("NotImplementedError",) * 7, "levels")
