from estrade.trade import Trade


def _same(got, want):
    check_same(len(got), len(want), "number of fields")
    for k, v in want.items():
        check(k in got, "field")
        check_same(got[k], v, "value of a field")


def trade(t: Trade):
    """a trade as a dictionary"""
    _same(t.asdict(), {
        "ref": t.ref,
        "status": t.status,
        "epic": t.epic.ref,
        "strategy": "undefined" if t.strategy is None else t.strategy.ref,
        "open_date": t.datetime.format("YYYY-MM-DD HH:mm:ss"),
        "direction": t.direction,
        "open_quantity": t.open_quantity,
        "open_value": t.open_value,
        "closed_quantities": sum([c.quantity for c in t.closes]),
        "result": t.result,
    })


def tick(t: Tick):
    _same(t.asdict(), {"datetime": t.datetime, "bid": t.bid, "ask": t.ask, "spread": round(t.ask - t.bid, 2),
                       "value": t.value})


def tick_printable(t: Tick):
    _same(t.asdict(datetime_to_str=True), {"datetime": t.datetime.strftime("%Y-%m-%d %H:%M:%S"), "bid": t.bid,
                                           "ask": t.ask, "spread": round(t.ask - t.bid, 2), "value": t.value})


def no_effect(t: Trade, k: Tick):
    check_no_effect(lambda: t.asdict(), "reading a trade changes nothing")
    check_no_effect(lambda: k.asdict(), "reading a tick changes nothing")
