import arrow
from datetime import time
from estrade.epic import Epic


def _is_open(epic, dt):
    return (epic.open_time <= dt.time() and dt.time() <= epic.close_time and dt.weekday() in epic.trade_days
            and not dt.date() in epic.holidays)


def definition(epic: Epic):
    check_same(epic.is_market_open(), _is_open(epic, epic.last_tick.datetime),
               "open: within hours (bounds included), on a trade day, not on a holiday")


def decided_on_each_tick(epic: Epic, tick: Tick):
    """the market state after a tick, seen from everything the tick reaches and from the outside"""
    state = lambda: (epic.market_open, epic.last_tick is tick)
    observe("FrameSet.on_new_tick", see=state)
    observe("Trade.update", silent=True)
    observe("Trade.close", silent=True)
    observe("BaseStrategy.on_every_tick", see=state)
    observe("BaseStrategy.on_market_open", silent=True)
    observe("BaseStrategy.on_market_close", silent=True)
    observe("BaseStrategy.on_every_tick_market_open", silent=True)
    assume(tick.datetime >= epic.last_tick.datetime)
    local = tick.datetime.to(epic.timezone)

    def model():
        epic.last_tick = tick
        tick.datetime = local
        epic.market_open = _is_open(epic, local)
        for fs in epic.frame_sets.values():
            fs.on_new_tick(tick)
        for s in epic.strategies.values():
            if s.is_active(local):
                s.on_every_tick(epic)

    got = outcome(lambda: epic.on_new_tick(tick), see=state)
    want = outcome(model, see=state)
    check_same(got, want, "market state decided in the timezone of the epic before the tick is passed on")


def initially_closed(days: List[Int], hol: List[Date], a: Time, b: Time, ref: Str, provider: BaseTradeProvider):
    e = Epic(open_time=a, close_time=b, trade_days=days, holidays=hol, ref=ref, trade_provider=provider)
    check_same(e.market_open, False, "a new epic is closed")
    check(e.last_tick.datetime == arrow.get("1900-01-01 00:00:00"), "a new epic has a tick at the origin of time")
    check_same(e.open_time, a, "open time")
    check_same(e.close_time, b, "close time")
    check_same(list(e.trade_days), list(days), "given trade days are used, even none")
    check_same(list(e.holidays), list(hol), "given holidays are used")
    check(e.trade_provider is provider, "trade provider")


def defaults(ref: Str):
    e = Epic(ref=ref)
    check_same(e.open_time, time(9, 30), "open time")
    check_same(e.close_time, time(17, 30), "close time")
    check_same(list(e.trade_days), [0, 1, 2, 3, 4], "working days")
    check_same(len(e.holidays), 0, "no holidays")
    check_same(e.timezone, "UTC", "timezone")


def session(a: Tick, b: Tick, c: Tick, ref: Str):
    """successive ticks: each one decides"""
    e = Epic(ref=ref, timezone="UTC", trade_days=[1, 3])
    e.frame_sets = {}
    e.strategies = {}
    e.trade_provider.trades = []
    x, y, z = a.datetime.to("UTC"), b.datetime.to("UTC"), c.datetime.to("UTC")
    assume(x >= e.last_tick.datetime, y >= x, z >= y, a is not b, b is not c, a is not c)
    for tick, dt in [(a, x), (b, y), (c, z)]:
        e.on_new_tick(tick)
        check_same(e.market_open, time(9, 30) <= dt.time() <= time(17, 30) and dt.weekday() in [1, 3], "market state")
