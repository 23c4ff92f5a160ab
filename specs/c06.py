from datetime import time
from estrade.epic import Epic


def _observe(epic):
    state = lambda: (epic.last_tick, epic.market_open)
    observe("FrameSet.on_new_tick", silent=True)
    observe("Trade.update", silent=True)
    observe("BaseStrategy.on_every_tick", see=state)
    observe("BaseStrategy.on_market_open", see=state)
    observe("BaseStrategy.on_market_close", see=state)
    observe("BaseStrategy.on_every_tick_market_open", see=state)


def dispatch(epic: Epic, tick: Tick):
    """each active strategy, in registration order: opening or closing, then open market tick, then every tick"""
    _observe(epic)
    assume(tick.datetime >= epic.last_tick.datetime)
    was_open = epic.market_open
    local = tick.datetime.to(epic.timezone)
    is_open = (epic.open_time <= local.time() <= epic.close_time and local.weekday() in epic.trade_days
               and local.date() not in epic.holidays)

    def model():
        tick.datetime = local
        epic.last_tick = tick
        epic.market_open = is_open
        for ref in epic.strategies:
            s = epic.strategies[ref]
            if not s.is_active(local):
                continue
            if was_open and not is_open:
                s.on_market_close(epic)
            elif is_open and not was_open:
                s.on_market_open(epic)
            if is_open:
                s.on_every_tick_market_open(epic)
            s.on_every_tick(epic)

    got = outcome(lambda: epic.on_new_tick(tick))
    want = outcome(model)
    check_same(got, want, "calls received by the strategies")


def default_hooks_do_nothing(strategy: BaseStrategy, epic: Epic):
    check_no_effect(lambda: strategy.on_every_tick(epic), "on_every_tick")
    check_no_effect(lambda: strategy.on_market_open(epic), "on_market_open")
    check_no_effect(lambda: strategy.on_market_close(epic), "on_market_close")
    check_no_effect(lambda: strategy.on_every_tick_market_open(epic), "on_every_tick_market_open")


def session(ref: Str, s: BaseStrategy, a: Tick, b: Tick):
    """what a strategy gets over the first two ticks: one opening per opening, one closing per closing"""
    observe("FrameSet.on_new_tick", silent=True)
    observe("Trade.update", silent=True)
    observe("BaseStrategy.on_every_tick")
    observe("BaseStrategy.on_market_open")
    observe("BaseStrategy.on_market_close")
    observe("BaseStrategy.on_every_tick_market_open")
    s.stopped = False
    s.paused_until = None
    epic = Epic(ref=ref, timezone="UTC", trade_days=[0, 1, 2, 3, 4, 5, 6])
    epic.strategies = {"s": s}
    local = [t.datetime.to(epic.timezone) for t in (a, b)]
    assume(a is not b, local[0] >= epic.last_tick.datetime, local[1] >= local[0])
    opened = [time(9, 30) <= dt.time() <= time(17, 30) for dt in local]

    def real():
        for t in (a, b):
            epic.on_new_tick(t)

    def model():
        before = False
        for o in opened:
            if before and not o:
                s.on_market_close(epic)
            if o and not before:
                s.on_market_open(epic)
            if o:
                s.on_every_tick_market_open(epic)
            s.on_every_tick(epic)
            before = o

    check_same(outcome(real)[2], outcome(model)[2], "calls over two ticks")


@options(bounded=True)
def all_called(epic: Epic, tick: Tick):
    """however many strategies there are, each gets its call"""
    observe("FrameSet.on_new_tick", silent=True)
    observe("Trade.update", silent=True)
    observe("BaseStrategy.on_market_open", silent=True)
    observe("BaseStrategy.on_market_close", silent=True)
    observe("BaseStrategy.on_every_tick_market_open", silent=True)
    observe("BaseStrategy.on_every_tick")
    assume(tick.datetime >= epic.last_tick.datetime)
    epic.trade_provider.trades = []
    epic.frame_sets = {}
    epic.trade_days = []
    epic.market_open = False
    for s in epic.strategies.values():
        s.stopped = False
        s.paused_until = None

    def model():
        for s in epic.strategies.values():
            s.on_every_tick(epic)

    got = outcome(lambda: epic.on_new_tick(tick), see=lambda: None)
    check_same(got, outcome(model, see=lambda: None), "every strategy is called")
