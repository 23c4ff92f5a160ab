from estrade.strategy import BaseStrategy


def active(strategy: BaseStrategy, dt: Arrow):
    until = strategy.paused_until
    stopped = strategy.stopped
    want = not stopped and (until is None or dt >= until)
    check_same(strategy.is_active(dt), want, "active unless stopped or paused until later")
    check_same(strategy.stopped, stopped, "stop is kept")
    if stopped or want is False:
        check_same(strategy.paused_until, until, "pause is kept until its end")
    else:
        check_same(strategy.paused_until, None, "pause is lifted at its end")


def lifted_for_good(strategy: BaseStrategy, dt: Arrow, other: Arrow):
    assume(not strategy.stopped)
    if strategy.is_active(dt):
        check_same(strategy.is_active(other), True, "a pause that ended does not come back")


def new_strategy(ref: Str, dt: Arrow):
    s = BaseStrategy(ref=ref)
    check_same(s.is_active(dt), True, "a new strategy is active")
    s.paused_until = dt
    check_same(s.is_active(dt), True, "a pause ends at its date")
    s.stopped = True
    check_same(s.is_active(dt), False, "a stopped strategy is not active")


def ignored_when_inactive(epic: Epic, tick: Tick, strategy: BaseStrategy):
    """an inactive strategy receives nothing"""
    observe("FrameSet.on_new_tick", silent=True)
    observe("Trade.update", silent=True)
    observe("BaseStrategy.on_every_tick", name="called")
    observe("BaseStrategy.on_market_open", name="called")
    observe("BaseStrategy.on_market_close", name="called")
    observe("BaseStrategy.on_every_tick_market_open", name="called")
    assume(tick.datetime >= epic.last_tick.datetime)
    epic.strategies = {strategy.ref: strategy}
    stopped = strategy.stopped or (strategy.paused_until is not None and tick.datetime < strategy.paused_until)
    got = outcome(lambda: epic.on_new_tick(tick))
    if stopped:
        check_same(len(got[2]), 0, "no call")
    else:
        check(len(got[2]) > 0, "called")


def pause_over_ticks(epic: Epic, s: BaseStrategy, a: Tick, b: Tick, c: Tick, until: Arrow):
    """a paused strategy is called from the first tick not before the end of its pause"""
    observe("BaseStrategy.on_every_tick")
    observe("BaseStrategy.on_market_open", silent=True)
    observe("BaseStrategy.on_market_close", silent=True)
    observe("BaseStrategy.on_every_tick_market_open", silent=True)
    s.stopped = False
    s.paused_until = until
    epic.strategies = {"s": s}
    epic.frame_sets = {}
    epic.trade_provider.trades = []
    local = [t.datetime.to(epic.timezone) for t in (a, b, c)]
    assume(a is not b, b is not c, a is not c, local[0] >= epic.last_tick.datetime, local[1] >= local[0], local[2] >= local[1])

    def real():
        for t in (a, b, c):
            epic.on_new_tick(t)

    def model():
        for dt in local:
            if dt >= until:
                s.on_every_tick(epic)

    check_same(outcome(real)[2], outcome(model)[2], "calls over three ticks")


class Stopping(BaseStrategy):
    """a strategy that stops, or pauses, every other strategy of the epic when it is called"""

    def on_every_tick(self, epic):
        self.calls += 1
        for other in epic.strategies.values():
            if other is not self:
                other.stopped = self.stops
                other.paused_until = self.pauses


def stopped_by_another(epic: Epic, tick: Tick, stops: Bool, until: Arrow):
    """what a strategy decides about the next ones holds from its call on"""
    a, b = Stopping(ref="a"), Stopping(ref="b")
    for s in (a, b):
        s.calls = 0
        s.stops = stops
        s.pauses = until
    epic.strategies = {"a": a, "b": b}
    epic.frame_sets = {}
    epic.trade_provider.trades = []
    local = tick.datetime.to(epic.timezone)
    assume(local >= epic.last_tick.datetime)
    epic.on_new_tick(tick)
    check_same(a.calls, 1, "the first strategy is called")
    check_same(b.calls, 0 if stops or local < until else 1, "a strategy stopped or paused in between is not called")
