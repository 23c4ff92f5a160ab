from estrade.epic import Epic


def _observe():
    observe("FrameSet.on_new_tick")
    observe("Trade.update")
    observe("Trade.close")
    observe("BaseStrategy.on_every_tick")
    observe("BaseStrategy.on_market_open")
    observe("BaseStrategy.on_market_close")
    observe("BaseStrategy.on_every_tick_market_open")


def older_refused(epic: Epic, tick: Tick):
    _observe()
    assume(tick.datetime < epic.last_tick.datetime)
    check_same(catch(lambda: epic.on_new_tick(tick)), "EpicException", "an older tick is refused")


def older_leaves_no_trace(epic: Epic, tick: Tick):
    _observe()
    assume(tick.datetime < epic.last_tick.datetime)
    check_no_effect(lambda: epic.on_new_tick(tick), "a refused tick leaves no trace", ignore=(tick,))


def same_or_later_accepted(epic: Epic, tick: Tick):
    _observe()
    assume(tick.datetime >= epic.last_tick.datetime)
    check_same(catch(lambda: epic.on_new_tick(tick)), None, "accepted")
    check(epic.last_tick is tick, "becomes the last tick")

