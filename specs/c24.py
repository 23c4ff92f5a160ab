from estrade.enums import Unit
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
from estrade.graph.frame_set import Frame, FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage


def attach(fs: FrameSet, ref: Str, only: Bool, other: Str):
    ind = BaseIndicator(value_class=BaseIndicatorValue, ref=ref, market_open_only=only)
    assume(ref != "", other != ref)
    check_same((ind.frame_set, ind.epic), (None, None), "not attached at first")
    before = fs.indicators.get(other)
    n = len(fs.indicators)
    had = ref in fs.indicators
    fs.add_indicator(ind)
    check(ind.frame_set is fs, "attached to the frame set")
    check(fs.indicators[ref] is ind, "known by its reference")
    check_same(len(fs.indicators), n if had else n + 1, "one indicator more")
    check_same(fs.indicators.get(other), before, "other indicators are kept")
    check(ind.epic is fs.epic, "epic of the frame set")
    check_same((ind.ref, ind.market_open_only), (ref, only), "as given")


def refused(fs: FrameSet, periods: Int, ref: Str):
    """an RSI that needs more frames than are kept is refused without trace"""
    ind = RSI(periods=periods, ref=ref)
    assume(ref != "", periods * fs.unit_quantity > fs.max_frames_in_memory)
    check_same(catch(lambda: fs.add_indicator(ind)), "BaseIndicatorException", "refused")
    check_same((ind.frame_set, ind.epic), (None, None), "not attached")
    check_no_effect(lambda: catch(lambda: fs.add_indicator(ind)), "nothing else changed")


def accepted(fs: FrameSet, periods: Int, ref: Str):
    ind = RSI(periods=periods, ref=ref)
    assume(ref != "", periods * fs.unit_quantity <= fs.max_frames_in_memory)
    check_same(catch(lambda: fs.add_indicator(ind)), None, "accepted")
    check(ind.frame_set is fs and fs.indicators[ref] is ind, "attached")


def build_value(ref: Str, only: Bool, frame: Frame, opened: Bool):
    """the value built for a frame, for an indicator of the package"""
    ind = CandleSet(ref=ref, market_open_only=only)
    v = ind.build_value_from_frame(frame, opened)
    if only and not opened:
        check_same(v, None, "no value out of market hours")
    else:
        check(v.indicator is ind and v.frame is frame, "knows its indicator and its frame")


def _market(fs):
    return fs.epic is not None and fs.epic.market_open


def frame_start(fs: FrameSet, tick: Tick, start: Arrow):
    """a new frame asks every indicator of its frame set for a value"""
    observe("BaseIndicator.build_value_from_frame")
    ind = fresh("BaseIndicator", "ind")
    n = fresh("Str", "name")
    fs.indicators = {n: ind}
    assume(n != "")
    ind.ref = n
    f = Frame(parent_frameset=fs, first_tick=tick, period_start=start)
    check_same(len(f.indicators), 1, "one value per indicator")
    check(f[n] is f.indicators[n], "value found by reference")


@options(bounded_only=True, grow=False, sizes=[(0, 0), (1, 0), (1, 1), (2, 1)], deep=[(2, 0), (2, 2)])
def each_tick(frame: Frame, tick: Tick):
    """on each tick, each indicator that has a value in the frame gets the tick; the others get a chance to start"""
    observe("BaseIndicatorValue.on_new_tick", silent=False)
    observe("BaseIndicator.build_value_from_frame")
    fs = frame.parent_frameset
    for r, i in fs.indicators.items():
        assume(r != "", i.ref == r)

    def model():
        frame.nb_ticks = frame.nb_ticks + 1
        frame.last_tick = tick
        if tick.value > frame.high_tick.value:
            frame.high_tick = tick
        if tick.value < frame.low_tick.value:
            frame.low_tick = tick
        for ref, ind in fs.indicators.items():
            v = frame.indicators.get(ref)
            if v is not None:
                v.on_new_tick(tick, _market(fs))
            else:
                frame.indicators[ind.ref] = ind.build_value_from_frame(frame, _market(fs))

    assume(frame.low_tick.value <= frame.high_tick.value)
    see = lambda: (dict(frame.indicators), frame.nb_ticks, frame.last_tick)
    check_same(outcome(lambda: frame.on_new_tick(tick), see=see), outcome(model, see=see),
               "indicators follow every tick of the frame")


def market_hours_seen(fs: FrameSet, tick: Tick):
    check_same(fs.epic_market_open, _market(fs), "market state is the one of the epic, closed without epic")


def opens_later(fs: FrameSet, epic: Epic, a: Tick, b: Tick, start: Arrow, ref: Str):
    """an indicator limited to market hours starts with the first tick of market hours"""
    assume(ref != "", a is not b)
    ind = CandleSet(ref=ref, market_open_only=True)
    fs.indicators = {}
    fs.epic = epic
    fs.add_indicator(ind)
    epic.market_open = False
    f = Frame(parent_frameset=fs, first_tick=a, period_start=start)
    check_same(f[ref], None, "nothing before the market opens")
    epic.market_open = True
    f.on_new_tick(b)
    check(f[ref] is not None and f[ref].first_tick is b and f[ref].high_tick is b and f[ref].low_tick is b,
          "starts when the market opens")
    epic.market_open = False
    c = fresh("Tick", "c")
    f.on_new_tick(c)
    check(f[ref].last_tick is b and f.last_tick is c, "ticks out of market hours are left out")


class Spread(BaseIndicatorValue):
    """a value of the user's own"""

    @property
    def value(self):
        return 1


class Other(BaseIndicatorValue):
    @property
    def value(self):
        return 2


def own_values(frame: Frame, a: Str, b: Str, opened: Bool):
    """each indicator builds values of the class it was given"""
    first = BaseIndicator(value_class=Spread, ref=a)
    second = BaseIndicator(value_class=Other, ref=b)
    third = BaseIndicator(value_class=Spread)
    for ind, expected in ((first, 1), (second, 2), (third, 1), (first, 1)):
        v = ind.build_value_from_frame(frame, opened)
        check_same(v.value, expected, "value of its own class")
        check(v.indicator is ind and v.frame is frame, "knows its indicator and its frame")


@options(bounded=True)
def every_indicator(fs: FrameSet, tick: Tick, later: Tick, start: Arrow):
    """however many indicators there are, each has a value, and each value gets the next tick"""
    observe("BaseIndicatorValue.on_new_tick")
    n = len(fs.indicators)
    for r, i in fs.indicators.items():
        assume(r != "", i.ref == r)
        i.market_open_only = False
        i.value_class = BaseIndicatorValue
    f = Frame(parent_frameset=fs, first_tick=tick, period_start=start)
    check_same(len(f.indicators), n, "a value per indicator")

    def model():
        for r in fs.indicators:
            f.indicators[r].on_new_tick(later, _market(fs))

    check_same(outcome(lambda: f.on_new_tick(later), see=lambda: None), outcome(model, see=lambda: None),
               "each value gets the tick")
