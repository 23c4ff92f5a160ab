from estrade.enums import Unit
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.rsi import RSI


def _value(n, frame, ref, changes, last):
    """a value over n periods following one that knows these changes; last: the price of the frame before"""
    fs = fresh("FrameSet", "fs")
    fs.unit_quantity = 1
    assume(fs.max_frames_in_memory >= n)
    ind = RSI(periods=n, ref=ref)
    fs.add_indicator(ind)
    old = fresh("RSIValue", "old")
    p = fresh("Frame", "p")
    pp = fresh("Frame", "pp")
    old.frame = p
    assume(p is not frame, pp is not p, pp is not frame)
    p.previous_frame = pp
    old.last_changes = changes[:-1]
    stub(p.last_tick, "value", last)
    stub(pp.last_tick, "value", last - changes[-1])
    assume(p.last_tick is not pp.last_tick, frame.last_tick is not p.last_tick, frame.last_tick is not pp.last_tick)
    frame.previous_frame = p
    p.indicators = {ref: old}
    return ind.build_value_from_frame(frame, True)


def _rsi(changes):
    up = sum([c for c in changes if c >= 0])
    down = sum([c for c in changes if c < 0])
    n = len(changes)
    if down == 0:
        return 100
    if up == 0:
        return 0
    return round(100 - 100 / (1 + (up / n) / abs(down / n)), 2)


def too_few(frame: Frame, ref: Str, a: Num, last: Num):
    assume(ref != "")
    v = _value(3, frame, ref, [a], last)
    check_same(v.value, None, "not enough changes")


def without_previous(frame: Frame, ref: Str, fs: FrameSet):
    fs.unit_quantity = 1
    assume(ref != "", fs.max_frames_in_memory >= 2)
    frame.previous_frame = None
    ind = RSI(periods=2, ref=ref)
    fs.add_indicator(ind)
    v = ind.build_value_from_frame(frame, True)
    check_same((v.value, list(v.last_changes)), (None, []), "no change yet")


def two_periods(frame: Frame, ref: Str, a: Num, last: Num):
    assume(ref != "")
    v = _value(2, frame, ref, [a], last)
    check_same(v.value, _rsi([a, frame.last_tick.value - last]), "from the last two changes")


def three_periods(frame: Frame, ref: Str, a: Num, b: Num, last: Num):
    assume(ref != "")
    v = _value(3, frame, ref, [a, b], last)
    check_same(v.value, _rsi([a, b, frame.last_tick.value - last]), "from the last three changes")


def window(frame: Frame, ref: Str, a: Num, b: Num, c: Num, last: Num):
    """older changes are forgotten"""
    assume(ref != "")
    v = _value(2, frame, ref, [a, b, c], last)
    check_same(list(v.last_changes), [c], "as many changes as needed")
    check_same(v.value, _rsi([c, frame.last_tick.value - last]), "from the last two changes")


def single_period(frame: Frame, ref: Str, a: Num, last: Num):
    assume(ref != "")
    v = _value(1, frame, ref, [a], last)
    check_same(v.value, _rsi([frame.last_tick.value - last]), "from the last change")


def moves_with_ticks(frame: Frame, ref: Str, a: Num, last: Num, tick: Tick):
    """each tick of the frame replaces the current change"""
    assume(ref != "")
    observe("BaseIndicatorValue.on_new_tick", silent=True, exact=True)
    v = _value(2, frame, ref, [a], last)
    p = frame.previous_frame
    assume(tick is not p.last_tick, tick is not p.previous_frame.last_tick)
    frame.last_tick = tick
    v.on_new_tick(tick, True)
    check_same(v.value, _rsi([a, tick.value - last]), "from the last two changes")


def textbook(frame: Frame, ref: Str, a: Num, last: Num):
    """gains over gains and losses"""
    assume(ref != "", a > 0, last > frame.last_tick.value)
    v = _value(2, frame, ref, [a], last)
    b = frame.last_tick.value - last
    check_same(v.value, round(100 * a / (a - b), 2), "share of the gains")


def needed_frames(fs: FrameSet, periods: Int, ref: Str):
    """periods count units: a frame set of 5 minutes needs 5 changes per period"""
    assume(ref != "", periods * fs.unit_quantity <= fs.max_frames_in_memory)
    ind = RSI(periods=periods, ref=ref)
    check_same(ind.rsi_periods, None, "unknown before it is attached")
    fs.add_indicator(ind)
    check_same((ind.periods, ind.rsi_periods), (periods, periods * fs.unit_quantity), "periods of the unit of the frame set")


def not_attached(frame: Frame, ref: Str, periods: Int):
    ind = RSI(periods=periods, ref=ref)
    check_same(catch(lambda: ind.build_value_from_frame(frame, True)), "BaseIndicatorException", "refused")


@options(bounded=True)
def previous_untouched(frame: Frame, p: Frame, pp: Frame, old: RSIValue, ref: Str, n: Int, fs: FrameSet):
    """a new value leaves the one of the frame before as it is"""
    fs.unit_quantity = 1
    assume(ref != "", n >= 1, fs.max_frames_in_memory >= n, p is not frame, pp is not p, pp is not frame)
    ind = RSI(periods=n, ref=ref)
    fs.add_indicator(ind)
    old.frame = p
    p.previous_frame = pp
    frame.previous_frame = p
    p.indicators = {ref: old}
    before = (list(old.last_changes), old.value)
    v = ind.build_value_from_frame(frame, True)
    check_same((list(old.last_changes), old.value), before, "changes and value of the frame before")
    check(v.last_changes is not old.last_changes, "its own changes")


def history(a: Tick, b: Tick, c: Tick, d: Tick, e: Tick, x: Num, y: Num, z: Num, w: Num, u: Num):
    """every frame of a history has the RSI of its time, and keeps it"""
    for t, v in [(a, x), (b, y), (c, z), (d, w), (e, u)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    ind = RSI(periods=2, ref="rsi")
    fs.add_indicator(ind)
    for t in [a, b, c, d]:
        fs.on_new_tick(t)
    fs.add_tick_to_last(e)
    got = [f["rsi"].value for f in fs.frames]
    check_same(got[:2], [None, None], "not enough changes")
    check_same(got[2], _rsi([y - x, z - y]), "the RSI of the third frame")
    check_same(got[3], _rsi([z - y, u - z]), "the RSI of the fourth frame, with its last tick")
    check_same([list(f["rsi"].last_changes) for f in fs.frames], [[], [], [y - x], [z - y]], "changes known")


def reading_is_pure(v: RSIValue):
    check_no_effect(lambda: (v.value, list(v.last_changes), v.previous, v.next), "reading a value changes nothing")


def few_frames_kept(keep: Int, a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """changes of frames that are no more kept still count"""
    assume(keep >= 2)
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=keep)
    fs.add_indicator(RSI(periods=2, ref="rsi"))
    changes = []
    last = None
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        fs.on_new_tick(t)
        if last is not None:
            changes.append(n - last)
        last = n
        check_same(fs.current["rsi"].value, _rsi(changes[-2:]) if len(changes) > 1 else None, "strength of two changes")


@options(bounded_only=True)
def every_change(frame: Frame, p: Frame, pp: Frame, old: RSIValue, ref: Str, fs: FrameSet, a: Tick, b: Tick):
    """however many periods are asked, every change counts"""
    k = len(old.last_changes)
    fs.unit_quantity = 1
    assume(ref != "", fs.max_frames_in_memory >= k + 2, p is not frame, pp is not p, pp is not frame, a is not b)
    ind = RSI(periods=k + 2, ref=ref)
    fs.add_indicator(ind)
    old.frame = p
    p.previous_frame = pp
    frame.previous_frame = p
    p.indicators = {ref: old}
    old.last_changes = [-1 for x in old.last_changes]
    pp.last_tick = a
    p.last_tick = b
    frame.last_tick = a
    stub(a, "value", 5)
    stub(b, "value", 7)
    v = ind.build_value_from_frame(frame, True)
    check_same(len(v.last_changes), k + 1, "changes kept")
    check_same(v.value, round(100 - 100 / (1 + 2 / (2 + k)), 2), "RSI over all of them")
