from estrade.enums import Unit
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage


def _value(periods, frame, ref, closes):
    """a value following one that knows these closes"""
    ind = SimpleMovingAverage(max_periods=periods, ref=ref)
    old = fresh("SimpleMovingAverageValue", "old")
    p = fresh("Frame", "p")
    old.frame = p
    assume(p is not frame)
    old.last_closes = closes
    frame.previous_frame = p
    p.indicators = {ref: old}
    return ind.build_value_from_frame(frame, True)


def first_value(frame: Frame, ref: Str, n: Int):
    assume(ref != "")
    frame.previous_frame = None
    v = SimpleMovingAverage(max_periods=n, ref=ref).build_value_from_frame(frame, True)
    check_same(list(v.last_closes), [], "no previous close")
    check_same(v.get_value(1), round(frame.last_tick.value, 2), "the last price over one period")
    check_same(v.get_value(2), None, "not enough periods")


def follows(frame: Frame, ref: Str, p: Frame, a: Num, b: Num):
    """each new frame keeps the last prices of the frames before, at most the number asked for"""
    assume(ref != "")
    for n in range(1, 6):
        v = _value(n, frame, ref, [a, b])
        old = frame.previous_frame.last_tick.value
        check_same(list(v.last_closes), [a, b, old][-(n - 1):] if n > 1 else [], "previous closes, oldest first")


def averages(frame: Frame, ref: Str, a: Num, b: Num):
    """the average of the last prices"""
    assume(ref != "")
    v = _value(4, frame, ref, [a, b])
    c = frame.previous_frame.last_tick.value
    d = frame.last_tick.value
    check_same(v.get_value(1), round(d, 2), "one period")
    check_same(v.get_value(2), round((c + d) / 2, 2), "two periods")
    check_same(v.get_value(3), round((b + c + d) / 3, 2), "three periods")
    check_same(v.get_value(4), round((a + b + c + d) / 4, 2), "four periods")
    check_same(v.get_value(5), None, "not enough periods")


def moving(frame: Frame, ref: Str, a: Num, b: Num, tick: Tick):
    """the current price is the one of the last tick"""
    assume(ref != "")
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    v = _value(3, frame, ref, [a, b])
    c = frame.previous_frame.last_tick.value
    frame.last_tick = tick
    check_same(v.get_value(3), round((b + c + tick.value) / 3, 2), "the last tick of the frame counts")


@options(bounded=True)
def any_history(v: SimpleMovingAverageValue, n: Int):
    """whatever the number of previous closes"""
    k = len(v.last_closes)
    check_same(v.get_value(k + 2), None, "not enough periods")
    check_same(v.get_value(k + 1), round((sum(v.last_closes) + v.frame.last_tick.value) / (k + 1), 2), "all the prices")
    check_same(v.get_value(1), round(v.frame.last_tick.value, 2), "one period")


def bounded_history(frame: Frame, ref: Str, n: Int, a: Num, b: Num, c: Num):
    """never more previous closes than needed"""
    assume(ref != "", n >= 1)
    v = _value(n, frame, ref, [a, b, c])
    check_same(len(v.last_closes), min(4, n - 1), "number of previous closes")


@options(bounded=True)
def previous_untouched(frame: Frame, p: Frame, old: SimpleMovingAverageValue, ref: Str, n: Int):
    """a new value leaves the one of the frame before as it is"""
    assume(ref != "", n >= 1, p is not frame)
    old.frame = p
    frame.previous_frame = p
    p.indicators = {ref: old}
    before = list(old.last_closes)
    v = SimpleMovingAverage(max_periods=n, ref=ref).build_value_from_frame(frame, True)
    check_same(list(old.last_closes), before, "prices of the value before")
    check(v.last_closes is not old.last_closes, "its own prices")


def history(a: Tick, b: Tick, c: Tick, d: Tick, e: Tick, x: Num, y: Num, z: Num, w: Num, u: Num):
    """every frame of a history has the averages of its time, and keeps them"""
    for t, v in [(a, x), (b, y), (c, z), (d, w), (e, u)]:
        stub(t, "value", v)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(SimpleMovingAverage(max_periods=3, ref="sma"))
    for t in [a, b, c, d]:
        fs.on_new_tick(t)
    fs.add_tick_to_last(e)
    got = [f["sma"] for f in fs.frames]
    check_same([v.get_value(1) for v in got], [round(x, 2), round(y, 2), round(z, 2), round(u, 2)], "last prices")
    check_same([v.get_value(2) for v in got], [None, round((x + y) / 2, 2), round((y + z) / 2, 2), round((z + u) / 2, 2)],
               "averages over two frames")
    check_same([v.get_value(3) for v in got], [None, None, round((x + y + z) / 3, 2), round((y + z + u) / 3, 2)],
               "averages over three frames")
    check_same([v.get_value(4) for v in got], [None, None, None, None], "never more than the maximum")


def reading_is_pure(v: SimpleMovingAverageValue, n: Int):
    assume(n >= 1)
    check_no_effect(lambda: v.get_value(n), "reading an average changes nothing")


def few_frames_kept(keep: Int, a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """prices of frames that are no more kept still count"""
    assume(keep >= 1)
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=keep)
    fs.add_indicator(SimpleMovingAverage(max_periods=3, ref="sma"))
    seen = []
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        fs.on_new_tick(t)
        seen.append(n)
        v = fs.current["sma"]
        check_same(v.get_value(1), round(n, 2), "last price")
        check_same(v.get_value(2), round(sum(seen[-2:]) / 2, 2) if len(seen) > 1 else None, "average of two")
        check_same(v.get_value(3), round(sum(seen[-3:]) / 3, 2) if len(seen) > 2 else None, "average of three")


@options(bounded=True)
def every_price_kept(frame: Frame, p: Frame, old: SimpleMovingAverageValue, ref: Str):
    """however many periods are asked, none of the prices needed is dropped"""
    k = len(old.last_closes)
    assume(ref != "", p is not frame)
    old.frame = p
    frame.previous_frame = p
    p.indicators = {ref: old}
    before = list(old.last_closes)
    v = SimpleMovingAverage(max_periods=k + 2, ref=ref).build_value_from_frame(frame, True)
    check_same(list(v.last_closes), before + [p.last_tick.value], "prices kept")
