from estrade.enums import Unit
from estrade.graph.frame_set import FrameSet
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue


def starts_on_last_tick(ref: Str, only: Bool, frame: Frame):
    ind = BaseIndicator(value_class=BaseIndicatorValue, ref=ref, market_open_only=only)
    v = BaseIndicatorValue(indicator=ind, frame=frame)
    t = frame.last_tick
    check(v.first_tick is t and v.last_tick is t and v.high_tick is t and v.low_tick is t,
          "starts with the last tick of its frame")
    check(v.indicator is ind and v.frame is frame, "indicator and frame")


def tick_added(v: BaseIndicatorValue, tick: Tick, opened: Bool):
    first, hi, lo, last = v.first_tick, v.high_tick, v.low_tick, v.last_tick
    assume(lo.value <= hi.value)
    v.on_new_tick(tick, opened)
    check(v.first_tick is first, "first tick kept")
    if opened or not v.indicator.market_open_only:
        check(v.last_tick is tick, "last tick")
        check(v.high_tick is (tick if tick.value > hi.value else hi), "highest tick, the earliest when equal")
        check(v.low_tick is (tick if tick.value < lo.value else lo), "lowest tick, the earliest when equal")
    else:
        check(v.last_tick is last and v.high_tick is hi and v.low_tick is lo, "out of market hours: left as it was")


def tick_changes_nothing_else(v: BaseIndicatorValue, tick: Tick, opened: Bool):
    check_no_effect(lambda: v.on_new_tick(tick, opened), "nothing else changes",
                    ignore=((v, "last_tick"), (v, "high_tick"), (v, "low_tick")))


def from_frame(v: BaseIndicatorValue):
    check_same(v.nb_ticks, v.frame.nb_ticks, "number of ticks of the frame")
    check_same(v.closed, v.frame.next_frame is not None, "closed with its frame")


def next_value(v: BaseIndicatorValue):
    f = v.frame.next_frame
    check_same(v.next, None if f is None else f.indicators.get(v.indicator.ref), "value of the next frame")


def previous_none(v: BaseIndicatorValue):
    v.frame.previous_frame = None
    check_same(v.previous, None, "no previous frame")


def previous_first(v: BaseIndicatorValue, frame: Frame, p: Frame, ref: Str, old: BaseIndicatorValue):
    """the value of the frame before"""
    assume(ref != "", p is not frame)
    v.indicator.ref = ref
    v.frame = frame
    frame.previous_frame = p
    p.indicators = {ref: old}
    check(v.previous is old, "value of the previous frame")


def previous_skips(v: BaseIndicatorValue, frame: Frame, p: Frame, q: Frame, r: Frame, ref: Str, other: Str,
                   x: BaseIndicatorValue, old: BaseIndicatorValue):
    """frames without value are skipped"""
    assume(ref != "", other != ref, p is not frame, q is not frame, q is not p, r is not q, r is not p, r is not frame)
    v.indicator.ref = ref
    v.frame = frame
    frame.previous_frame = p
    p.previous_frame = q
    q.previous_frame = r
    r.previous_frame = None
    p.indicators = {other: x, ref: None}
    q.indicators = {}
    r.indicators = {ref: old}
    check(v.previous is old, "the closest frame that has a value")
    r.indicators = {other: old}
    check_same(v.previous, None, "no frame has a value")


def previous_after_one_gap(v: BaseIndicatorValue, frame: Frame, p: Frame, q: Frame, r: Frame, ref: Str,
                           a: BaseIndicatorValue, b: BaseIndicatorValue):
    """exactly one frame without value: the value right before it"""
    assume(ref != "", p is not frame, q is not frame, q is not p, r is not q, r is not p, r is not frame, a is not b)
    v.indicator.ref = ref
    v.frame = frame
    frame.previous_frame = p
    p.previous_frame = q
    q.previous_frame = r
    r.previous_frame = None
    p.indicators = {}
    q.indicators = {ref: a}
    r.indicators = {ref: b}
    check(v.previous is a, "the value two frames before, not the one before it")


def previous_mixed(v: BaseIndicatorValue, f0: Frame, f1: Frame, f2: Frame, f3: Frame, f4: Frame, ref: Str,
                   a: BaseIndicatorValue, b: BaseIndicatorValue, c: BaseIndicatorValue, d: BaseIndicatorValue,
                   h1: Bool, h2: Bool, h3: Bool, h4: Bool):
    """any of the four previous frames may have a value"""
    assume(ref != "", f1 is not f0, f2 is not f0, f2 is not f1, f3 is not f0, f3 is not f1, f3 is not f2,
           f4 is not f0, f4 is not f1, f4 is not f2, f4 is not f3)
    v.indicator.ref = ref
    v.frame = f0
    f0.previous_frame = f1
    f1.previous_frame = f2
    f2.previous_frame = f3
    f3.previous_frame = f4
    f4.previous_frame = None
    f1.indicators = {ref: a if h1 else None}
    f2.indicators = {ref: b if h2 else None}
    f3.indicators = {ref: c if h3 else None}
    f4.indicators = {ref: d if h4 else None}
    check_same(v.previous, a if h1 else b if h2 else c if h3 else d if h4 else None, "the closest one")


def previous_changes_nothing(v: BaseIndicatorValue, frame: Frame, p: Frame):
    assume(p is not frame)
    v.frame = frame
    frame.previous_frame = p
    p.previous_frame = None
    check_no_effect(lambda: v.previous, "reading changes nothing")
    check_no_effect(lambda: v.next, "reading changes nothing")


def sequence(ref: Str, frame: Frame, a: Tick, b: Tick, c: Tick, o1: Bool, o2: Bool):
    """highest and lowest of the ticks received in market hours"""
    ind = BaseIndicator(value_class=BaseIndicatorValue, ref=ref, market_open_only=True)
    frame.last_tick = a
    v = BaseIndicatorValue(indicator=ind, frame=frame)
    v.on_new_tick(b, o1)
    v.on_new_tick(c, o2)
    vals = [a.value] + ([b.value] if o1 else []) + ([c.value] if o2 else [])
    check_same(v.high_tick.value, max(vals), "highest")
    check_same(v.low_tick.value, min(vals), "lowest")
    check(v.last_tick is (c if o2 else b if o1 else a), "last")


def history(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """the values of successive frames, each following its own ticks"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(BaseIndicator(value_class=BaseIndicatorValue, ref="one"))
    fs.add_indicator(BaseIndicator(value_class=BaseIndicatorValue, ref="two"))
    fs.on_new_tick(a)
    fs.on_new_tick(b)
    fs.add_tick_to_last(c)
    fs.on_new_tick(d)
    f = fs.frames
    for ref in ["one", "two"]:
        v = [f[0][ref], f[1][ref], f[2][ref]]
        check(v[0].previous is None and v[1].previous is v[0] and v[2].previous is v[1], "previous values")
        check(v[0].next is v[1] and v[1].next is v[2] and v[2].next is None, "next values")
        check(v[0].frame is f[0] and v[1].frame is f[1] and v[2].frame is f[2], "their frames")
        check_same([q.closed for q in v], [True, True, False], "closed with their frames")
        check_same([q.nb_ticks for q in v], [1, 2, 1], "numbers of ticks")
        check(v[0].first_tick is a and v[0].last_tick is a and v[1].first_tick is b and v[1].last_tick is c
              and v[2].first_tick is d and v[2].last_tick is d, "first and last ticks")
        check_same([q.high_tick.value for q in v], [x, max(y, z), w], "highest")
        check_same([q.low_tick.value for q in v], [x, min(y, z), w], "lowest")
        check(v[0].indicator.ref == ref and v[1].indicator is v[0].indicator, "their indicator")
    check(f[0]["one"] is not f[0]["two"], "one value per indicator")


def _quiet_values(fs, ref, ticks):
    """feed one frame per tick, reading the values of the frames kept after each"""
    for t in ticks:
        fs.on_new_tick(t)
        v = [f[ref] for f in fs.frames]
        for i, q in enumerate(v):
            check(q.previous is (v[i - 1] if i > 0 else None), "previous value among the frames kept")
            check(q.next is (v[i + 1] if i + 1 < len(v) else None), "next value among the frames kept")
            check_same(q.closed, i + 1 < len(v), "closed with its frame")


def dropped(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """a value whose previous frames are dropped has no previous value any more"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=2)
    fs.add_indicator(BaseIndicator(value_class=BaseIndicatorValue, ref="one"))
    _quiet_values(fs, "one", [a, b, c, d])


def growing(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """neighbours follow the chain of frames as it grows, whenever they were read before"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(BaseIndicator(value_class=BaseIndicatorValue, ref="one"))
    _quiet_values(fs, "one", [a, b, c, d])


def met_later(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num, o1: Bool, o2: Bool, o3: Bool, epic: Epic):
    """out of market hours there may be no value: the previous one is looked for again each time"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.epic = epic
    ind = BaseIndicator(value_class=BaseIndicatorValue, ref="one", market_open_only=True)
    fs.add_indicator(ind)
    opened = [o1, o2, o3]
    for t, o in zip([a, b, c], opened):
        epic.market_open = o
        fs.on_new_tick(t)
        for f in fs.frames:
            if f["one"] is not None:
                check(f["one"].frame is f, "value of its frame")
    have = [i for i in range(3) if opened[i]]
    for i in range(3):
        v = fs.frames[i]["one"]
        check_same(v is not None, opened[i], "a value in market hours only")
        if v is not None:
            earlier = [j for j in range(i) if opened[j]]
            check(v.previous is (fs.frames[earlier[-1]]["one"] if earlier else None), "closest earlier value")
