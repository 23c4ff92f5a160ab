from estrade.enums import PivotType, Unit
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.pivot import Pivot, PivotTypeClassic, PivotTypeOLHC


def _after(v, ref):
    """h, l, c of the value of the frame before"""
    old = fresh("BaseIndicatorValue", "old")
    p = fresh("Frame", "p")
    assume(ref != "", p is not v.frame, old is not v)
    v.indicator.ref = ref
    v.frame.previous_frame = p
    p.indicators = {ref: old}
    return old.high_tick.value, old.low_tick.value, old.last_tick.value


def _levels(v):
    return (v.support1, v.support2, v.support3, v.resistance1, v.resistance2, v.resistance3)


def _expected(p, h, l):
    return (round(p * 2 - h, 2), round(p - (h - l), 2), round(l - (h - p) * 2, 2),
            round(p * 2 - l, 2), round(p + (h - l), 2), round(h + (p - l) * 2, 2))


def classic(v: PivotTypeClassic, ref: Str):
    h, l, c = _after(v, ref)
    p = round((h + l + c) / 3, 2)
    check_same(v.pivot, p, "mean of highest, lowest and last of the previous period")
    check_same(_levels(v), _expected(p, h, l), "supports and resistances")


def olhc(v: PivotTypeOLHC, ref: Str):
    h, l, c = _after(v, ref)
    p = round((h + l + c + v.first_tick.value) / 4, 2)
    check_same(v.pivot, p, "mean of highest, lowest and last of the previous period and of the opening of this one")
    check_same(_levels(v), _expected(p, h, l), "supports and resistances")


def no_previous(v: PivotTypeClassic, w: PivotTypeOLHC):
    v.frame.previous_frame = None
    w.frame.previous_frame = None
    check_same((v.pivot,) + _levels(v), (None, None, None, None, None, None, None), "nothing without previous period")
    check_same((w.pivot,) + _levels(w), (None, None, None, None, None, None, None), "nothing without previous period")


def by_type(kind: PivotType, frame: Frame, ref: Str, opened: Bool):
    frame.previous_frame = None
    v = Pivot(pivot_type=kind, ref=ref).build_value_from_frame(frame, opened)
    check_same(isinstance(v, PivotTypeOLHC), kind == PivotType.OLHC, "values of the type asked for")
    check(isinstance(v, PivotTypeClassic), "both have the same supports and resistances")
    check_same(v.pivot, None, "no previous period")


def default_type(frame: Frame, ref: Str, opened: Bool):
    v = Pivot(ref=ref).build_value_from_frame(frame, opened)
    check(not isinstance(v, PivotTypeOLHC), "classic by default")


def history(kind: PivotType, a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """the pivots of successive frames come from the ticks of the frame before"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(Pivot(pivot_type=kind, ref="pivots"))
    fs.on_new_tick(a)
    fs.add_tick_to_last(b)
    fs.add_tick_to_last(c)
    fs.on_new_tick(d)
    h, l = max(x, y, z), min(x, y, z)
    p = round((h + l + z) / 3, 2) if kind == PivotType.CLASSIC else round((h + l + z + w) / 4, 2)
    check_same(fs.frames[0]["pivots"].pivot, None, "no pivot in the first frame")
    v = fs.frames[1]["pivots"]
    check_same(v.pivot, p, "pivot")
    check_same(_levels(v), _expected(p, h, l), "supports and resistances")


def reading_is_pure(v: PivotTypeClassic, w: PivotTypeOLHC):
    check_no_effect(lambda: (v.pivot, _levels(v)), "reading levels changes nothing")
    check_no_effect(lambda: (w.pivot, _levels(w)), "reading levels changes nothing")


def dropped(kind: PivotType, a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    """levels come from the previous period kept: none for the oldest one"""
    for t, n in [(a, x), (b, y), (c, z)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=2)
    fs.add_indicator(Pivot(pivot_type=kind, ref="pivots"))
    fs.on_new_tick(a)
    check_same(fs.current["pivots"].pivot, None, "no pivot in the first frame")
    fs.on_new_tick(b)
    p = round((x + x + x) / 3, 2) if kind == PivotType.CLASSIC else round((x + x + x + y) / 4, 2)
    check_same(fs.current["pivots"].pivot, p, "pivot")
    check_same(_levels(fs.current["pivots"]), _expected(p, x, x), "levels")
    fs.on_new_tick(c)
    v = fs.frames[0]["pivots"]
    check_same((v.pivot, _levels(v)), (None, (None, None, None, None, None, None)), "no level for the oldest frame kept")
    q = round((y + y + y) / 3, 2) if kind == PivotType.CLASSIC else round((y + y + y + z) / 4, 2)
    check_same((fs.current["pivots"].pivot, _levels(fs.current["pivots"])), (q, _expected(q, y, y)), "levels of the current one")
