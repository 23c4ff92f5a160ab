from estrade.enums import CandleColor, CandleType, Unit
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.candle_set import CandleSet, HeikinAshiCandle


def _after(c, old, ref):
    """old is the candle of the frame before"""
    p = fresh("Frame", "p")
    assume(ref != "", p is not c.frame, old is not c)
    c.indicator.ref = ref
    c.frame.previous_frame = p
    p.indicators = {ref: old}


def _mean(c):
    return round((c.first_tick.value + c.high_tick.value + c.low_tick.value + c.last_tick.value) / 4, 2)


def first_candle(c: HeikinAshiCandle):
    c.frame.previous_frame = None
    check_same(c.open, round(c.first_tick.value, 2), "the first candle opens on its first tick")
    check_same(c.last, _mean(c), "last: mean of first, highest, lowest and last ticks")


def open_price(c: HeikinAshiCandle, old: HeikinAshiCandle, ref: Str, o: Num, l: Num):
    _after(c, old, ref)
    stub(old, "open", o)
    stub(old, "last", l)
    check_same(c.open, round((o + l) / 2, 2), "opens in the middle of the previous candle")


def open_price_chain(c: HeikinAshiCandle, old: HeikinAshiCandle, ref: Str):
    _after(c, old, ref)
    old.frame.previous_frame = None
    assume(old.frame is not c.frame)
    check_same(c.open, round((round(old.first_tick.value, 2) + _mean(old)) / 2, 2), "opens in the middle of the previous candle")


def extremes(c: HeikinAshiCandle, o: Num):
    stub(c, "open", o)
    l = _mean(c)
    check_same(c.last, l, "last")
    check_same(c.high, round(max(o, c.high_tick.value, l), 2), "highest")
    check_same(c.low, round(min(o, c.low_tick.value, l), 2), "lowest")


def close(c: HeikinAshiCandle):
    check_same(c.close, None if c.frame.next_frame is None else _mean(c), "close once the frame is over")


def color(c: HeikinAshiCandle, o: Num):
    stub(c, "open", o)
    l = _mean(c)
    check_same(c.color, CandleColor.GREEN if l > o else (CandleColor.RED if l < o else CandleColor.BLACK), "color")


def shape(c: HeikinAshiCandle, o: Num):
    stub(c, "open", o)
    l, hi, lo = c.last, c.high, c.low
    check_same(c.height, hi - lo, "height")
    check_same(c.body, round(abs(o - l), 2), "body")
    check_same(c.head, round(hi - max(o, l), 2), "head")
    check_same(c.tail, round(min(o, l) - lo, 2), "tail")


def candle_set(frame: Frame, ref: Str, opened: Bool):
    frame.previous_frame = None
    ind = CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref=ref)
    v = ind.build_value_from_frame(frame, opened)
    check(isinstance(v, HeikinAshiCandle), "heikin-ashi candle")
    check_same((v.open, v.last, v.color), (round(frame.last_tick.value, 2), round(frame.last_tick.value, 2),
                                          CandleColor.BLACK), "flat on the tick it is created with")


def by_type(kind: CandleType, frame: Frame, ref: Str):
    """every type of candle has its values"""
    v = CandleSet(candle_type=kind, ref=ref).build_value_from_frame(frame, True)
    check_same(isinstance(v, HeikinAshiCandle), kind == CandleType.HEIKIN_ASHI, "values of the type asked for")


def history(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """the candles of successive frames, each following the one before"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref="candles"))
    fs.on_new_tick(a)
    fs.on_new_tick(b)
    fs.on_new_tick(c)
    fs.add_tick_to_last(d)
    v = [f["candles"] for f in fs.frames]
    lasts = [round((x + x + x + x) / 4, 2), round((y + y + y + y) / 4, 2), round((z + max(z, w) + min(z, w) + w) / 4, 2)]
    opens = [round(x, 2)]
    opens.append(round((opens[0] + lasts[0]) / 2, 2))
    opens.append(round((opens[1] + lasts[1]) / 2, 2))
    check_same([q.last for q in v], lasts, "last prices")
    check_same([q.open for q in v], opens, "open prices")
    check_same([q.close for q in v], [lasts[0], lasts[1], None], "close prices")


def reading_is_pure(c: HeikinAshiCandle, o: Num):
    stub(c, "open", o)
    check_no_effect(lambda: (c.high, c.low, c.last, c.close, c.color), "reading prices changes nothing")
    check_no_effect(lambda: (c.height, c.body, c.head, c.tail), "reading the shape changes nothing")


def dropped(a: Tick, b: Tick, c: Tick, x: Num, y: Num, z: Num):
    """once the previous candle is dropped, there is none"""
    for t, n in [(a, x), (b, y), (c, z)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f", max_frames_in_memory=2)
    fs.add_indicator(CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref="candles"))
    fs.on_new_tick(a)
    check_same(fs.current["candles"].open, round(x, 2), "open price of the first candle")
    fs.on_new_tick(b)
    first = fs.frames[0]["candles"]
    check_same(fs.current["candles"].open, round((round(x, 2) + round((x + x + x + x) / 4, 2)) / 2, 2), "open price of the second")
    fs.on_new_tick(c)
    check_same(fs.frames[0]["candles"].open, round(y, 2), "open price of the oldest candle kept")
    check_same(fs.frames[1]["candles"].open, round((round(y, 2) + round((y + y + y + y) / 4, 2)) / 2, 2),
               "open price of the candle after it")
