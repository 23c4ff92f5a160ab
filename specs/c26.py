from estrade.enums import CandleColor, CandleType, Unit
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.candle_set import BaseCandle, CandleSet, JapaneseCandle


def prices(c: JapaneseCandle):
    check_same(c.open, round(c.first_tick.value, 2), "opens on the first tick")
    check_same(c.high, round(c.high_tick.value, 2), "highest")
    check_same(c.low, round(c.low_tick.value, 2), "lowest")
    check_same(c.last, round(c.last_tick.value, 2), "last")


def close(c: JapaneseCandle):
    check_same(c.close, None if c.frame.next_frame is None else round(c.last_tick.value, 2), "close once the frame is over")


def color(c: JapaneseCandle):
    o, l = round(c.first_tick.value, 2), round(c.last_tick.value, 2)
    check_same(c.color, CandleColor.GREEN if l > o else (CandleColor.RED if l < o else CandleColor.BLACK), "color")


def shape(c: JapaneseCandle):
    o, l, hi, lo = c.open, c.last, c.high, c.low
    check_same(c.height, hi - lo, "height")
    check_same(c.body, round(abs(o - l), 2), "body")
    check_same(c.head, round(hi - max(o, l), 2), "head")
    check_same(c.tail, round(min(o, l) - lo, 2), "tail")


def shape_bounds(c: JapaneseCandle):
    """when the highest and lowest ticks are what they should be, no part of the candle is negative"""
    hi, lo = c.high_tick.value, c.low_tick.value
    assume(hi >= c.first_tick.value, hi >= c.last_tick.value, lo <= c.first_tick.value, lo <= c.last_tick.value)
    check(c.height >= 0 and c.body >= 0 and c.head >= 0 and c.tail >= 0, "no negative part")


def empty_prices(c: BaseCandle, h: Num, l: Num, e: Num):
    """a candle that has no open or no last price has no shape"""
    stub(c, "open", None)
    stub(c, "last", e)
    stub(c, "high", h)
    stub(c, "low", l)
    check_same((c.color, c.body, c.head, c.tail), (None, None, None, None), "no open price")


def no_last_price(c: BaseCandle, o: Num, h: Num, l: Num):
    stub(c, "open", o)
    stub(c, "high", h)
    stub(c, "low", l)
    stub(c, "last", None)
    check_same((c.color, c.body, c.head, c.tail), (None, None, None, None), "no last price")


def candle_set(frame: Frame, ref: Str, opened: Bool):
    """the default candles are the japanese ones"""
    for ind in [CandleSet(ref=ref), CandleSet(candle_type=CandleType.CLASSIC, ref=ref)]:
        v = ind.build_value_from_frame(frame, opened)
        check(isinstance(v, JapaneseCandle), "japanese candle")
        check_same(v.open, round(frame.last_tick.value, 2), "opens on the tick it is created with")


def history(a: Tick, b: Tick, c: Tick, d: Tick, x: Num, y: Num, z: Num, w: Num):
    """the candles of successive frames"""
    for t, n in [(a, x), (b, y), (c, z), (d, w)]:
        stub(t, "value", n)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=1, ref="f")
    fs.add_indicator(CandleSet(ref="candles"))
    fs.on_new_tick(a)
    fs.add_tick_to_last(b)
    fs.add_tick_to_last(c)
    fs.on_new_tick(d)
    v = fs.frames[0]["candles"]
    last = fs.frames[1]["candles"]
    x, y, z, w = round(x, 2), round(y, 2), round(z, 2), round(w, 2)
    check_same((v.open, v.last, v.close), (x, z, z), "open, last and close prices of a candle that is over")
    check_same((v.high, v.low), (max(x, y, z), min(x, y, z)), "extremes")
    check_same(v.color, CandleColor.GREEN if z > x else CandleColor.RED if z < x else CandleColor.BLACK, "color")
    check_same((last.open, last.high, last.low, last.last, last.close, last.color), (w, w, w, w, None, CandleColor.BLACK),
               "the current candle")


def reading_is_pure(c: JapaneseCandle):
    check_no_effect(lambda: (c.open, c.high, c.low, c.last, c.close, c.color), "reading prices changes nothing")
    check_no_effect(lambda: (c.height, c.body, c.head, c.tail), "reading the shape changes nothing")
