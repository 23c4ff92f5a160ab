from estrade.enums import Unit
from estrade.graph.frame_set import Frame, FrameSet


def _frame_set(unit, quantity):
    """a timed frame set that already has a frame and keeps plenty of them"""
    observe("BaseIndicator.build_value_from_frame", silent=True)
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    assume(unit != Unit.TICK, catch(lambda: FrameSet(unit=unit, unit_quantity=quantity)) is None)
    return FrameSet(unit=unit, unit_quantity=quantity)


def _period(f):
    return (f.period_start, f.period_end, f.first_tick, f.last_tick, f.nb_ticks)


def first_tick(unit: Unit, quantity: Int, tick: Tick):
    fs = _frame_set(unit, quantity)
    fs.on_new_tick(tick)
    check_same(len(fs.frames), 1, "one frame")
    start = fs.get_frame_start(tick.datetime)
    f = fs.frames[0]
    check_same((f.period_start, f.period_end), (start, fs.get_frame_end(start)), "aligned period")
    check(f.first_tick is tick, "first tick")
    check(fs.current is f, "current frame")


def same_period(unit: Unit, quantity: Int, frame: Frame, tick: Tick):
    fs = _frame_set(unit, quantity)
    fs.frames.append(frame)
    assume(frame.period_end is not None)
    assume(tick.datetime < frame.period_end)
    observe("Frame.on_new_tick")
    see = lambda: list(fs.frames)

    def model():
        frame.on_new_tick(tick)

    check_same(outcome(lambda: fs.on_new_tick(tick), see=see), outcome(model, see=see),
               "a tick before the end of the period is added to the current frame")


def next_period(unit: Unit, quantity: Int, frame: Frame, tick: Tick):
    """the tick falls in the period that follows"""
    fs = _frame_set(unit, quantity)
    fs.frames.append(frame)
    assume(frame.period_end is not None)
    start = fs.get_frame_start(tick.datetime)
    assume(tick.datetime >= frame.period_end, start <= frame.period_end)
    n = frame.nb_ticks
    fs.on_new_tick(tick)
    check_same(len(fs.frames), 2, "one frame more")
    check_same(_period(fs.frames[1]), (start, fs.get_frame_end(start), tick, tick, 1), "aligned period, starting on the tick")
    check(fs.frames[0] is frame and frame.next_frame is fs.frames[1] and fs.frames[1].previous_frame is frame, "linked")
    check_same(frame.nb_ticks, n, "the tick is not counted in the frame that ends")


def one_gap(unit: Unit, quantity: Int, frame: Frame, tick: Tick):
    """a period without tick: a frame holding the last known tick"""
    fs = _frame_set(unit, quantity)
    fs.frames.append(frame)
    assume(frame.period_end is not None)
    start = fs.get_frame_start(tick.datetime)
    e = frame.period_end
    e1 = fs.get_frame_end(e)
    last = frame.last_tick
    assume(tick.datetime >= e, start > e, start <= e1)
    fs.on_new_tick(tick)
    check_same(len(fs.frames), 3, "two frames more")
    check_same(_period(fs.frames[1]), (e, e1, last, last, 1), "the frame of the period without tick")
    check_same(_period(fs.frames[2]), (start, fs.get_frame_end(start), tick, tick, 1), "the frame of the tick")
    check(fs.frames[0] is frame and frame.next_frame is fs.frames[1] and fs.frames[1].next_frame is fs.frames[2], "linked")
    check(fs.frames[2].previous_frame is fs.frames[1] and fs.frames[1].previous_frame is frame, "linked backwards")


def _two_gaps(unit, quantity, frame, tick):
    fs = _frame_set(unit, quantity)
    fs.frames.append(frame)
    assume(frame.period_end is not None)
    start = fs.get_frame_start(tick.datetime)
    e = frame.period_end
    e1 = fs.get_frame_end(e)
    e2 = fs.get_frame_end(e1)
    last = frame.last_tick
    assume(tick.datetime >= e, start > e, start > e1, start <= e2)
    fs.on_new_tick(tick)
    check_same([_period(f) for f in fs.frames[1:]],
               [(e, e1, last, last, 1), (e1, e2, last, last, 1), (start, fs.get_frame_end(start), tick, tick, 1)],
               "contiguous frames for the periods without ticks")
    check_same([f.next_frame for f in fs.frames[:3]], list(fs.frames[1:]), "linked")


def two_gaps_seconds(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.SECOND, quantity, frame, tick)


def two_gaps_minutes(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.MINUTE, quantity, frame, tick)


def two_gaps_hours(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.HOUR, quantity, frame, tick)


def two_gaps_days(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.DAY, quantity, frame, tick)


def two_gaps_weeks(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.WEEK, quantity, frame, tick)


def two_gaps_months(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.MONTH, quantity, frame, tick)


def two_gaps_years(quantity: Int, frame: Frame, tick: Tick):
    _two_gaps(Unit.YEAR, quantity, frame, tick)


def _few_frames(most, frame, tick, before):
    """a gap when the most frames are kept: the newest ones are kept, the skipped period included"""
    observe("BaseIndicator.build_value_from_frame", silent=True)
    fs = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref="f", max_frames_in_memory=most)
    for f in before:
        fs.frames.append(f)
    assume(frame.period_end is not None)
    start = fs.get_frame_start(tick.datetime)
    e = frame.period_end
    e1 = fs.get_frame_end(e)
    e2 = fs.get_frame_end(e1)
    last = frame.last_tick
    assume(tick.datetime >= e, start > e, start > e1, start <= e2)
    fs.on_new_tick(tick)
    want = [_period(f) for f in before] + [(e, e1, last, last, 1), (e1, e2, last, last, 1), (start, fs.get_frame_end(start), tick, tick, 1)]
    check_same([_period(f) for f in fs.frames], want[-most:], "the newest frames")


def few_frames_1(frame: Frame, tick: Tick):
    _few_frames(1, frame, tick, [frame])


def few_frames_2(frame: Frame, tick: Tick):
    _few_frames(2, frame, tick, [frame])


def few_frames_3(a: Frame, b: Frame, frame: Frame, tick: Tick):
    assume(a is not b, a is not frame, b is not frame)
    _few_frames(3, frame, tick, [a, b, frame])


@options(bounded_only=True)
def long_gap(frame: Frame, tick: Tick, skipped: List[Int]):
    """however many periods are skipped, each gets its frame"""
    fs = _frame_set(Unit.HOUR, 1)
    fs.max_frames_in_memory = len(skipped) + 9
    fs.frames.append(frame)
    assume(frame.period_end is not None)
    start = fs.get_frame_start(tick.datetime)
    assume(start == frame.period_end.shift(hours=len(skipped)))
    fs.on_new_tick(tick)
    check_same(len(fs.frames), len(skipped) + 2, "a frame per period")
    check_same(fs.frames[-1].period_start, start, "the last one holds the tick")
    check(fs.frames[-1].first_tick is tick, "and starts with it")
