from estrade.enums import Unit
from estrade.graph.frame_set import Frame, FrameSet


def _chained(fs):
    """what can be reached: the frames kept, oldest first, each knowing its neighbours"""
    n = len(fs.frames)
    for i, f in enumerate(fs.frames):
        check(f.previous_frame is (fs.frames[i - 1] if i > 0 else None), "previous frame")
        check(f.next_frame is (fs.frames[i + 1] if i < n - 1 else None), "next frame")


def _frame_set(keep):
    observe("BaseIndicator.build_value_from_frame", silent=True)
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    return FrameSet(unit=Unit.TICK, unit_quantity=1, max_frames_in_memory=keep)


def _feed(keep, ticks):
    fs = _frame_set(keep)
    for t in ticks:
        fs.on_new_tick(t)
    kept = ticks[-keep:]
    check_same([f.first_tick for f in fs.frames], kept, "the most recent frames are kept")
    _chained(fs)
    check(fs.current is fs.frames[-1], "the last one is the current one")


def keep_one(a: Tick, b: Tick, c: Tick):
    _feed(1, [a])
    _feed(1, [a, b])
    _feed(1, [a, b, c])


def keep_two(a: Tick, b: Tick, c: Tick, d: Tick):
    _feed(2, [a, b])
    _feed(2, [a, b, c])
    _feed(2, [a, b, c, d])


def keep_three(a: Tick, b: Tick, c: Tick, d: Tick, e: Tick):
    _feed(3, [a, b, c])
    _feed(3, [a, b, c, d])
    _feed(3, [a, b, c, d, e])


def any_bound(keep: Int, a: Tick, b: Tick, c: Tick, d: Tick):
    """whatever the number of frames kept"""
    assume(keep >= 1)
    fs = _frame_set(keep)
    ticks = [a, b, c, d]
    for i, t in enumerate(ticks):
        fs.on_new_tick(t)
        check_same(len(fs.frames), min(i + 1, keep), "never more frames than allowed, none dropped before")
        check(fs.frames[-1].first_tick is t, "the last one is the current one")


def default_bound():
    check_same(FrameSet(unit=Unit.DAY, unit_quantity=1).max_frames_in_memory, 100, "a hundred frames by default")


def gaps_are_bounded(frame: Frame, tick: Tick, older: Frame):
    """frames created for periods without ticks count as well"""
    observe("BaseIndicator.build_value_from_frame", silent=True)
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    fs = FrameSet(unit=Unit.MINUTE, unit_quantity=5, max_frames_in_memory=2)
    assume(frame.period_end is not None, older is not frame)
    fs.frames = [older, frame]
    older.next_frame = frame
    frame.previous_frame = older
    older.previous_frame = None
    frame.next_frame = None
    start = fs.get_frame_start(tick.datetime)
    e = frame.period_end
    assume(tick.datetime >= e, start > e, start <= fs.get_frame_end(e))
    fs.on_new_tick(tick)
    check_same([f.period_start for f in fs.frames], [e, start], "the two last frames")
    _chained(fs)


def current(fs: FrameSet):
    if len(fs.frames) > 0:
        check(fs.current is fs.frames[len(fs.frames) - 1], "the last frame")
    else:
        check_same(fs.current, None, "no frame yet")


@options(bounded_only=True)
def all_kept(fs: FrameSet, frame: Frame, tick: Tick, dt: Arrow):
    """however many frames there are"""
    frames = list(fs.frames)
    fs.indicators = {}
    fs.max_frames_in_memory = len(frames) + 1
    fs.create_new_frame(tick, dt, dt)
    check_same(len(fs.frames), len(frames) + 1, "none is dropped before the maximum")
    check(fs.frames[-1].first_tick is tick, "the new one is the last")
    fs.create_new_frame(tick, dt, dt)
    check_same(len(fs.frames), len(frames) + 1, "the oldest is dropped")
    check_same(fs.frames[:-2], frames[1:], "the others are kept")
