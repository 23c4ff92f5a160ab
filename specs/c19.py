from estrade.graph.frame_set import Frame


def new_frame(fs: FrameSet, tick: Tick, start: Arrow, end: Arrow, previous: Frame):
    observe("BaseIndicator.build_value_from_frame", silent=True)
    f = Frame(parent_frameset=fs, first_tick=tick, period_start=start, period_end=end, previous_frame=previous)
    check(f.first_tick is tick and f.last_tick is tick and f.high_tick is tick and f.low_tick is tick,
          "the first tick is also the last, the highest and the lowest")
    check_same(f.nb_ticks, 1, "one tick")
    check_same((f.period_start, f.period_end), (start, end), "period")
    check(f.previous_frame is previous and f.parent_frameset is fs, "previous frame and frame set")
    check_same((f.next_frame, f.closed), (None, False), "no next frame: not closed")


def tick_added(frame: Frame, tick: Tick):
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    observe("BaseIndicator.build_value_from_frame", silent=True)
    n, first, hi, lo = frame.nb_ticks, frame.first_tick, frame.high_tick, frame.low_tick
    assume(lo.value <= hi.value)
    frame.on_new_tick(tick)
    check_same(frame.nb_ticks, n + 1, "one tick more")
    check(frame.first_tick is first, "first tick kept")
    check(frame.last_tick is tick, "last tick")
    check(frame.high_tick is (tick if tick.value > hi.value else hi), "highest tick, the earliest when equal")
    check(frame.low_tick is (tick if tick.value < lo.value else lo), "lowest tick, the earliest when equal")


def tick_added_keeps_period(frame: Frame, tick: Tick):
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    observe("BaseIndicator.build_value_from_frame", silent=True)
    check_no_effect(lambda: frame.on_new_tick(tick), "a tick changes nothing else",
                    ignore=((frame, "nb_ticks"), (frame, "last_tick"), (frame, "high_tick"), (frame, "low_tick"),
                            frame.indicators))


def four_ticks(fs: FrameSet, a: Tick, b: Tick, c: Tick, d: Tick, start: Arrow):
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    observe("BaseIndicator.build_value_from_frame", silent=True)
    f = Frame(parent_frameset=fs, first_tick=a, period_start=start)
    f.on_new_tick(b)
    f.on_new_tick(c)
    f.on_new_tick(d)
    check_same(f.nb_ticks, 4, "four ticks")
    check(f.first_tick is a and f.last_tick is d, "first and last")
    check_same(f.high_tick.value, max(a.value, b.value, c.value, d.value), "highest")
    check_same(f.low_tick.value, min(a.value, b.value, c.value, d.value), "lowest")


def closed(frame: Frame):
    check_same(frame.closed, frame.next_frame is not None, "closed once it has a next frame")
