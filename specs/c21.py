from estrade.enums import Unit
from estrade.graph.frame_set import Frame, FrameSet


def _frame_set(quantity, epic):
    observe("BaseIndicator.build_value_from_frame", silent=True)
    observe("BaseIndicatorValue.on_new_tick", silent=True)
    assume(quantity >= 1)
    fs = FrameSet(unit=Unit.TICK, unit_quantity=quantity)
    fs.epic = epic
    return fs


def first_tick(quantity: Int, epic: Epic, tick: Tick):
    fs = _frame_set(quantity, epic)
    fs.on_new_tick(tick)
    check_same(len(fs.frames), 1, "one frame")
    f = fs.frames[0]
    check_same((f.period_start, f.period_end, f.nb_ticks), (tick.datetime, None, 1), "starts on the tick, without end")
    check(f.first_tick is tick, "first tick")


def frame_not_full(quantity: Int, epic: Epic, frame: Frame, tick: Tick):
    fs = _frame_set(quantity, epic)
    fs.frames.append(frame)
    assume(frame.nb_ticks < quantity, tick.datetime.date() == frame.last_tick.datetime.date(),
           tick.datetime.date() <= epic.last_tick.datetime.date())
    observe("Frame.on_new_tick")

    def model():
        frame.on_new_tick(tick)

    see = lambda: list(fs.frames)
    check_same(outcome(lambda: fs.on_new_tick(tick), see=see), outcome(model, see=see), "added to the current frame")


def _new_frame(fs, frame, tick):
    n, start = frame.nb_ticks, frame.period_start
    fs.on_new_tick(tick)
    check_same(len(fs.frames), 2, "one frame more")
    f = fs.frames[1]
    check_same((f.period_start, f.period_end, f.nb_ticks), (tick.datetime, None, 1), "starts on the tick, without end")
    check(f.first_tick is tick and f.last_tick is tick, "first tick")
    check(fs.frames[0] is frame and frame.next_frame is f and f.previous_frame is frame, "linked")
    check_same((frame.nb_ticks, frame.period_start), (n, start), "the previous frame is left as it was")


def frame_full(quantity: Int, epic: Epic, frame: Frame, tick: Tick):
    fs = _frame_set(quantity, epic)
    fs.frames.append(frame)
    assume(frame.nb_ticks >= quantity)
    _new_frame(fs, frame, tick)


def new_day(quantity: Int, epic: Epic, frame: Frame, tick: Tick):
    """the first tick of a day starts a new frame, whether or not the epic already knows the tick"""
    fs = _frame_set(quantity, epic)
    fs.frames.append(frame)
    assume(tick.datetime.date() > frame.last_tick.datetime.date())
    _new_frame(fs, frame, tick)


def new_day_through_epic(quantity: Int, epic: Epic, tick: Tick, frame: Frame):
    """the same tick, sent to the epic the frame set is registered on"""
    fs = _frame_set(quantity, None)
    fs.frames.append(frame)
    epic.frame_sets = {}
    epic.strategies = {}
    epic.trade_provider.trades = []
    epic.add_frame_set(fs)
    local = tick.datetime.to(epic.timezone)
    assume(tick.datetime >= epic.last_tick.datetime, local.date() > frame.last_tick.datetime.date())
    epic.on_new_tick(tick)
    check_same(len(fs.frames), 2, "one frame more")
    check_same((fs.frames[1].period_start, fs.frames[1].nb_ticks), (local, 1), "starts on the tick, in the timezone of the epic")
    check(frame.next_frame is fs.frames[1], "linked")


def sequence(quantity: Int, epic: Epic, a: Tick, b: Tick, c: Tick):
    """three ticks of one day, two ticks per frame"""
    fs = _frame_set(2, epic)
    d = a.datetime.date()
    assume(b.datetime.date() == d, c.datetime.date() == d, epic.last_tick.datetime.date() == d)
    fs.on_new_tick(a)
    fs.on_new_tick(b)
    fs.on_new_tick(c)
    check_same([(f.first_tick, f.last_tick, f.nb_ticks) for f in fs.frames], [(a, b, 2), (c, c, 1)], "two ticks per frame")
