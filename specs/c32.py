from estrade.epic import Epic
from estrade.graph.frame_set import Frame, FrameSet


def frame_by_index(fs: FrameSet, n: Int):
    """index 0 is the oldest frame kept, -1 the current one, nothing out of range"""
    k = len(fs.frames)
    f = fs[n]
    if n >= 0 and n < k:
        check(f is fs.frames[n], "from the oldest")
    elif n < 0 and n >= -k:
        check(f is fs.frames[k + n], "from the newest")
    else:
        check_same(f, None, "out of range")


def value_by_reference(frame: Frame, ref: Str):
    check_same(frame[ref], frame.indicators.get(ref), "value of the indicator in the frame, if any")


def frame_of_epic(epic: Epic, fs: FrameSet, ref: Str, n: Int):
    """0 is the current frame, 1 the one before"""
    assume(n >= 0)
    epic.frame_sets[ref] = fs
    k = len(fs.frames)
    f = epic.get_frame(ref, n)
    if n < k:
        check(f is fs.frames[k - 1 - n], "counted backwards from the current frame")
    else:
        check_same(f, None, "out of range")


def current_frame_of_epic(epic: Epic, fs: FrameSet, ref: Str):
    epic.frame_sets[ref] = fs
    check_same(epic.get_frame(ref), fs.current, "the current frame by default")


def indicator_value_of_epic(epic: Epic, fs: FrameSet, ref: Str, ind: Str, n: Int):
    assume(n >= 0)
    epic.frame_sets[ref] = fs
    k = len(fs.frames)
    got = epic.get_indicator_value(ref, ind, n)
    if n < k:
        check_same(got, fs.frames[k - 1 - n].indicators.get(ind), "value of the indicator in the frame")
    else:
        check_same(got, None, "no frame")
    check_same(epic.get_indicator_value(ref, ind), None if k == 0 else fs.current[ind], "the current frame by default")


def no_effect(epic: Epic, fs: FrameSet, frame: Frame, ref: Str, ind: Str, n: Int):
    check_no_effect(lambda: fs[n], "reading changes nothing")
    check_no_effect(lambda: frame[ref], "reading changes nothing")
    check_no_effect(lambda: catch(lambda: epic.get_indicator_value(ref, ind, n)), "reading changes nothing")


def unknown_frame_set(epic: Epic, a: FrameSet, b: FrameSet, ref: Str, ind: Str, n: Int):
    """frames are never those of another frame set"""
    assume(a is not b, n >= 0, ref != "a", ref != "b")
    epic.frame_sets = {"a": a, "b": b}
    for ask in (lambda: epic.get_frame(ref, n), lambda: epic.get_frame(ref), lambda: epic.get_indicator_value(ref, ind, n)):
        try:
            got = ask()
        except Exception:
            got = None
        check_same(got, None, "nothing under an unknown reference")
    check_same(list(epic.frame_sets.keys()), ["a", "b"], "nothing registered")
