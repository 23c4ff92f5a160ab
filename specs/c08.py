import pytz
from estrade.epic import Epic
from estrade.enums import Unit
from estrade.strategy import BaseStrategy
from estrade.tick_provider import BaseTickProvider
from estrade.graph.frame_set import FrameSet


def frame_set_attached(epic: Epic, frame_set: FrameSet, other: Str):
    known = frame_set.ref in epic.frame_sets
    old = epic.frame_sets.get(other)
    was_known = other in epic.frame_sets
    e = catch(lambda: epic.add_frame_set(frame_set))
    check_same(e, "EpicException" if known else None, "a second frame set with the same reference is refused")
    if not known:
        check(epic.frame_sets[frame_set.ref] is frame_set, "registered under its reference")
        check(frame_set.epic is epic, "the frame set knows its epic")
        if other != frame_set.ref:
            check_same(other in epic.frame_sets, was_known, "other references are kept")
            check_same(epic.frame_sets.get(other), old, "other frame sets are kept")


def frame_set_refused(epic: Epic, frame_set: FrameSet):
    assume(frame_set.ref in epic.frame_sets)
    check_no_effect(lambda: epic.add_frame_set(frame_set), "a refused frame set leaves no trace")


def strategy_attached(epic: Epic, strategy: BaseStrategy, other: Str):
    known = strategy.ref in epic.strategies
    old = epic.strategies.get(other)
    was_known = other in epic.strategies
    other_epic = strategy.epics.get(other)
    e = catch(lambda: epic.add_strategy(strategy))
    check_same(e, "EpicException" if known else None, "a second strategy with the same reference is refused")
    if not known:
        check(epic.strategies[strategy.ref] is strategy, "registered under its reference")
        check(strategy.epics[epic.ref] is epic, "the strategy knows its epic")
        if other != strategy.ref:
            check_same(other in epic.strategies, was_known, "other references are kept")
            check_same(epic.strategies.get(other), old, "other strategies are kept")
        if other != epic.ref:
            check_same(strategy.epics.get(other), other_epic, "other epics of the strategy are kept")


def strategy_refused(epic: Epic, strategy: BaseStrategy):
    assume(strategy.ref in epic.strategies)
    check_no_effect(lambda: epic.add_strategy(strategy), "a refused strategy leaves no trace")


def other_sides_untouched(epic: Epic, frame_set: FrameSet, strategy: BaseStrategy):
    check_no_effect(lambda: catch(lambda: epic.add_frame_set(frame_set)), "adding a frame set changes nothing else",
                    ignore=((frame_set, "epic"), epic.frame_sets))
    check_no_effect(lambda: catch(lambda: epic.add_strategy(strategy)), "adding a strategy changes nothing else",
                    ignore=(strategy.epics, epic.strategies))


def timezone(tz: Str):
    e = catch(lambda: Epic(timezone=tz))
    valid = tz in pytz.all_timezones
    check_same(e, None if valid else "EpicException", "an unknown timezone is refused")
    if valid:
        check_same(Epic(timezone=tz).timezone, tz, "timezone")


def timezone_changed(epic: Epic, tz: Str):
    old = epic.timezone

    def change():
        epic.timezone = tz

    e = catch(change)
    check_same(e, None if tz in pytz.all_timezones else "EpicException", "an unknown timezone is refused")
    check_same(epic.timezone, tz if tz in pytz.all_timezones else old, "timezone kept")


def new_ones_are_empty(ref: Str):
    e = Epic(ref=ref)
    s = BaseStrategy(ref=ref)
    f = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref=ref)
    check_same((len(e.frame_sets), len(e.strategies), len(s.epics), len(s.trades)), (0, 0, 0, 0), "nothing registered")
    check_same((f.epic, len(f.frames), len(f.indicators)), (None, 0, 0), "a new frame set has no epic, frame, indicator")
    if ref:
        check_same((e.ref, s.ref, f.ref), (ref, ref, ref), "given reference")


def two_frame_sets(ref: Str, other: Str):
    assume(ref, other)
    e = Epic()
    a = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref=ref)
    b = FrameSet(unit=Unit.HOUR, unit_quantity=1, ref=other)
    e.add_frame_set(a)
    check_same(catch(lambda: e.add_frame_set(b)), "EpicException" if ref == other else None, "same reference twice")
    check_same(len(e.frame_sets), 1 if ref == other else 2, "number of frame sets")
    check(e.frame_sets[ref] is a, "first one kept")


def tick_provider(epics: List[Epic], ref: Str):
    p = BaseTickProvider(epics=epics)
    found = None
    for e in epics:
        if e.ref == ref:
            found = e
    check_same(p.get_epic_by_ref(ref), found, "epic found by its reference")
