from datetime import timedelta
from estrade.enums import Unit
from estrade.graph.frame_set import FrameSet
from estrade.mixins import TimeframeMixin


def _tf(unit, quantity):
    assume(catch(lambda: FrameSet(unit=unit, unit_quantity=quantity)) is None)
    return FrameSet(unit=unit, unit_quantity=quantity)


def _fields(dt):
    return (dt.hour, dt.minute, dt.second, dt.microsecond)


def seconds(quantity: Int, dt: Arrow):
    tf = _tf(Unit.SECOND, quantity)
    s = tf.get_frame_start(dt)
    check_same(s, dt - timedelta(seconds=dt.second % quantity, microseconds=dt.microsecond), "start")
    check_same(tf.get_frame_end(s), s + timedelta(seconds=quantity), "length")
    check(s <= dt and dt < tf.get_frame_end(s), "the period holds the time")


def minutes(quantity: Int, dt: Arrow):
    tf = _tf(Unit.MINUTE, quantity)
    s = tf.get_frame_start(dt)
    check_same(s, dt - timedelta(minutes=dt.minute % quantity, seconds=dt.second, microseconds=dt.microsecond), "start")
    check_same(tf.get_frame_end(s), s + timedelta(minutes=quantity), "length")
    check(s <= dt and dt < tf.get_frame_end(s), "the period holds the time")


def hours(quantity: Int, dt: Arrow):
    tf = _tf(Unit.HOUR, quantity)
    s = tf.get_frame_start(dt)
    check_same(s, dt - timedelta(hours=dt.hour % quantity, minutes=dt.minute, seconds=dt.second,
                                 microseconds=dt.microsecond), "start")
    check_same(tf.get_frame_end(s), s + timedelta(hours=quantity), "length")
    check(s <= dt and dt < tf.get_frame_end(s), "the period holds the time")


def days(quantity: Int, dt: Arrow):
    tf = _tf(Unit.DAY, quantity)
    s = tf.get_frame_start(dt)
    check_same(s, dt - timedelta(days=dt.weekday() % quantity, hours=dt.hour, minutes=dt.minute, seconds=dt.second,
                                 microseconds=dt.microsecond), "start")
    check_same(tf.get_frame_end(s), s + timedelta(days=quantity), "length")
    check(s <= dt and dt < tf.get_frame_end(s), "the period holds the time")


def weeks(quantity: Int, dt: Arrow):
    tf = _tf(Unit.WEEK, quantity)
    s = tf.get_frame_start(dt)
    check_same(quantity, 1, "weeks come one by one")
    check_same(s, dt - timedelta(days=dt.weekday(), hours=dt.hour, minutes=dt.minute, seconds=dt.second,
                                 microseconds=dt.microsecond), "start: monday at midnight")
    check_same(tf.get_frame_end(s), s + timedelta(days=7), "length")
    check(s <= dt and dt < tf.get_frame_end(s), "the period holds the time")


def months(quantity: Int, dt: Arrow):
    tf = _tf(Unit.MONTH, quantity)
    s = tf.get_frame_start(dt)
    check_same(s, dt.replace(month=dt.month - (dt.month - 1) % quantity, day=1, hour=0, minute=0, second=0, microsecond=0),
               "start: first day of the month, counted from january")
    check_same(tf.get_frame_end(s), s.shift(months=quantity), "length")


def years(quantity: Int, dt: Arrow):
    tf = _tf(Unit.YEAR, quantity)
    s = tf.get_frame_start(dt)
    check_same(s, dt.replace(year=dt.year - dt.year % quantity, month=1, day=1, hour=0, minute=0, second=0, microsecond=0),
               "start: first day of the year")
    check_same(tf.get_frame_end(s), s.shift(years=quantity), "length")


def ticks(quantity: Int, dt: Arrow):
    tf = _tf(Unit.TICK, quantity)
    check_same(tf.get_frame_start(dt), dt, "a frame of ticks starts on its tick")
    check_same(tf.get_frame_end(dt), dt, "no length")


def _valid(unit, n):
    if n < 1:
        return False
    if unit == Unit.SECOND or unit == Unit.MINUTE:
        return 60 % n == 0
    if unit == Unit.HOUR:
        return 12 % n == 0
    if unit == Unit.DAY:
        return 7 % n == 0
    if unit == Unit.WEEK:
        return 1 % n == 0
    if unit == Unit.MONTH:
        return 12 % n == 0
    return True


def quantities(unit: Unit, quantity: Int):
    """quantities are positive and divide what the unit is counted in"""
    want = None if _valid(unit, quantity) else "TimeFrameException"
    check_same(catch(lambda: TimeframeMixin(unit, quantity)), want, "refused quantities")
    check_same(catch(lambda: FrameSet(unit=unit, unit_quantity=quantity)), want, "refused quantities of a frame set")


def every_unit(unit: Unit, dt: Arrow):
    """each unit of the enumeration has its alignment and its length"""
    tf = TimeframeMixin(unit, 1)
    check_same(catch(lambda: tf.get_frame_end(tf.get_frame_start(dt))), None, "start and end are defined")
    check_same((tf.unit, tf.unit_quantity), (unit, 1), "unit and quantity")
