import pytz
from estrade.enums import CandleType, PivotType, TradeDirection, TransactionStatus, Unit
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
from estrade.graph.frame_set import Frame, FrameSet
from estrade.graph.indicators.candle_set import CandleSet, HeikinAshiCandle, JapaneseCandle
from estrade.graph.indicators.pivot import Pivot
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage
from estrade.reporting.csv import ReportingCSV
from estrade.epic import Epic
from estrade.strategy import BaseStrategy
from estrade.tick import Tick
from estrade.trade import Trade, TradeClose
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests


def references(ref: Str, epic: Epic, trade: Trade, dt: Arrow):
    """a given reference is kept, another one is made otherwise"""
    made = [
        Epic(ref=ref), BaseStrategy(ref=ref), BaseTradeProvider(ref=ref), TradeProviderBacktests(ref=ref),
        FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref=ref), CandleSet(ref=ref), Pivot(ref=ref), RSI(periods=2, ref=ref),
        SimpleMovingAverage(max_periods=2, ref=ref), BaseIndicator(value_class=BaseIndicatorValue, ref=ref),
        Trade(epic=epic, direction=TradeDirection.BUY, quantity=1, open_value=1, open_datetime=dt, ref=ref),
        TradeClose(trade=trade, close_value=1, quantity=1, datetime=dt, ref=ref),
    ]
    for o in made:
        if ref:
            check_same(o.ref, ref, "given reference")
        else:
            check(o.ref, "made reference")
            check(isinstance(o.ref, str), "a text")


def references_made(epic: Epic, trade: Trade, dt: Arrow):
    for o in [
        Epic(), BaseStrategy(), BaseTradeProvider(), TradeProviderBacktests(), FrameSet(unit=Unit.DAY, unit_quantity=1),
        CandleSet(), Pivot(), RSI(periods=2), SimpleMovingAverage(max_periods=2), BaseIndicator(value_class=BaseIndicatorValue),
        Trade(epic=epic, direction=TradeDirection.BUY, quantity=1, open_value=1, open_datetime=dt),
        TradeClose(trade=trade, close_value=1, quantity=1, datetime=dt),
    ]:
        check(o.ref, "made reference")
        check(isinstance(o.ref, str), "a text")


def own_references(epic: Epic, trade: Trade, frame: Frame, dt: Arrow, direction: TradeDirection):
    """a made reference is neither that of a related object nor that of another object made without one"""
    observe("BaseTradeProvider.open_trade", silent=True)
    observe("BaseTradeProvider.close_trade", silent=True)
    assume(trade.opened_quantities >= 9)
    k = TradeClose(trade=trade, close_value=1, quantity=1, datetime=dt)
    check_apart(k.ref, trade.ref, "close and its trade")
    for c in [trade.close(close_value=1, datetime=dt, quantity=1), trade.epic.close_trade(trade, quantity=1)]:
        check_apart(c.ref, trade.ref, "close and its trade")
        check_apart(c.ref, k.ref, "two closes")
    s = BaseStrategy()
    t = s.open_trade(epic, direction=direction, quantity=1)
    u = epic.open_trade(direction=direction, quantity=1)
    check_apart(t.ref, u.ref, "two trades")
    for o in [t, u]:
        check_apart(o.ref, epic.ref, "trade and its epic")
        check_apart(o.ref, s.ref, "trade and its strategy")
        check_apart(o.ref, trade.ref, "trade and an earlier one")
    e = Epic()
    check_apart(e.ref, e.trade_provider.ref, "epic and its provider")
    for a, b in [(e, Epic()), (s, BaseStrategy()), (BaseTradeProvider(), BaseTradeProvider()),
                 (FrameSet(unit=Unit.DAY, unit_quantity=1), FrameSet(unit=Unit.DAY, unit_quantity=1)),
                 (CandleSet(), CandleSet()), (Pivot(), Pivot()), (RSI(periods=2), RSI(periods=2)),
                 (SimpleMovingAverage(max_periods=2), SimpleMovingAverage(max_periods=2))]:
        check_apart(a.ref, b.ref, "two objects")


def reference_changed(strategy: BaseStrategy, epic: Epic, trade: Trade, ref: Str):
    assume(ref)
    for o in [strategy, epic, trade]:
        o.ref = ref
        check_same(o.ref, ref, "reference")


def epics(tz: Str, opening: Time, closing: Time, provider: BaseTradeProvider, ref: Str, days: List[Int], holidays: List[Date]):
    assume(tz in pytz.all_timezones)
    e = Epic(timezone=tz, open_time=opening, close_time=closing, trade_days=days, holidays=holidays, trade_provider=provider, ref=ref)
    check_same((e.timezone, e.open_time, e.close_time), (tz, opening, closing), "timezone and hours")
    check_same((list(e.trade_days), list(e.holidays)), (days, holidays), "calendar")
    check(e.trade_provider is provider, "trade provider")
    check_same(e.market_open, False, "closed before the first tick")
    default = Epic()
    check_same((default.timezone, list(default.trade_days), list(default.holidays)), ("UTC", [0, 1, 2, 3, 4], []), "defaults")
    check(isinstance(default.trade_provider, TradeProviderBacktests), "default provider")


def ticks(dt: Arrow, a: Num, b: Num, meta: Dict[str, Any]):
    assume(a <= b)
    t = Tick(datetime=dt, bid=a, ask=b, meta=meta)
    check_same((t.datetime, t.bid, t.ask), (dt, a, b), "date and quote")
    if meta:
        check_same(t.meta, meta, "meta")
    check_same(len(Tick(datetime=dt, bid=a, ask=b).meta), 0, "no meta")


def trades(epic: Epic, strategy: BaseStrategy, direction: TradeDirection, n: Int, a: Num, b: Num, dt: Arrow,
           status: TransactionStatus, ref: Str, meta: Dict[str, Any]):
    t = Trade(direction=direction, quantity=n, open_value=a, open_datetime=dt, epic=epic, current_close_value=b,
              status=status, strategy=strategy, ref=ref, meta=meta)
    check_same((t.direction, t.open_quantity, t.open_value, t.current_close_value, t.datetime, t.status), (direction, n, a, b, dt, status), "settings")
    check(t.epic is epic and t.strategy is strategy, "epic and strategy")
    check_same(list(t.closes), [], "no close")
    if meta:
        check_same(t.meta, meta, "meta")
    d = Trade(direction=direction, quantity=n, open_value=a, open_datetime=dt, epic=epic)
    check_same((d.current_close_value, d.status, d.strategy, len(d.meta)), (a, TransactionStatus.CREATED, None, 0), "defaults")


def closes(trade: Trade, n: Int, a: Num, dt: Arrow, status: TransactionStatus, meta: Dict[str, Any]):
    k = TradeClose(trade=trade, close_value=a, quantity=n, datetime=dt, status=status, meta=meta)
    check(k.trade is trade, "trade")
    check_same((k.close_value, k.quantity, k.datetime, k.status), (a, n, dt, status), "settings")
    if meta:
        check_same(k.meta, meta, "meta")
    d = TradeClose(trade=trade, close_value=a, quantity=n, datetime=dt)
    check_same((d.status, len(d.meta)), (TransactionStatus.CREATED, 0), "defaults")


def opened(epic: Epic, strategy: BaseStrategy, direction: TradeDirection, n: Int, ref: Str, status: TransactionStatus, meta: Dict[str, Any]):
    """settings go through the opening shortcuts"""
    observe("BaseTradeProvider.open_trade", silent=True)
    assume(ref)
    for t in [
        strategy.open_trade(epic, direction=direction, quantity=n, ref=ref, status=status, meta=meta),
        epic.open_trade(strategy=strategy, direction=direction, quantity=n, ref=ref, status=status, meta=meta),
        Trade.open_from_epic(epic, strategy=strategy, direction=direction, quantity=n, ref=ref, status=status, meta=meta),
        Trade.open_from_tick(epic.last_tick, epic, strategy=strategy, direction=direction, quantity=n, ref=ref, status=status, meta=meta),
    ]:
        check(t.epic is epic and t.strategy is strategy, "epic and strategy")
        check_same((t.direction, t.open_quantity, t.ref, t.status), (direction, n, ref, status), "settings")
        check_same(t.datetime, epic.last_tick.datetime, "date of the tick")
        if meta:
            check_same(t.meta, meta, "meta")


def closed(trade: Trade, n: Int, ref: Str, status: TransactionStatus, meta: Dict[str, Any], a: Num, dt: Arrow):
    """settings go through the closing shortcuts"""
    observe("BaseTradeProvider.close_trade", silent=True)
    assume(ref, n > 0, trade.opened_quantities >= 5 * n)
    for k in [
        trade.close(close_value=a, datetime=dt, quantity=n, ref=ref, status=status, meta=meta),
        trade.close_from_tick(trade.epic.last_tick, quantity=n, ref=ref, status=status, meta=meta),
        trade.close_from_epic(quantity=n, ref=ref, status=status, meta=meta),
        trade.epic.close_trade(trade, quantity=n, ref=ref, status=status, meta=meta),
    ]:
        check(k.trade is trade, "trade")
        check_same((k.quantity, k.ref, k.status), (n, ref, status), "settings")
        if meta:
            check_same(k.meta, meta, "meta")


def closed_by_strategy(strategy: BaseStrategy, trade: Trade, n: Int, ref: Str, status: TransactionStatus, meta: Dict[str, Any]):
    observe("BaseTradeProvider.close_trade", silent=True)
    assume(ref, n > 0, trade.opened_quantities >= n)
    k = strategy.close_trade(trade, quantity=n, ref=ref, status=status, meta=meta)
    check(k.trade is trade, "trade")
    check_same((k.quantity, k.ref, k.status), (n, ref, status), "settings")
    if meta:
        check_same(k.meta, meta, "meta")


def frame_sets(fs_unit: Unit, n: Int, ref: Str, most: Int):
    assume(n > 0)
    made = []
    e = catch(lambda: made.append(FrameSet(unit=fs_unit, unit_quantity=n, ref=ref, max_frames_in_memory=most)))
    if e is None:
        fs = made[0]
        check_same((fs.unit, fs.unit_quantity, fs.max_frames_in_memory, fs.epic), (fs_unit, n, most, None), "settings")
        check_same((list(fs.frames), list(fs.indicators), fs.current), ([], [], None), "nothing yet")
    check_same(FrameSet(unit=Unit.TICK, unit_quantity=n).max_frames_in_memory, 100, "default")


def frames(fs: FrameSet, tick: Tick, previous: Frame, start: Arrow, end: Arrow):
    fs.indicators = {}
    f = Frame(parent_frameset=fs, first_tick=tick, period_start=start, period_end=end, previous_frame=previous)
    check(f.parent_frameset is fs and f.previous_frame is previous, "frame set and previous frame")
    check_same((f.period_start, f.period_end, f.next_frame, f.nb_ticks, f.closed), (start, end, None, 1, False), "settings")
    g = Frame(parent_frameset=fs, first_tick=tick, period_start=start)
    check_same((g.period_end, g.previous_frame), (None, None), "defaults")


def indicators(ref: Str, only: Bool, n: Int):
    for x in [CandleSet(ref=ref, market_open_only=only), CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref=ref, market_open_only=only),
              Pivot(ref=ref, market_open_only=only), Pivot(pivot_type=PivotType.OLHC, ref=ref, market_open_only=only),
              RSI(periods=n, ref=ref, market_open_only=only), SimpleMovingAverage(max_periods=n, ref=ref, market_open_only=only),
              BaseIndicator(value_class=BaseIndicatorValue, ref=ref, market_open_only=only)]:
        check_same((x.market_open_only, x.frame_set, x.epic), (only, None, None), "settings")
    for x in [CandleSet(), Pivot(), RSI(periods=n), SimpleMovingAverage(max_periods=n), BaseIndicator(value_class=BaseIndicatorValue)]:
        check_same(x.market_open_only, False, "not limited by default")
    check_same((RSI(periods=n).periods, SimpleMovingAverage(max_periods=n).max_periods), (n, n), "periods")


def candle_kinds(frame: Frame):
    check(isinstance(CandleSet().build_value_from_frame(frame, True), JapaneseCandle), "classic by default")
    check(isinstance(CandleSet(candle_type=CandleType.CLASSIC).build_value_from_frame(frame, True), JapaneseCandle), "classic")
    check(isinstance(CandleSet(candle_type=CandleType.HEIKIN_ASHI).build_value_from_frame(frame, True), HeikinAshiCandle), "Heikin-Ashi")


def providers(ref: Str):
    for p in [BaseTradeProvider(ref=ref), TradeProviderBacktests(ref=ref)]:
        check_same((list(p.trades), list(p.threads), list(p.opened_trades), p.is_alive), ([], [], [], False), "empty")


def strategies(ref: Str):
    s = BaseStrategy(ref=ref)
    check_same((len(s.epics), s.paused_until, s.stopped, list(s.trades)), (0, None, False, []), "empty")


def reports(folder: Str):
    check_same(ReportingCSV(target_folder=folder).target_folder, folder, "folder")
    check_same(ReportingCSV().target_folder, "reports", "default folder")
