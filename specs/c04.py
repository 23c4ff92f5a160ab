import pytz
from estrade.enums import TradeDirection
from estrade.epic import Epic


def _observe(epic):
    state = lambda: (epic.last_tick, epic.last_tick.datetime, epic.market_open)
    observe("FrameSet.on_new_tick", see=state)
    observe("Trade.update", see=state)
    observe("BaseStrategy.on_every_tick", see=state)
    observe("BaseStrategy.on_market_open", see=state)
    observe("BaseStrategy.on_market_close", see=state)
    observe("BaseStrategy.on_every_tick_market_open", see=state)


def _model(epic, tick):
    tick.datetime = tick.datetime.to(epic.timezone)
    epic.last_tick = tick
    before = epic.market_open
    dt = tick.datetime
    epic.market_open = (epic.open_time <= dt.time() <= epic.close_time and dt.weekday() in epic.trade_days
                        and dt.date() not in epic.holidays)
    for fs in epic.frame_sets.values():
        fs.on_new_tick(tick)
    for trade in reversed(epic.trade_provider.trades):
        if trade.open_quantity != sum(c.quantity for c in trade.closes) and trade.epic is epic:
            if trade.direction == TradeDirection.BUY:
                trade.update(tick.bid)
            else:
                trade.update(tick.ask)
    for s in epic.strategies.values():
        if s.is_active(tick.datetime):
            if before and not epic.market_open:
                s.on_market_close(epic)
            if epic.market_open and not before:
                s.on_market_open(epic)
            if epic.market_open:
                s.on_every_tick_market_open(epic)
            s.on_every_tick(epic)


def propagation(epic: Epic, tick: Tick):
    assume(tick.datetime >= epic.last_tick.datetime)
    _observe(epic)
    see = lambda: (epic.last_tick, epic.last_tick.datetime, epic.market_open)
    got = outcome(lambda: epic.on_new_tick(tick), see=see)
    want = outcome(lambda: _model(epic, tick), see=see)
    check_same(got, want, "an accepted tick reaches everything registered, once, in order")


def frame_sets(epic: Epic, tick: Tick, a: FrameSet, b: FrameSet, c: FrameSet):
    """three frame sets get the tick in registration order"""
    for other in ("Trade.update", "BaseStrategy.on_every_tick", "BaseStrategy.on_market_open",
                  "BaseStrategy.on_market_close", "BaseStrategy.on_every_tick_market_open"):
        observe(other, silent=True)
    observe("FrameSet.on_new_tick")
    assume(tick.datetime >= epic.last_tick.datetime, a is not b, b is not c, a is not c)
    epic.frame_sets = {"z": a, "x": b, "y": c}
    epic.trade_provider.trades = []
    epic.strategies = {}
    got = outcome(lambda: epic.on_new_tick(tick))
    want = outcome(lambda: (a.on_new_tick(tick), b.on_new_tick(tick), c.on_new_tick(tick)))
    check_same(got[2], want[2], "each frame set, once, in order")


def opened_trades(epic: Epic, tick: Tick, a: Trade, b: Trade, c: Trade):
    """the opened trades of the epic are valued, whatever the other ones"""
    for other in ("FrameSet.on_new_tick", "BaseStrategy.on_every_tick", "BaseStrategy.on_market_open",
                  "BaseStrategy.on_market_close", "BaseStrategy.on_every_tick_market_open"):
        observe(other, silent=True)
    observe("Trade.update")
    assume(tick.datetime >= epic.last_tick.datetime, a is not b, b is not c, a is not c)
    epic.trade_provider.trades = [a, b, c]
    epic.frame_sets = {}
    epic.strategies = {}
    price = lambda t: tick.bid if t.direction == TradeDirection.BUY else tick.ask
    valued = [(t.epic is epic and not t.closed, price(t)) for t in (c, b, a)]

    def model():
        for t, (mine, p) in zip((c, b, a), valued):
            if mine:
                t.update(p)

    check_same(outcome(lambda: epic.on_new_tick(tick))[2], outcome(model)[2], "each opened trade of the epic, once")


def strategies(epic: Epic, tick: Tick, a: BaseStrategy, b: BaseStrategy):
    """two strategies, each called when it is active"""
    for other in ("FrameSet.on_new_tick", "Trade.update", "BaseStrategy.on_market_open",
                  "BaseStrategy.on_market_close", "BaseStrategy.on_every_tick_market_open"):
        observe(other, silent=True)
    observe("BaseStrategy.on_every_tick")
    assume(tick.datetime >= epic.last_tick.datetime, a is not b)
    epic.strategies = {"z": a, "x": b}
    local = tick.datetime.to(epic.timezone)
    active = [not s.stopped and (s.paused_until is None or local >= s.paused_until) for s in (a, b)]

    def model():
        if active[0]:
            a.on_every_tick(epic)
        if active[1]:
            b.on_every_tick(epic)

    check_same(outcome(lambda: epic.on_new_tick(tick))[2], outcome(model)[2], "each active strategy, once, in order")


def last_tick(epic: Epic, tick: Tick):
    """the tick becomes the last one, in the timezone of the epic, its prices and meta as they are"""
    for other in ("FrameSet.on_new_tick", "Trade.update", "BaseStrategy.on_every_tick", "BaseStrategy.on_market_open",
                  "BaseStrategy.on_market_close", "BaseStrategy.on_every_tick_market_open"):
        observe(other, silent=True)
    assume(tick.datetime >= epic.last_tick.datetime)
    local = tick.datetime.to(epic.timezone)
    before = (tick.bid, tick.ask, tick.spread, tick.value, tick.meta)
    epic.on_new_tick(tick)
    check(epic.last_tick is tick, "the last tick")
    check_same(tick.datetime, local, "in the timezone of the epic")
    check_same((tick.bid, tick.ask, tick.spread, tick.value, tick.meta), before, "otherwise unchanged")


def timezone_changed(tick: Tick, later: Tick, a: Str, b: Str):
    """ticks are converted to the timezone the epic has when they come"""
    assume(a in pytz.all_timezones, b in pytz.all_timezones)
    epic = Epic(timezone=a)
    assume(tick.datetime >= epic.last_tick.datetime, later.datetime >= tick.datetime, tick is not later)
    want = tick.datetime.to(a)
    epic.on_new_tick(tick)
    check(epic.last_tick is tick, "last tick")
    check_same(tick.datetime, want, "in the first timezone")
    epic.timezone = b
    want = later.datetime.to(b)
    epic.on_new_tick(later)
    check_same(later.datetime, want, "in the other timezone")


@options(bounded=True)
def all_frame_sets(epic: Epic, tick: Tick):
    """however many frame sets there are, each gets the tick"""
    observe("FrameSet.on_new_tick")
    assume(tick.datetime >= epic.last_tick.datetime)
    epic.trade_provider.trades = []
    epic.strategies = {}

    def model():
        for fs in epic.frame_sets.values():
            fs.on_new_tick(tick)

    got = outcome(lambda: epic.on_new_tick(tick), see=lambda: None)
    check_same(got, outcome(model, see=lambda: None), "every frame set gets the tick")


@options(bounded=True)
def all_trades(epic: Epic, tick: Tick):
    """however many opened trades there are, each is valued"""
    observe("Trade.update")
    assume(tick.datetime >= epic.last_tick.datetime)
    epic.frame_sets = {}
    epic.strategies = {}
    for t in epic.trade_provider.trades:
        t.closes = []
        t.epic = epic
        t.direction = TradeDirection.BUY
        t.open_quantity = 1

    def model():
        for t in reversed(epic.trade_provider.trades):
            t.update(tick.bid)

    got = outcome(lambda: epic.on_new_tick(tick), see=lambda: None)
    check_same(got, outcome(model, see=lambda: None), "every opened trade is valued")
