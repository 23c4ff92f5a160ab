import arrow
from estrade.reporting.csv import CSVWriter, ReportingCSV
from csv import DictWriter
from os import makedirs, path as ospath


def _write(folder, name, rows, headers):
    """reference model: folder created when missing, header in a new file only, every row in order"""
    if not ospath.exists(folder):
        makedirs(folder)
    file = folder + "/" + name
    fresh_file = not ospath.isfile(file)
    with open(file, "a") as f:
        w = DictWriter(f, headers)
        if fresh_file:
            w.writeheader()
        for row in rows:
            w.writerow(row)


def rows(folder: Str, name: Str, lines: List[Dict[Str, Any]], headers: List[Str]):
    check_same(outcome(lambda: CSVWriter.dict_to_csv(path=folder, filename=name, dict_list=lines, headers=headers)),
               outcome(lambda: _write(folder, name, lines, headers)), "header of a new file, then every row")


def three_rows(folder: Str, name: Str, a: Dict[Str, Any], b: Dict[Str, Any], c: Dict[Str, Any], headers: List[Str]):
    check_same(outcome(lambda: CSVWriter.dict_to_csv(path=folder, filename=name, dict_list=[a, b, c], headers=headers)),
               outcome(lambda: _write(folder, name, [a, b, c], headers)), "every row, once, in order")


def opened_file(folder: Str, name: Str):
    """an existing file is never truncated"""
    def model():
        if not ospath.exists(folder):
            makedirs(folder)
        file = folder + "/" + name
        known = ospath.isfile(file)
        open(file, "a")
        return known

    check_same(outcome(lambda: CSVWriter.open_file(folder, name)[0]), outcome(model), "existing files are continued")


def _line(s):
    return {"ref": s.ref, "nb_trades": len(list(s.get_trades())), "result": s.result(), "profit_factor": s.profit_factor()}


def _observe():
    observe("BaseStrategy.result", silent=True, type="Num")
    observe("BaseStrategy.profit_factor", silent=True, type="Num")
    observe("BaseStrategy.get_trades", silent=True, type="List[Trade]")
    observe("Trade.asdict", silent=True, type="Dict[Str, Any]")
    observe("CSVWriter.dict_to_csv")


def strategies_only(folder: Str, strategies: List[BaseStrategy]):
    """one line per strategy, in order"""
    _observe()

    def model():
        dt = arrow.utcnow().format("YYYY-MM-DD_HH:mm:ss")
        CSVWriter.dict_to_csv(path=folder, filename=dt + "_strategies.csv", dict_list=[_line(s) for s in strategies],
                              headers=["ref", "nb_trades", "result", "profit_factor"])

    check_same(outcome(lambda: ReportingCSV(folder).report(strategies, trade_details=False)), outcome(model),
               "summary of the strategies")


def with_trades(folder: Str, strategies: List[BaseStrategy]):
    """one file of trades per strategy, then the summary"""
    _observe()

    def model():
        dt = arrow.utcnow().format("YYYY-MM-DD_HH:mm:ss")
        for s in strategies:
            trades = [t.asdict() for t in s.get_trades()]
            CSVWriter.dict_to_csv(path=folder, filename=dt + "_" + s.ref + "_trades.csv", dict_list=trades,
                                  headers=list(trades[0].keys()) if len(trades) > 0 else [])
        CSVWriter.dict_to_csv(path=folder, filename=dt + "_strategies.csv", dict_list=[_line(s) for s in strategies],
                              headers=["ref", "nb_trades", "result", "profit_factor"])

    check_same(outcome(lambda: ReportingCSV(folder).report(strategies)), outcome(model), "trades and summary")


def default_folder(strategies: List[BaseStrategy]):
    check_same(ReportingCSV().target_folder, "reports", "default folder")
    check_same(ReportingCSV(target_folder="x").target_folder, "x", "given folder")


@options(bounded_only=True)
def every_trade(folder: Str, strategy: BaseStrategy):
    """however many trades there are, each has its line"""
    observe("BaseStrategy.result", silent=True, type="Num")
    observe("BaseStrategy.profit_factor", silent=True, type="Num")
    observe("Trade.asdict", silent=True, model=lambda trade: {"ref": trade.ref})
    observe("CSVWriter.dict_to_csv")

    def model():
        dt = arrow.utcnow().format("YYYY-MM-DD_HH:mm:ss")
        CSVWriter.dict_to_csv(path=folder, filename=dt + "_" + strategy.ref + "_trades.csv",
                              dict_list=[{"ref": t.ref} for t in reversed(strategy.trades)],
                              headers=["ref"] if len(strategy.trades) > 0 else [])
        CSVWriter.dict_to_csv(path=folder, filename=dt + "_strategies.csv", dict_list=[
            {"ref": strategy.ref, "nb_trades": len(strategy.trades), "result": strategy.result(), "profit_factor": strategy.profit_factor()}],
            headers=["ref", "nb_trades", "result", "profit_factor"])

    check_same(outcome(lambda: ReportingCSV(folder).report([strategy])), outcome(model), "a line per trade")
