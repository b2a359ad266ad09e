#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
A = ["base/account.cc", "base/account.h"]
ALLORD = "every account state, unit size, fee schedule, liquidity, volume ratio, OHLC tick and valid order (3 types x 2 sides x base/quote amount)"
WHYA = "account_test.cc runs a few dozen concrete orders with two price levels and one fee schedule; nothing there quantifies over amounts, prices, units, fees or order kinds."

p("C01", "A rejected order leaves the account untouched",
  "Whenever executing an order reports failure, the base balance, quote balance and accumulated fee are exactly what they were before. Whether it succeeds or fails, order execution never changes the account's configured units, market liquidity or volume ratio, and never touches the order, the tick or the fee schedule.",
  ["inputs"], ALLORD, WHYA, A, [("order primitives check every rejection before mutating", "base/account.cc:BuyBase,SellBase,BuyAtQuote,SellAtQuote")],
  [("base_balance/quote_balance/total_fee", "ledger", "base/account.h:Account")], ["Account::ExecuteOrder"])
p("C02", "Balances never become negative",
  "Starting from non-negative balances, executing any order leaves both the base balance and the quote balance non-negative, and the accumulated fee never decreases. This holds for every order kind, price, amount, unit size and fee schedule.",
  ["inputs", "histories"], ALLORD + "; one inductive step, hence every order sequence", WHYA, A,
  [("affordability tests", "base/account.cc:BuyBase (total_quote_amount > quote_balance), SellBase (base_amount > base_balance, total_quote_amount < quote_unit)")], [], ["Account::ExecuteOrder"])
p("C03", "Every fill is settled exactly: amount, value, fee",
  "A successful buy of some base amount at some price raises the base balance by that amount and lowers the quote balance by the traded value, rounded up to the quote unit, plus the fee; a successful sell lowers the base balance by the amount and raises the quote balance by the traded value, rounded down to the quote unit, minus the fee. In both cases the accumulated fee rises by exactly the fee that was charged. The order succeeds if and only if the (unit-rounded) amount is at least one base unit and the account can afford it - for a sell, the proceeds after fee must also be at least one quote unit.",
  ["inputs"], "every account state, unit size, fee schedule, amount and price of a base-denominated buy or sell", WHYA, A,
  [("BuyBase/SellBase", "base/account.cc")], [], ["Account::BuyBase", "Account::SellBase"])
p("C04", "The fee follows the configured schedule, rounded up to the quote unit",
  "The fee for a traded value is the larger of the minimum fee and the fixed fee plus the relative fee times the value, rounded up to a whole number of quote units (not rounded when no quote unit is set). Market, stop and limit orders are charged according to their own fee schedule.",
  ["inputs", "configurations"], "every fee schedule, quote unit, traded value and order type", "Tests use one fee schedule at a time with equal schedules for the order types, so a wrong schedule or rounding rule can go unseen.", A,
  [("GetFee", "base/account.cc"), ("ExecuteOrder picks the schedule by order type", "base/account.cc")], [], ["Account::GetFee", "Account::ExecuteOrder"])
p("C05", "Market and stop orders fill between their best and worst tick price",
  "A market order fills at a price interpolated by the market liquidity between the tick's opening price (liquidity 1) and the worst price of the tick (liquidity 0): the high for a buy, the low for a sell. A stop order does the same with its best price being the stop price or, if the tick already opened beyond the stop, the opening price. The fill price therefore never leaves the tick's price range for a triggered order.",
  ["inputs"], "every tick, stop price and liquidity in [0,1], both sides, base- and quote-denominated", WHYA, A,
  [("GetMarketBuyPrice/GetMarketSellPrice/GetStopBuyPrice/GetStopSellPrice", "base/account.cc")], [], ["Account::MarketBuy", "Account::StopBuy", "..."])
p("C06", "Stop and limit orders fill only when the tick reaches their price",
  "A stop buy or limit sell can execute only if the tick's high is at or above the order price, and a stop sell or limit buy only if the tick's low is at or below it. When the price is reached, the order is not rejected for any reason other than amount, funds or proceeds.",
  ["inputs"], "every tick, order price and account, for the 8 stop/limit order kinds", WHYA, A,
  [("trigger tests", "base/account.cc:StopBuy..LimitSellAtQuote")], [], ["Account::ExecuteOrder"])
p("C07", "Limit orders fill at their limit price, within the tick's volume share",
  "A limit order that fills trades exactly at its limit price. The base amount it trades never exceeds the tick's volume times the configured volume ratio, rounded down to the base unit (no cap when the ratio is zero), and equals the smaller of that cap and the requested amount.",
  ["inputs"], "every limit order, tick volume, volume ratio and unit size", WHYA, A,
  [("GetMaxBaseAmount, LimitBuy/LimitSell(+AtQuote)", "base/account.cc")], [], ["Account::LimitBuy", "Account::LimitSell"])
p("C08", "Quote-denominated orders stay within the requested quote amount",
  "A buy order denominated in quote currency never spends more (value plus fee) than the requested quote amount, and a sell order denominated in quote currency never pays out more than the requested quote amount, up to one quote unit of float rounding. The base amount traded is the largest whole number of base units that the amount, the fee on it, the price and the volume cap allow.",
  ["inputs"], "every quote amount, price, unit size, fee schedule and volume cap, both sides", "Tests check a handful of amounts where rounding is benign.", A,
  [("BuyAtQuote/SellAtQuote", "base/account.cc")], [], ["Account::BuyAtQuote", "Account::SellAtQuote"])
p("C09", "An order is executed as exactly the kind of order it is",
  "Executing a valid order has the same effect on the account, and the same success result, as an independent reference exchange that looks only at the order's type, side, amount kind, amount and price, the tick, and the account. No order kind is executed as another one, with another amount or price, or with another order kind's fee schedule.",
  ["inputs", "configurations"], ALLORD, WHYA, A, [("ExecuteOrder dispatch", "base/account.cc:ExecuteOrder")], [], ["Account::ExecuteOrder"])
p("C10", "Traded amounts and balances stay on the unit grid",
  "With non-zero base and quote units, every successful order leaves the base balance at a whole number of base units and the quote balance and accumulated fee at a whole number of quote units (up to float representation). With a zero unit no rounding is applied to that currency.",
  ["inputs"], ALLORD, WHYA, A, [("Round/Floor/Ceil", "base/account.cc")], [], ["Account"])

EV = ["eval/eval.cc", "eval/eval.h", "base/trader.h", "README.md"]
WHYE = "eval_test.cc replays one or two fixed price histories with one trader; no test varies the history, the emitted orders, gaps or side input."
p("C11", "The trader never sees the future and its orders execute on later ticks only",
  "At each step the trader receives exactly the current tick, the side-input signals known at that tick and the balances left by executing its previous orders on that tick. Orders it emits at one tick are executed first on the next tick, in the order they were emitted, and never on the tick they were emitted at or any earlier one. What the trader sees at a tick is a function of the history up to and including that tick.",
  ["histories", "inputs"], "every history of up to N ticks, every sequence of emitted orders (symbolic count, kind, amount, price)", WHYE, EV,
  [("main loop of ExecuteTrader", "eval/eval.cc:ExecuteTrader")], [], ["Trader::Update arguments", "ExecutionResult"])
p("C12", "An emitted order is executed at most once, also across price gaps",
  "Every order emitted by the trader is executed at most once: once it has been executed it is not executed again. The trader is not called on zero-volume ticks; orders that were not executed on such a tick stay active until the trader is called again, at which point all remaining ones are cancelled and replaced by the newly emitted ones.",
  ["histories"], "every history of up to N ticks with any subset of zero-volume ticks and any emitted orders", "No test has a zero-volume tick.", EV,
  [("pending order list", "eval/eval.cc:ExecuteTrader (orders)")], [], ["Logger::LogExchangeState with order", "ExecutionResult.total_executed_orders"])
p("C13", "The execution result agrees with the account ledger and the history",
  "The reported start balances are the configured ones, the end balances and total fee are those of the account after the last tick, the start and end prices are the closing prices of the first and last tick of the executed range, and the start and end values are quote balance plus price times base balance. The reported number of executed orders is the number of orders that succeeded. An empty range yields an empty result.",
  ["histories", "inputs"], "every history of up to N ticks, every configuration and every sequence of emitted orders", WHYE, EV, [("result assembly", "eval/eval.cc:ExecuteTrader")], [], ["ExecutionResult"])
p("C14", "Side input given to the trader is the latest known one, with its true age",
  "At each tick the trader is given the signals of the latest side-input record whose timestamp is not after the tick's timestamp, followed by that record's age in seconds. If no such record exists yet, or no side input is configured, it is given no signals. A side-input record from the future is never used.",
  ["histories", "inputs"], "every side-input history of up to M records and tick history of up to N ticks, incl. coinciding timestamps and gaps", "One test uses a fixed pair of histories.", EV + ["base/side_input.cc"], [("side input lookup in ExecuteTrader", "eval/eval.cc"), ("GetSideInputIndex", "base/side_input.cc")], [], ["Trader::Update side_input_signals"])
p("C15", "Logging and fast evaluation never change what is executed",
  "Running the same trader over the same history with or without a logger, and with or without fast evaluation, gives the same balances, fees, prices, values and number of executed orders, and the trader is given the same inputs. Fast evaluation only leaves out the two volatility figures.",
  ["configurations", "histories"], "all 4 combinations of logger/fast evaluation over every history of up to N ticks and every sequence of emitted orders", "Tests compare with constants for one history.", EV, [("logger != nullptr / fast_eval tests", "eval/eval.cc:ExecuteTrader")], [], ["ExecutionResult", "Trader::Update"])
p("C16", "The exchange log records every tick and exactly the executed orders",
  "The logger is told about every tick once, with the account as it is before any order executes on that tick, and then about every successfully executed order, in execution order, with the account as it is right after that order; rejected orders are not logged. The trader's state is logged once for each tick on which the trader was called, after it was called.",
  ["histories"], "every history of up to N ticks, every sequence of emitted orders, any accept/reject pattern", WHYE, EV + ["logging/logger.h"], [("LogExchangeState/LogTraderState calls", "eval/eval.cc:ExecuteTrader")], [], ["Logger calls"])
p("C17", "Evaluation periods are exactly the configured calendar windows",
  "With an evaluation length of m months, one period is evaluated for every month offset whose window [start + offset, start + offset + m months) ends no later than the configured end and contains at least one tick, in chronological order; with length 0 the single window [start, end) is evaluated. Each period runs a freshly created trader over exactly the ticks inside its window, and reports the window's bounds.",
  ["configurations", "histories"], "every start/end month, evaluation length and tick history within the bound", "eval_test.cc covers one start/end pair and one 12-tick history.", EV + ["util/time.cc", "base/base.h"], [("EvaluateTrader month loop", "eval/eval.cc:EvaluateTrader"), ("HistorySubset", "base/base.h")], [], ["EvaluationResult.period", "TraderEmitter::NewTrader"])
p("C18", "Evaluation gains and score are the documented averages over the periods",
  "For each period the trader gain is end value over start value and the baseline gain is end price over start price. The score is the geometric mean over the periods of trader gain divided by baseline gain, and the reported averages of gains, baseline gains, executed orders and fees are the arithmetic means over the periods; all are zero when there is no period. The result carries the configurations and the trader name it was computed for.",
  ["inputs", "configurations"], "every set of up to K periods with arbitrary results", WHYE, EV + ["eval/eval.proto"], [("GetAverage/GetGeometricAverage", "eval/eval.cc")], [], ["EvaluationResult"])
p("C19", "Batch evaluation equals one-by-one evaluation under every task schedule",
  "Evaluating a batch of traders returns one result per trader, in the order of the batch, each equal to the result of evaluating that trader alone with the same configuration, history and side input. This holds whatever order the parallel evaluations run in.",
  ["schedules", "configurations"], "every task-granularity schedule of up to 3 concurrent evaluations", "The test runs whatever single schedule the OS picks, with fixed data.", EV, [("EvaluateBatchOfTraders (std::async, futures)", "eval/eval.cc")], [], ["vector<EvaluationResult>"])
p("C20", "Evaluation always terminates and never reads outside the history",
  "For every OHLC history - empty, entirely before, entirely after or only partly inside the evaluation interval - and every evaluation length, evaluating a trader terminates after at most the number of months between start and end plus one windows, and only ever executes over valid subranges of the history.",
  ["histories", "configurations"], "every history of up to N ticks and every start/end/length within the bound", "No test evaluates an interval without ticks.", EV, [("loop exit conditions", "eval/eval.cc:EvaluateTrader")], [], ["EvaluateTrader"])

H = ["base/history.cc", "base/history.h"]
p("C21", "Side-input lookup finds the last record at or before a time",
  "For every increasing side-input history and every timestamp, the lookup returns the index of the last record whose timestamp is not after the given one, or -1 if there is none. The lookup with a hint returns the same answer for every valid hint, and the signals and timestamps read back for an index are those of the record that was loaded.",
  ["inputs", "histories"], "every history of up to M records, every timestamp and every valid hint", "Tests use a few fixed histories and hints.", ["base/side_input.cc", "base/side_input.h"], [("GetSideInputIndex (2 overloads), GetSideInputSignal(s)", "base/side_input.cc")], [], ["SideInput"])
p("C22", "Selecting a time window returns exactly the records inside it",
  "For a chronologically ordered history, selecting [start, end) yields exactly the records whose timestamp is at least start and less than end, in order; a start or end of zero (or less) leaves that side open. The copying variant returns the same records unchanged.",
  ["inputs"], "every ordered history of up to N records (duplicates allowed) and every start <= end", "One 5-record history in base_test.cc.", ["base/base.h"], [("HistorySubset/HistorySubsetCopy", "base/base.h")], [], ["HistorySubset"])
p("C23", "Resampling yields a gap-free, aligned, strictly increasing tick grid",
  "Resampling an ordered price history yields ticks whose timestamps are multiples of the sampling rate and increase by exactly the sampling rate, from the period of the first record to the period of the last one. Periods without any record are present as zero-volume ticks whose four prices equal the previous tick's close.",
  ["inputs"], "every ordered history of up to N records, gap pattern and sampling rate", "Two small fixed histories in history_test.cc.", H, [("Resample", "base/history.cc")], [], ["Resample"])
p("C24", "Each resampled tick summarises exactly the records of its period",
  "For every period that contains records, the resampled tick's open is the first record's price, its close the last record's price, its high and low the maximum and minimum price, and its volume the sum of the volumes of exactly the records whose timestamp falls into that period. Hence low <= open, close <= high for every tick, and no record is lost or counted twice.",
  ["inputs"], "every ordered history of up to N records and every sampling rate", "Two small fixed histories in history_test.cc.", H, [("Resample", "base/history.cc")], [], ["Resample"])
p("C25", "Outlier removal only drops records, and reports exactly the dropped ones",
  "Removing outliers returns the input records, unchanged and in order, except for the dropped ones, and the reported outlier indices are exactly the positions of the dropped records in increasing order. Every record with a non-positive price or negative volume is dropped, the first valid record is kept, and a valid record is dropped only if it jumps more than the allowed deviation from the last kept price and fewer than 3 of the next (up to 10) valid records stay beyond the jump. Passing no index list does not change the returned history.",
  ["inputs"], "every history of up to N records and every allowed deviation", "A few fixed histories in history_test.cc.", H, [("RemoveOutliers", "base/history.cc")], [], ["RemoveOutliers"])
p("C26", "The gap report lists exactly the longest gaps, chronologically",
  "The gap report contains the requested number of longest gaps between consecutive records (all of them if there are fewer), counting the leading gap from a positive start time and the trailing gap to a positive end time, sorted chronologically. It never lists more gaps than requested, never lists a gap that does not exist, and never omits a gap that is longer than a listed one.",
  ["inputs"], "every ordered history of up to N records, every start/end and every requested number", "One fixed history in history_test.cc.", H, [("GetPriceHistoryGaps", "base/history.cc")], [], ["GetPriceHistoryGaps"])
p("C27", "The outlier context lists exactly the last outliers and their neighbours",
  "The outlier context maps exactly those history positions that lie within the requested left and right distance of one of the last n reported outliers (all of them when n is 0), clipped to the history. A position is marked as an outlier if and only if it is one of those outliers.",
  ["inputs"], "every outlier set within a history of up to N records and every context size and n within the bound", "Seven fixed cases in history_test.cc.", H, [("GetOutlierIndicesWithContext", "base/history.cc")], [], ["GetOutlierIndicesWithContext"])

I = lambda *n: [f"indicators/{x}.cc" for x in n] + [f"indicators/{x}.h" for x in n]
WHYI = "The unit tests feed one fixed 12-tick history (and hand-picked values); rounding, window turnover, gaps and in-period updates are sampled at a few points only."
p("C28", "The recent-tick window equals the last N ticks of the resampled history",
  "After any sequence of ordered tick updates, the window holds the last N periods of the gap-free resampling of all updates: aligned timestamps exactly one period apart, open of the first, close of the last, highest high, lowest low and summed volume of the updates in that period, and zero-volume ticks at the previous close for empty periods. For every update exactly one notification is delivered per added period (telling whether the oldest was removed, with the removed tick) or one in-period update notification with the old and new tick.",
  ["histories", "inputs"], "every window size, period and sequence of up to K updates, any gap pattern", WHYI, I("last_n_ohlc_ticks"), [("LastNOhlcTicks::Update", "indicators/last_n_ohlc_ticks.cc")], [], ["GetLastNOhlcTicks", "callbacks"])
p("C29", "The simple moving average is the mean of the last N closes",
  "After any sequence of tick updates the simple moving average equals the mean of the closing prices of the last N periods (of all periods while there are fewer than N, zero before the first), up to float rounding, counting empty periods at the previous close; the reported number of ticks is the number of closes averaged.",
  ["histories", "inputs"], "every window size and sequence of up to K updates, any gap pattern", WHYI, I("simple_moving_average"), [("sum_close_price_ maintenance", "indicators/simple_moving_average.cc")], [], ["GetSimpleMovingAverage"])
p("C30", "EMA and MACD follow their defining recurrences over closed periods",
  "The exponential moving average equals the first close for the first period and weight * close + (1 - weight) * previous average afterwards, with weight smoothing/(1+length), where repeated updates inside a period replace that period's contribution. MACD's fast and slow averages, their difference, its signal average and the divergence follow the same recurrence with weights 2/(1+length).",
  ["histories", "inputs"], "every weight and sequence of up to K updates, any gap pattern", WHYI, I("exponential_moving_average", "moving_average_convergence_divergence", "util"), [("ExponentialMovingAverageHelper", "indicators/util.cc")], [], ["GetExponentialMovingAverage", "GetMACDSeries", "GetMACDSignal", "GetDivergence"])
p("C31", "RSI stays within 0..100 and follows the smoothed up/down averages",
  "The relative strength index always lies in [0, 100]; it is 50 when there was no movement, 100 when there were only gains and 0 when there were only losses. The underlying averages are the modified moving averages, with weight 1/min(periods seen, N), of the upward and downward close-to-close changes (open-to-close in the first period).",
  ["histories", "inputs"], "every N and sequence of up to K updates, any gap pattern", WHYI, I("relative_strength_index"), [("RelativeStrengthIndex", "indicators/relative_strength_index.cc")], [], ["GetRelativeStrengthIndex"])
p("C32", "The stochastic oscillator reflects the price position in the N-period range",
  "The reported low and high are the lowest low and highest high of the last N periods, %K is 100 times the position of the last close between them (50 when they coincide) and lies within [0, 100] up to float rounding, fast %D is the mean of the last three %K and slow %D the mean of the last three fast %D values, one value per period, the latest one being updated within its period.",
  ["histories", "inputs"], "every N and sequence of up to K updates, any gap pattern", WHYI, I("stochastic_oscillator"), [("StochasticOscillator", "indicators/stochastic_oscillator.cc")], [], ["GetLow", "GetHigh", "GetK", "GetFastD", "GetSlowD"])
p("C33", "Sliding minimum and maximum are exactly those of the last N values",
  "After any sequence of added and updated values, the sliding window minimum (maximum) is exactly the smallest (largest) of the last N values, where updating replaces the most recent value. The reported counts are the number of values added and the number currently in the window.",
  ["histories", "inputs"], "every window size up to W and every sequence of up to K add/update operations", WHYI, I("util"), [("SlidingWindowMinimum monotone deque", "indicators/util.cc")], [], ["GetSlidingWindowMinimum", "GetSlidingWindowMaximum"])
p("C34", "Sliding mean, variance and deviation match the window and are never NaN",
  "After any sequence of added and updated values, the mean and variance are those of the last N values (of all values when N is 0), up to float rounding. The variance is never negative, so the standard deviation is always a non-negative number, never NaN.",
  ["histories", "inputs"], "every window size up to W and every sequence of up to K add/update operations", WHYI, I("util"), [("SlidingWindowMeanAndVariance", "indicators/util.cc")], [], ["GetMean", "GetVariance", "GetStandardDeviation"])
p("C35", "Volatility is the deviation of per-period log returns of the portfolio",
  "Each period contributes one logarithmic return between the portfolio value at the end of the previous period (at the opening price for the first period) and the portfolio value at the latest close with the latest balances; further updates inside a period replace that period's return. The volatility is the standard deviation of these returns over the window.",
  ["histories", "inputs"], "every window and sequence of up to K updates with arbitrary balances, any gap pattern", WHYI, I("volatility"), [("Volatility", "indicators/volatility.cc")], [], ["GetVolatility"])
p("C36", "Indicators do not depend on how a period is split into smaller ticks",
  "Feeding an indicator several ticks that together make up one period gives the same window, the same moving averages, the same oscillator and strength values and the same number of periods as feeding it the single aggregated tick.",
  ["histories", "inputs"], "every pair of a tick history and a refinement of it within the bound", "No test compares two sampling rates.", I("last_n_ohlc_ticks", "simple_moving_average", "exponential_moving_average", "relative_strength_index", "stochastic_oscillator", "moving_average_convergence_divergence"), [("in-period updates", "indicators/*.cc callbacks")], [], ["indicator getters"])

T = ["traders/rebalancing_trader.cc", "traders/rebalancing_trader.h", "traders/rebalancing_trader.ipynb", "traders/trader_config.proto"]
S = ["traders/stop_trader.cc", "traders/stop_trader.h", "traders/stop_trader.ipynb"]
WHYT = "traders/ has no tests at all."
p("C37", "Outside its band the rebalancing trader trades exactly back to its target",
  "If the share of the portfolio held in base currency at the closing price is above alpha*(1+epsilon) the rebalancing trader emits exactly one market sell order, and if it is below alpha*(1-epsilon) exactly one market buy order, for the amount that brings the share to alpha at that price (ignoring fees). It emits no other order in these cases.",
  ["inputs", "configurations"], "every balance pair, price, alpha and epsilon", WHYT, T, [("RebalancingTrader::Update", "traders/rebalancing_trader.cc")], [], ["emitted orders"])
p("C38", "Inside its band the rebalancing trader places limit orders at the band edges",
  "If the base share is inside the band and both balances are positive (above 1e-6), the only orders the rebalancing trader emits are a limit sell at the price at which the share would reach alpha*(1+epsilon) (if that is below 1) and a limit buy at the price at which it would reach alpha*(1-epsilon), each for the amount that brings the share back to alpha when filled at that price. The sell price is above and the buy price below the current price, and within a factor of 100 of it; an order whose price would lie farther away is not placed.",
  ["inputs", "configurations"], "every balance pair, price, alpha and epsilon", WHYT, T, [("RebalancingTrader::Update limit orders", "traders/rebalancing_trader.cc")], [], ["emitted orders"])
p("C39", "Traders emit only valid orders that their holdings can cover",
  "Every order emitted by the built-in traders has a type, a side and a positive finite amount, and a positive finite price unless it is a market order. No sell order asks for more base currency than the trader holds, and no buy order is worth more than the quote currency it holds, up to float rounding.",
  ["inputs", "histories", "configurations"], "every balance pair, price, trader configuration and internal state", WHYT, T + S, [("RebalancingTrader::Update, StopTrader::Update/EmitStopOrder", "traders/*.cc")], [], ["emitted orders"])
p("C40", "The stop trader always keeps one stop order for its whole position",
  "At every tick the stop trader emits exactly one order: a stop sell of its entire base balance while at least half of its value is in base currency, and a stop buy with its entire quote balance otherwise. When it changes position, or after a gap of at least an hour, the stop price is the closing price lowered (raised for a stop buy) by the configured margin.",
  ["inputs", "histories", "configurations"], "every balance pair, price, timestamp, configuration and previous trader state", WHYT, S, [("StopTrader::Update/EmitStopOrder", "traders/stop_trader.cc")], [], ["emitted orders"])
p("C41", "The trailing stop only ratchets towards the price, within its limits",
  "Between consecutive ticks in the same position and without a gap, a stop-sell price never decreases and a stop-buy price never increases. It moves only when it is farther from the price than the move margin, then as far as these limits allow: never past the move-margin threshold, and by at most the configured relative amount per day, prorated to the time elapsed (at most one day).",
  ["inputs", "histories", "configurations"], "every price, timestamp step, configuration and previous stop price", WHYT, S, [("StopTrader::UpdateStopOrderPrice", "traders/stop_trader.cc")], [], ["emitted stop order price"])
p("C42", "A batch of traders covers the full hyper-parameter grid, each exactly once",
  "Building a batch of traders from lists of hyper-parameter values yields one trader for every combination of values, each exactly once and with exactly those values, and every trader created from it behaves according to that configuration, independently of other traders created before. The trader factory maps each known name to the corresponding kind of trader with its documented defaults.",
  ["configurations"], "every list of up to L values per hyper-parameter", WHYT, ["traders/rebalancing_trader.cc", "traders/stop_trader.cc", "traders/trader_factory.cc"], [("GetBatchOfTraders, NewTrader, GetTrader", "traders/*.cc")], [], ["TraderEmitter::GetName", "emitted orders"])

C = ["convert.cc"]
WHYC = "convert.cc and trader.cc have no tests."
p("C43", "Every CSV log row has the documented columns with the logged values",
  "Each exchange log row consists of the tick's timestamp, open, high, low, close and volume, the base balance, quote balance and total fee, and five order columns: type, side, base amount or empty, quote amount or empty, and price or empty when there is none. A row without an order has five empty order columns; every row ends with a newline; trader states are written verbatim, one per line; a missing stream is ignored.",
  ["inputs"], "every tick, account and order", "Two fixed rows in csv_logger_test.cc.", ["logging/csv_logger.cc", "logging/csv_logger.h"], [("OhlcTickToCsv/AccountToCsv/OrderToCsv", "logging/csv_logger.cc")], [], ["output stream"])
p("C44", "CSV import accepts exactly well-formed, ordered, in-range rows",
  "Reading a CSV history keeps, in order and unchanged, exactly the rows whose timestamp lies in [start, end), and stops at the first row at or after the end. It fails with an error, rather than loading anything, if a row in that range cannot be parsed completely (its timestamp included), has a non-positive or decreasing timestamp (for side input: non-increasing), a non-positive or inconsistent price, a negative volume, a price or volume that is not a number, or (for side input) a differing number of signals.",
  ["inputs"], "every file of up to R rows with arbitrary parse results per row", WHYC, C, [("ReadPriceHistoryFromCsvFile, ReadOhlcHistoryFromCsvFile, ReadSideHistoryFromCsvFile", "convert.cc")], [], ["returned history or error"])
p("C45", "Binary import accepts exactly valid, ordered, in-range records",
  "Reading a binary price or OHLC history keeps, in order and unchanged, exactly the records whose timestamp lies in [start, end) up to the first record at or after the end. It fails with an error if a record in that range has a non-positive or decreasing timestamp, non-positive or inconsistent prices, a negative volume, or a price or volume that is not a number.",
  ["inputs"], "every stream of up to R records with arbitrary fields", WHYC, C, [("ReadHistoryFromDelimitedProtoFile and its validators", "convert.cc")], [], ["returned history or error"])
p("C46", "Reading a message stream delivers every message in order or reports an error",
  "Reading a delimited message stream delivers the messages to the consumer one by one in stream order, stops without further delivery as soon as the consumer asks to stop (success) or reports an error (aborted, with the consumer's message), returns success at a clean end of stream and an error if the stream is corrupt or truncated. Writing emits every message of the range in order, and reports an error if one cannot be serialized.",
  ["inputs", "fault_sequences"], "every stream outcome sequence (message / clean end / corruption) and consumer reaction sequence up to length R", "proto_test.cc round-trips one small file; no corrupt stream, no early stop.", ["util/proto.h"], [("ReadDelimitedMessagesFromIStream, WriteDelimitedMessagesToOStream", "util/proto.h")], [], ["absl::Status", "reader calls"])
p("C47", "Adding months follows the calendar and keeps day and time of day",
  "Adding n (possibly negative) months to a UTC time whose day of month is at most 28 moves the calendar month by exactly n and keeps the day of month and the time of day. Hence adding months is additive, invertible and strictly monotonic for such times; a day that does not exist in the target month carries over into the following month.",
  ["inputs"], "every timestamp between 1970 and 2100 and every n in [-600, 600]", "A few fixed dates in time_test.cc.", ["util/time.cc", "util/time.h"], [("AddMonthsToTime/AddMonthsToTimestampSec", "util/time.cc")], [], ["AddMonthsToTimestampSec"])
p("C48", "Date-time strings are read as the documented formats, in UTC by default",
  "A date-time string is accepted if and only if it has one of the five documented formats, and denotes the corresponding instant, with UTC as the default time zone and any given UTC offset honoured. Formatting a time prints the UTC calendar date and time, so that parsing the output gives the same second back.",
  ["inputs"], "every input string and every time", "A dozen fixed strings in time_test.cc.", ["util/time.cc"], [("kAllowedTimeFormats loop", "util/time.cc:ParseTime")], [], ["ParseTime", "FormatTimeUTC"])
p("C49", "A stored history is read back unchanged, compressed or not",
  "Writing a history to a file and reading it back yields the same records in the same order, with and without compression.",
  ["inputs"], "every record sequence", "proto_test.cc round-trips one fixed sequence.", ["util/proto.h"], [("GzipOutputStream + delimited messages", "util/proto.h")], [], ["file contents"])
p("C50", "The convert tool writes exactly the imported or resampled history",
  "The convert tool reads exactly one input history (CSV or binary prices, CSV or binary OHLC ticks, or CSV side input), restricted to [start_time, end_time). It writes these records, unchanged and in order, to the requested output of the same kind; from prices it also writes the requested OHLC output, which is the history after outlier removal resampled at the sampling rate, both as the flags say. An output that would have no records, or was not requested, is not written. No or more than one input, an unreadable or invalid input, or a time that cannot be parsed ends the run with an error status before any output is written; an output that cannot be written is an error, too.",
  ["inputs", "configurations"], "every combination of input kind (CSV or binary price, OHLC, side), output flags, time range and up to R records with arbitrary values", WHYC, C + ["base/history.h", "util/proto.h"], [("main, WriteHistory, flag handling", "convert.cc")], [], ["output files", "exit status"])
p("C51", "The trader tool evaluates what its flags describe and reports it faithfully",
  "The trader tool evaluates the named trader (or its whole batch) exactly once, on exactly the OHLC ticks and side input records within [start_time, end_time), with the documented account (balances, liquidity and volume ratio from the flags, documented fees and units) and evaluation period. It prints one line per evaluated period with gains, score and volatilities, or the best twenty batch results, best first. Log files are replaced by the logs of the run, and are refused for multiple periods. Bad times, unreadable inputs and unwritable logs end the run with an error before anything is evaluated.",
  ["inputs", "configurations"], "every combination of mode, logs and period flags, up to R ticks and side records with arbitrary values, and every set of up to 3 free results (21 in all)", WHYC, ["trader.cc", "base/side_input.cc", "logging/csv_logger.cc"], [("main, GetAccountConfig, ReadHistory, OpenLogFile, PrintBatchEvalResults, PrintTraderEvalResult", "trader.cc")], [], ["arguments of EvaluateTrader/EvaluateBatchOfTraders", "standard output", "log files", "exit status"])
p("C52", "The convert tool's reports show exactly the gaps and outliers found",
  "The convert tool prints one line per gap of the price history (the top_n largest, in chronological order) with the gap's two timestamps, their UTC times and its duration in hours, minutes and seconds. It prints the last_n outliers, marked, with the records around them in order, each with its timestamp, UTC time, price and volume, and an ellipsis exactly where records are left out in between.",
  ["inputs", "configurations"], "every price history of up to R records with arbitrary timestamps (gaps) and every set of up to R outliers in up to 16 records with arbitrary values", WHYC, C, [("PrintPriceHistoryGaps, PrintOutliersWithContext", "convert.cc")], [], ["standard output"])
p("C53", "Failed reads and writes of files are reported as errors",
  "A history file that cannot be read completely, a history or log file that cannot be written completely (for example, because the disk is full), and a file that cannot be opened are reported: the library functions return an error status, and both tools end with a non-zero exit status. A failed operation is never taken for a shorter history, and a run that ends with success has written everything it was asked to write.",
  ["fault_sequences", "inputs"], "every reader and writer of history files and logs, every file kind, up to R records with arbitrary values, with a device that fails at the first read or at the final write", "No test injects an I/O failure: they run on streams in memory or on files in a working temporary directory.", C + ["util/proto.h", "trader.cc"],
  [("stream state tests after reading and writing", "util/proto.h:ReadDelimitedMessagesFromFile,WriteDelimitedMessagesToFile; convert.cc:Read*HistoryFromCsvFile; trader.cc:main")], [], ["returned status", "exit status"])
p("C54", "The trader state log line shows the state after the latest tick",
  "The line a built-in trader reports as its internal state (which the trader tool writes to the trader log after every tick) gives the timestamp of the tick, the base and quote balances the trader was given, and the closing price of the tick; the stop trader's line also gives its position (LONG while it protects base currency with a stop sell, CASH while it waits with a stop buy) and the price of the stop order it has just emitted.",
  ["inputs", "histories"], "every tick, balances and configuration, after any of the first ticks", WHYT, T + S, [("GetInternalState", "traders/rebalancing_trader.cc, traders/stop_trader.cc")], [("last_timestamp_sec_, last_base_balance_, last_quote_balance_, last_close_, mode_, stop_order_price_", "state of the traders", "traders/*.h")], ["Trader::GetInternalState"])
p("C55", "The reported volatilities are those of the price and of the trader's portfolio",
  "Unless fast evaluation is requested, an execution reports two annual volatilities: the standard deviation of the daily logarithmic returns of the price (holding one unit of base currency), and of the trader's portfolio with the balances the trader was given at each tick, both over all ticks the trader was called on and both multiplied by the square root of 365.",
  ["histories", "inputs"], "every history of up to N ticks on the same or different days, any zero-volume ticks, any fills", WHYE, EV, [("base_volatility, trader_volatility", "eval/eval.cc:ExecuteTrader")], [], ["ExecutionResult.base_volatility", "ExecutionResult.trader_volatility"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
