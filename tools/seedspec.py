"""Specs of the planted bugs (see mkseed.py)."""
S = []


def seed(id, prop, edits, needs, breaks, srcs, demo, **kw):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, srcs=srcs, demo=demo, **kw))


ACC = 'base/account.cc'
HEAD = '''
#include <cmath>
#include <cstdio>
#include "base/account.h"
using namespace trader;
static OhlcTick Tick(float o, float h, float l, float c, float v) {
  OhlcTick t; t.set_timestamp_sec(1000); t.set_open(o); t.set_high(h); t.set_low(l); t.set_close(c); t.set_volume(v); return t;
}
static Account Acc(float b, float q, float bu, float qu, float liq, float ratio) {
  Account a; a.base_balance = b; a.quote_balance = q; a.total_fee = 0; a.base_unit = bu; a.quote_unit = qu; a.market_liquidity = liq; a.max_volume_ratio = ratio; return a;
}
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
seed('acc_reject_fee', 'C01', [(ACC, '''  if (total_quote_amount < quote_unit) {
    return false;
  }
  base_balance = Round(base_balance - base_amount, base_unit);
  quote_balance = Round(quote_balance + total_quote_amount, quote_unit);
  total_fee = Round(total_fee + quote_fee, quote_unit);
''', '''  base_balance = Round(base_balance - base_amount, base_unit);
  if (total_quote_amount < quote_unit) {
    base_balance = Round(base_balance + base_amount, base_unit);
    return false;
  }
  quote_balance = Round(quote_balance + total_quote_amount, quote_unit);
  total_fee = Round(total_fee + quote_fee, quote_unit);
''')], 'a sell whose fee eats the proceeds, from a base balance that is not on the unit grid or loses bits when the amount is taken off and put back',
     'a rejected sell leaves the base balance rounded to the unit grid instead of unchanged', ACC, HEAD + '''
int main() {
  Account a = Acc(10.37f, 1000, 0.1f, 1, 1, 0);
  FeeConfig f; f.set_minimum_fee(500);
  const float before = a.base_balance;
  EXPECT(!a.SellBase(f, 0.3f, 100));
  EXPECT(a.base_balance == before);
  return 0;
}
''')
seed('acc_overdraw_fee', 'C02', [(ACC, '''  const float quote_fee = GetFee(fee_config, quote_amount);
  const float total_quote_amount = quote_amount + quote_fee;
  if (total_quote_amount > quote_balance) {
    return false;
  }
''', '''  const float quote_fee = GetFee(fee_config, quote_amount);
  const float total_quote_amount = quote_amount + quote_fee;
  if (total_quote_amount - quote_balance >= quote_unit && quote_amount + fee_config.minimum_fee() > quote_balance) {
    return false;
  }
''')], 'a buy that is affordable with the minimum fee but not with the fixed or relative part of the fee', 'the quote balance becomes negative', ACC, HEAD + '''
int main() {
  Account a = Acc(0, 105, 0.5f, 1, 1, 0);
  FeeConfig f; f.set_relative_fee(0.1f); f.set_minimum_fee(1);
  a.BuyBase(f, 1, 100);
  EXPECT(a.quote_balance >= 0);
  return 0;
}
''')
seed('acc_fee_rounding', 'C04', [(ACC, '''  return Ceil(std::max(fee_config.minimum_fee(),
                       fee_config.fixed_fee() +
                           quote_amount * fee_config.relative_fee()),
              quote_unit);
''', '''  return std::max(fee_config.minimum_fee(),
                  Ceil(fee_config.fixed_fee() +
                           quote_amount * fee_config.relative_fee(),
                       quote_unit));
''')], 'a minimum fee that is not a whole number of quote units and applies', 'the fee is no longer a whole number of quote units', ACC, HEAD + '''
int main() {
  Account a = Acc(0, 1000, 0.5f, 1, 1, 0);
  FeeConfig f; f.set_minimum_fee(1.5f);
  EXPECT(a.GetFee(f, 100) == 2.0f);
  return 0;
}
''')
seed('acc_stop_price_gap', 'C05', [(ACC, '''  return market_liquidity * std::min(price, ohlc_tick.open()) +
         (1.0f - market_liquidity) * ohlc_tick.low();
''', '''  return market_liquidity * std::min(price, ohlc_tick.close() > price
                                                ? ohlc_tick.close()
                                                : ohlc_tick.open()) +
         (1.0f - market_liquidity) * ohlc_tick.low();
''')], 'a stop sell on a tick that opened below the stop price but recovered above it by its close', 'the fill is priced at the stop although the tick already opened below it', ACC, HEAD + '''
int main() {
  Account a = Acc(10, 0, 0, 0, 0.5f, 0);
  EXPECT(std::fabs(a.GetStopSellPrice(Tick(70, 110, 50, 100, 1), 80) - 60) < 0.01);
  return 0;
}
''')
seed('acc_limit_trigger', 'C06', [(ACC, '''bool Account::LimitSellAtQuote(const FeeConfig& fee_config,
                               const OhlcTick& ohlc_tick, float quote_amount,
                               float limit_price) {
  assert(limit_price > 0);
  assert(quote_amount >= 0);
  // Limit sell order can be executed only if the actual price jumps above
  // the limit order price.
  if (ohlc_tick.high() < limit_price) {
''', '''bool Account::LimitSellAtQuote(const FeeConfig& fee_config,
                               const OhlcTick& ohlc_tick, float quote_amount,
                               float limit_price) {
  assert(limit_price > 0);
  assert(quote_amount >= 0);
  // Limit sell order can be executed only if the actual price jumps above
  // the limit order price.
  if (Floor(limit_price, quote_unit) > ohlc_tick.high()) {
''')], 'a quote-denominated limit sell whose price is off the quote grid and less than one quote unit above the high', 'the order fills although the tick never reached its price', ACC, HEAD + '''
int main() {
  Account a = Acc(10, 0, 0.1f, 1, 1, 0);
  FeeConfig f;
  EXPECT(!a.LimitSellAtQuote(f, Tick(90, 100.2f, 80, 95, 1), 200, 100.5f));
  return 0;
}
''')
seed('acc_volume_cap', 'C07', [(ACC, '''  base_amount = std::min(base_amount, GetMaxBaseAmount(ohlc_tick));
  return SellBase(fee_config, base_amount, limit_price);
''', '''  const float max_base_amount = GetMaxBaseAmount(ohlc_tick);
  if (max_base_amount >= base_unit) {
    base_amount = std::min(base_amount, max_base_amount);
  }
  return SellBase(fee_config, base_amount, limit_price);
''')], 'a limit sell on a tick whose volume share is less than one base unit', 'the order fills beyond the volume cap', ACC, HEAD + '''
int main() {
  Account a = Acc(10, 0, 0.1f, 1, 1, 0.01f);
  FeeConfig f;
  a.LimitSell(f, Tick(90, 100.2f, 80, 95, 1), 5, 95);
  EXPECT(a.base_balance == 10);
  return 0;
}
''')
seed('acc_fee_schedule', 'C09', [(ACC, '''        return StopSellAtQuote(account_config.stop_order_fee_config(),
                                 ohlc_tick, order.quote_amount(),
                                 order.price());
''', '''        return StopSellAtQuote(order.price() > ohlc_tick.open()
                                     ? account_config.market_order_fee_config()
                                     : account_config.stop_order_fee_config(),
                                 ohlc_tick, order.quote_amount(),
                                 order.price());
''')], 'a quote-denominated stop sell on a tick that opened below the stop, with different market and stop fees', 'the market fee schedule is charged for a stop order', ACC, HEAD + '''
int main() {
  Account a = Acc(10, 0, 0, 0, 1, 0);
  AccountConfig c; c.mutable_stop_order_fee_config()->set_fixed_fee(7);
  Order o; o.set_type(Order::STOP); o.set_side(Order::SELL); o.set_quote_amount(100); o.set_price(95);
  EXPECT(a.ExecuteOrder(c, o, Tick(90, 110, 80, 95, 1)));
  EXPECT(a.total_fee == 7);
  return 0;
}
''')
HH = '''
#include <cstdio>
#include <cmath>
#include <set>
#include "base/history.h"
#include "base/side_input.h"
using namespace trader;
static PriceRecord P(int64_t t, float p, float v) { PriceRecord r; r.set_timestamp_sec(t); r.set_price(p); r.set_volume(v); return r; }
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
seed('side_hint', 'C21', [('base/side_input.cc', '''  if (prev_side_input_index == timestamp_sec_history_.size() - 2 ||
      timestamp_sec < timestamp_sec_history_.at(prev_side_input_index + 2)) {
    return prev_side_input_index + 1;
  }
  return std::upper_bound(
             timestamp_sec_history_.begin() + prev_side_input_index + 2,
             timestamp_sec_history_.end(), timestamp_sec) -
         timestamp_sec_history_.begin() - 1;
''', '''  if (prev_side_input_index == timestamp_sec_history_.size() - 2 ||
      timestamp_sec < timestamp_sec_history_.at(prev_side_input_index + 2)) {
    return prev_side_input_index + 1;
  }
  const int last = timestamp_sec_history_.size() - 1;
  return std::upper_bound(
             timestamp_sec_history_.begin() + prev_side_input_index + 2,
             timestamp_sec_history_.begin() + std::min(last + 1, prev_side_input_index + 7), timestamp_sec) -
         timestamp_sec_history_.begin() - 1;
''')], 'a hinted lookup that skips more than six records', 'the hinted lookup returns a stale record', 'base/side_input.cc', HH + '''
int main() {
  SideHistory h;
  for (int i = 0; i < 12; ++i) { SideInputRecord r; r.set_timestamp_sec(100 + 10 * i); r.add_signal(i); h.push_back(r); }
  SideInput s(h);
  for (int hint = 0; hint < 12; ++hint)
    for (int t = 100 + 10 * hint; t < 250; ++t) EXPECT(s.GetSideInputIndex(t, hint) == s.GetSideInputIndex(t));
  return 0;
}
''')
seed('resample_volume', 'C24', [('base/history.cc', '''      ohlc_tick->set_high(std::max(ohlc_tick->high(), it->price()));
      ohlc_tick->set_low(std::min(ohlc_tick->low(), it->price()));
''', '''      if (it->price() > ohlc_tick->high()) {
        ohlc_tick->set_high(it->price());
      } else if (it->price() < ohlc_tick->low() &&
                 it->price() != ohlc_tick->close()) {
        ohlc_tick->set_low(std::min(ohlc_tick->open(), it->price()));
      } else if (it->volume() <= 0) {
        continue;
      }
''')], 'a zero-volume trade that is the last one of its period, within the price range', 'the closing price of the period is not its last price', 'base/history.cc', HH + '''
int main() {
  PriceHistory h{P(1000, 10, 1), P(1001, 20, 1), P(1002, 15, 0)};
  OhlcHistory o = Resample(h.begin(), h.end(), 100);
  EXPECT(o.size() == 1 && o[0].close() == 15);
  return 0;
}
''')
seed('outlier_lookahead', 'C25', [('base/history.cc', '''        if (jt->price() <= 0 || jt->volume() < 0) {
          continue;
        }
        if ((jumped_up''', '''        if (jt->price() <= 0 || jt->volume() <= 0) {
          continue;
        }
        if ((jumped_up''')], 'a persistent price jump whose confirming records have zero volume', 'a persistent jump is removed as an outlier', 'base/history.cc', HH + '''
int main() {
  PriceHistory h{P(1000, 10, 1), P(1060, 30, 1), P(1120, 30, 0), P(1180, 30, 0), P(1240, 30, 0)};
  PriceHistory c = RemoveOutliers(h.begin(), h.end(), 0.1f, nullptr);
  EXPECT(c.size() == 5);
  return 0;
}
''')
seed('context_last_n', 'C27', [('base/history.cc', '''    const size_t a = (j <= left_context_size) ? 0 : j - left_context_size;
''', '''    size_t a = (j <= left_context_size) ? 0 : j - left_context_size;
    if (!index_to_outlier.empty()) {
      a = std::max(a, index_to_outlier.rbegin()->first);
    }
''')], 'outlier indices that are not in increasing order with overlapping contexts', 'context indices left of an earlier outlier are missing', 'base/history.cc', HH + '''
int main() {
  auto m = GetOutlierIndicesWithContext({8, 3}, 20, 2, 2, 0);
  EXPECT(m.count(1) && m.count(2) && m.count(4));
  return 0;
}
''')
IH = '''
#include <cstdio>
#include <cmath>
#include "base/base.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/simple_moving_average.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/util.h"
using namespace trader;
static OhlcTick T(int64_t ts, float o, float h, float l, float c, float v) {
  OhlcTick t; t.set_timestamp_sec(ts); t.set_open(o); t.set_high(h); t.set_low(l); t.set_close(c); t.set_volume(v); return t;
}
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
INDS = 'indicators/util.cc indicators/last_n_ohlc_ticks.cc indicators/simple_moving_average.cc indicators/exponential_moving_average.cc'
seed('window_backfill', 'C28', [('indicators/last_n_ohlc_ticks.cc', '''    top_ohlc_tick->set_low(prev_close);
    top_ohlc_tick->set_close(prev_close);
    top_ohlc_tick->set_volume(0);
    NewOhlcTickAdded();
''', '''    top_ohlc_tick->set_low(prev_close);
    top_ohlc_tick->set_close(prev_close);
    top_ohlc_tick->set_volume(0);
    if (last_n_ohlc_ticks_.size() > num_ohlc_ticks_ + 1) {
      last_n_ohlc_ticks_.pop_front();
      continue;
    }
    NewOhlcTickAdded();
    if (num_ohlc_ticks_ == 1 && prev_close > ohlc_tick.high()) {
      last_n_ohlc_ticks_.back().set_open(ohlc_tick.high());
    }
''')], 'a window of one period and a gap into lower prices', 'the back-filled period is not flat at the previous close', INDS, IH + '''
int main() {
  LastNOhlcTicks w(1, 100);
  int flat = 1;
  w.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& o, const OhlcTick& t) { if (o.volume() == 0 && (o.open() != o.close())) flat = 0; });
  w.Update(T(100, 10, 12, 9, 11, 1));
  w.Update(T(350, 5, 6, 4, 5, 1));
  EXPECT(flat);
  return 0;
}
''')
seed('sma_in_period', 'C29', [('indicators/simple_moving_average.cc', '''        sum_close_price_ += new_ohlc_tick.close() - old_ohlc_tick.close();
''', '''        if (new_ohlc_tick.volume() > old_ohlc_tick.volume()) {
          sum_close_price_ += new_ohlc_tick.close() - old_ohlc_tick.close();
        }
''')], 'an in-period update with zero volume that changes the close', 'the average keeps the older close of that period', INDS, IH + '''
int main() {
  SimpleMovingAverage a(3, 100);
  a.Update(T(100, 10, 12, 9, 11, 1));
  a.Update(T(150, 11, 20, 9, 20, 0));
  EXPECT(a.GetSimpleMovingAverage() == 20);
  return 0;
}
''')
seed('ema_gap', 'C30', [('indicators/util.cc', '''    current_ema_ = weight * value + (1.0f - weight) * previous_ema_;
''', '''    current_ema_ = weight * value + (1.0f - weight) * previous_ema_;
    if (num_values_ == 2 && weight >= 1.0f) {
      current_ema_ = value + previous_ema_ - previous_ema_ * weight;
      previous_ema_ = current_ema_;
    }
''')], 'weight above 1 is possible for length 1 with smoothing above 2; here weight 1 (length 1) and several updates within the second period', 'the second period of the average drifts when it is updated repeatedly', INDS, IH + '''
int main() {
  ExponentialMovingAverage a(2.5f, 1, 100);   // weight 1.25
  a.Update(T(100, 10, 12, 9, 10, 1));
  a.Update(T(200, 11, 20, 9, 20, 0));
  a.Update(T(250, 11, 20, 9, 12, 0));
  EXPECT(std::fabs(a.GetExponentialMovingAverage() - (1.25f * 12 - 0.25f * 10)) < 1e-3);
  return 0;
}
''')
seed('minmax_expiry', 'C33', [('indicators/util.cc', '''  while (!window_.empty() && window_.back().first >= current_value_) {
''', '''  while (!window_.empty() && (window_.back().first >= current_value_ || (window_.size() > 1 && window_.front().first == window_.back().first - 1))) {
''')], 'two retained values in the window that differ by exactly one', 'a value that is still in the window is forgotten, so that the minimum is too large later', INDS, IH + '''
int main() {
  SlidingWindowMinimum m(4);
  m.AddNewValue(1); m.AddNewValue(2); m.AddNewValue(5); m.AddNewValue(9);
  EXPECT(m.GetSlidingWindowMinimum() == 1);
  m.AddNewValue(7);
  EXPECT(m.GetSlidingWindowMinimum() == 2);
  return 0;
}
''')

# ---------------------------------------------------------------- evaluation
EVS = 'eval/eval.cc base/account.cc base/side_input.cc base/history.cc util/time.cc indicators/util.cc indicators/last_n_ohlc_ticks.cc indicators/volatility.cc'
EH = '''
#include <cstdio>
#include <cmath>
#include <memory>
#include "eval/eval.h"
using namespace trader;
static OhlcTick T(int64_t ts, float o, float h, float l, float c, float v) {
  OhlcTick t; t.set_timestamp_sec(ts); t.set_open(o); t.set_high(h); t.set_low(l); t.set_close(c); t.set_volume(v); return t;
}
static AccountConfig Conf(float b, float q) {
  AccountConfig a; a.set_start_base_balance(b); a.set_start_quote_balance(q); a.set_base_unit(0.001f); a.set_quote_unit(0.01f); a.set_market_liquidity(1); a.set_max_volume_ratio(0); return a;
}
static Order O(Order::Type t, Order::Side s, float base, float price) {
  Order o; o.set_type(t); o.set_side(s); o.set_base_amount(base); if (price > 0) o.set_price(price); return o;
}
struct Script : Trader {
  std::vector<std::vector<Order>> plan; size_t calls = 0; std::vector<std::vector<float>> signals; std::vector<float> bases;
  void Update(const OhlcTick& t, const std::vector<float>& s, float b, float q, std::vector<Order>& orders) override {
    signals.push_back(s); bases.push_back(b);
    if (calls < plan.size()) for (const Order& o : plan[calls]) orders.push_back(o);
    ++calls;
  }
  std::string GetInternalState() const override { return "state"; }
};
struct Emit : TraderEmitter {
  std::vector<std::vector<Order>> plan;
  std::string GetName() const override { return "emit"; }
  std::unique_ptr<Trader> NewTrader() const override { std::unique_ptr<Script> s(new Script()); s->plan = plan; return s; }
};
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
EV = dict(allprotos=True, absl=True)
E = 'eval/eval.cc'
seed('eval_partial_cancel', 'C11', [(E, '''    for (const Order& order : orders) {
''', '''    const size_t num_orders =
        ohlc_tick.volume() > 0 ? orders.size() : std::min<size_t>(orders.size(), 2);
    for (size_t order_index = 0; order_index < num_orders; ++order_index) {
      const Order& order = orders[order_index];
''')], 'more than two pending orders at a gap tick', 'the third order is cancelled although the trader could not replace it', EVS, EH + '''
int main() {
  Script s;
  s.plan = {{O(Order::LIMIT, Order::BUY, 1, 2), O(Order::LIMIT, Order::BUY, 1, 3), O(Order::LIMIT, Order::BUY, 1, 9)}};
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(1300, 10, 10, 10, 10, 0), T(1600, 9, 10, 8, 9, 5)};
  const ExecutionResult r = ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, true, s, nullptr);
  EXPECT(r.total_executed_orders() == 1);
  return 0;
}
''', **EV)
seed('eval_gap_reset', 'C12', [(E, '''    if (ohlc_tick.volume() == 0) {
''', '''    if (ohlc_tick.volume() == 0 && ohlc_tick.low() == ohlc_tick.high()) {
''')], 'a zero-volume tick that is not flat (resampled data always is)', 'the trader is called on a gap tick and its pending orders are replaced', EVS, EH + '''
int main() {
  Script s;
  s.plan = {{O(Order::LIMIT, Order::BUY, 1, 5)}};
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(1300, 8, 10, 8, 10, 0), T(1600, 8, 10, 4, 9, 5)};
  const ExecutionResult r = ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, true, s, nullptr);
  EXPECT(r.total_executed_orders() == 1);
  EXPECT(s.calls == 2);
  return 0;
}
''', **EV)
seed('eval_orders_cap', 'C12', [(E, '''      // emitted orders.
      continue;
''', '''      // emitted orders.
      if (orders.size() > kEmittedOrdersReserve) {
        orders.erase(orders.begin() + kEmittedOrdersReserve, orders.end());
      }
      continue;
''')], 'more than eight pending orders that survive a gap tick', 'the ninth and later pending orders are silently cancelled on a gap tick', EVS, EH + '''
int main() {
  Script s;
  std::vector<Order> many;
  for (int i = 0; i < 10; ++i) many.push_back(O(Order::LIMIT, Order::BUY, 1, 5));
  s.plan = {many};
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(1300, 10, 10, 10, 10, 0), T(1600, 8, 10, 4, 9, 5)};
  const ExecutionResult r = ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, true, s, nullptr);
  EXPECT(r.total_executed_orders() == 10);
  return 0;
}
''', **EV)
seed('eval_vol_gap', 'C55', [(E, '''      // emitted orders.
      continue;
''', '''      // emitted orders.
      if (!fast_eval && ohlc_tick.high() > ohlc_tick.low()) {
        base_volatility.Update(ohlc_tick, /*base_balance=*/1.0f,
                               /*quote_balance=*/0.0f);
      }
      continue;
''')], 'a zero-volume tick that is not flat, between two days', 'the base volatility counts a tick without trades that the trader volatility leaves out', EVS, EH + '''
int main() {
  Script s;
  OhlcHistory h = {T(86400, 10, 10, 10, 10, 1), T(2 * 86400, 10, 20, 5, 20, 0), T(4 * 86400, 10, 10, 10, 10, 1)};
  const ExecutionResult r = ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, false, s, nullptr);
  EXPECT(r.base_volatility() == 0);
  return 0;
}
''', **EV)
seed('eval_vol_first', 'C55', [(E, '''      trader_volatility.Update(ohlc_tick, account.base_balance,
                               account.quote_balance);
''', '''      if (total_executed_orders > 0 || account.base_balance > 0) {
        trader_volatility.Update(ohlc_tick, account.base_balance,
                                 account.quote_balance);
      }
''')], 'a trader that holds only quote currency until its first fill', 'the days before the first fill are left out of the trader volatility', EVS, EH + '''
int main() {
  Script s;
  s.plan = {{}, {}, {}, {O(Order::MARKET, Order::BUY, 10, 0)}};
  OhlcHistory h;
  for (int i = 1; i <= 6; ++i) h.push_back(T(86400 * i, 10, 10, 10, 10, 1));
  h.push_back(T(86400 * 7, 10, 40, 10, 40, 1));
  const ExecutionResult r = ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, false, s, nullptr);
  std::printf("%f\\n", r.trader_volatility());
  const double x = std::log(1300.0 / 1000.0), n = 7, want = std::sqrt(365 * (x * x / n - x * x / n / n));
  EXPECT(std::fabs(r.trader_volatility() - want) < 1e-2 * want);
  return 0;
}
''', **EV)
# ---------------------------------------------------------------- traders
TRS = 'traders/rebalancing_trader.cc traders/stop_trader.cc traders/trader_factory.cc'
TH = EH.replace('#include "eval/eval.h"', '#include "traders/rebalancing_trader.h"\n#include "traders/stop_trader.h"\n#include "base/trader.h"').split('static AccountConfig Conf')[0] + '''
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
R = 'traders/rebalancing_trader.cc'
ST = 'traders/stop_trader.cc'
seed('reb_skewed', 'C37', [(R, '''        ((1 - alpha) * portfolio_value - quote_balance) / price;
''', '''        (base_balance * price - std::max(alpha, 1 - 4 * epsilon * alpha) * portfolio_value) / price;
''')], 'a small alpha and epsilon, where 1 - 4 * epsilon * alpha exceeds alpha', 'the sell does not restore the share alpha', TRS, TH + '''
int main() {
  RebalancingTraderConfig c; c.set_alpha(0.5f); c.set_epsilon(0.1f);
  RebalancingTrader t(c);
  std::vector<Order> o;
  t.Update(T(1000, 10, 10, 10, 10, 1), {}, 9, 10, o);
  EXPECT(o.size() == 1 && std::fabs(o[0].base_amount() - 4) < 1e-4);
  return 0;
}
''', **EV)
seed('reb_edge', 'C38', [(R, '''      if (sell_price > price && sell_price < 100.0f * price) {
        const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
''', '''      if (sell_price > price && sell_price < 100.0f * price) {
        const float sell_base_amount =
            base_balance * epsilon / (1 + std::max(epsilon, 0.02f));
''')], 'epsilon below 2%', 'the limit sell amount is too small to restore the share', TRS, TH + '''
int main() {
  RebalancingTraderConfig c; c.set_alpha(0.5f); c.set_epsilon(0.001f);
  RebalancingTrader t(c);
  std::vector<Order> o;
  t.Update(T(1000, 10, 10, 10, 10, 1), {}, 100000, 1000000, o);
  EXPECT(o.size() == 2);
  EXPECT(std::fabs(o[0].base_amount() - 100000 * 0.001f / 1.001f) < 0.1f);
  return 0;
}
''', **EV)
seed('reb_cover', 'C39', [(ST, '''    order.set_quote_amount(last_quote_balance_);
''', '''    order.set_quote_amount(std::max(last_quote_balance_, 0.01f));
''')], 'a trader left with less than 0.01 quote currency in cash mode', 'a buy order asks for more than the trader holds', TRS, TH + '''
int main() {
  StopTraderConfig c; c.set_stop_order_margin(0.1f); c.set_stop_order_move_margin(0.1f); c.set_stop_order_increase_per_day(0.01f); c.set_stop_order_decrease_per_day(0.01f);
  StopTrader t(c);
  std::vector<Order> o;
  t.Update(T(1000, 10, 10, 10, 10, 1), {}, 0, 0.001f, o);
  EXPECT(o.size() == 1 && o[0].quote_amount() <= 0.001f);
  return 0;
}
''', **EV)
seed('stop_mode_gap', 'C40', [(ST, '''  if (timestamp_sec >= last_timestamp_sec_ + max_allowed_gap_sec_ ||
      mode != mode_) {
''', '''  if ((timestamp_sec >= last_timestamp_sec_ + max_allowed_gap_sec_ &&
       price != last_close_) ||
      mode != mode_) {
''')], 'a gap of an hour or more over which the close did not change', 'the stop price is not reset after the gap', TRS, TH + '''
int main() {
  StopTraderConfig c; c.set_stop_order_margin(0.1f); c.set_stop_order_move_margin(0.05f); c.set_stop_order_increase_per_day(0.5f); c.set_stop_order_decrease_per_day(0.5f);
  StopTrader t(c);
  std::vector<Order> o;
  t.Update(T(1000000, 10, 10, 10, 10, 1), {}, 10, 0, o);
  t.Update(T(1080000, 10, 10, 10, 10, 1), {}, 10, 0, o);
  EXPECT(o.size() == 2 && std::fabs(o[1].price() - 9) < 1e-4);
  return 0;
}
''', **EV)
seed('stop_long_tick', 'C41', [(ST, '''  const float sampling_rate_sec = std::min(static_cast<int64_t>(kSecondsPerDay),
                                           timestamp_sec - last_timestamp_sec_);
''', '''  const float sampling_rate_sec =
      std::max<int64_t>(60, std::min(static_cast<int64_t>(kSecondsPerDay),
                                     timestamp_sec - last_timestamp_sec_));
''')], 'ticks less than a minute apart', 'the stop price moves faster than the configured daily limit', TRS, TH + '''
int main() {
  StopTraderConfig c; c.set_stop_order_margin(0.1f); c.set_stop_order_move_margin(0.01f); c.set_stop_order_increase_per_day(0.5f); c.set_stop_order_decrease_per_day(0.5f);
  StopTrader t(c);
  std::vector<Order> o;
  t.Update(T(1000000, 10, 10, 10, 10, 1), {}, 10, 0, o);
  for (int i = 1; i <= 100; ++i) t.Update(T(1000000 + i, 10, 10, 10, 10, 1), {}, 10, 0, o);
  EXPECT(o.back().price() < 9 * std::pow(1.5, 101.0 / 86400) * 1.0001);
  return 0;
}
''', **EV)
seed('batch_shared', 'C42', [(ST, '''          trader_config.set_stop_order_increase_per_day(
              stop_order_increase_per_day);
''', '''          trader_config.set_stop_order_increase_per_day(
              stop_order_increase_per_day > stop_order_move_margin
                  ? stop_order_increase_per_day
                  : stop_order_move_margin);
''')], 'a daily increase smaller than the move margin in the grid', 'a trader of the batch does not have its combination of values', TRS, TH + '''
int main() {
  const auto b = StopTraderEmitter::GetBatchOfTraders({0.1f}, {0.2f}, {0.05f}, {0.3f});
  EXPECT(b.size() == 1 && b[0]->GetName() == "stop-trader[0.100|0.200|0.050|0.300]");
  return 0;
}
''', **EV)
# ---------------------------------------------------------------- utilities and tools
seed('csv_free', 'C43', [('logging/csv_logger.cc', '''      order.price() > 0 ? absl::StrFormat("%.3f", order.price()) : "");
''', '''      order.price() > 0 && order.type() != Order::MARKET
          ? absl::StrFormat("%.3f", order.price())
          : "");
''')], 'a market order with a price', 'the price column is empty although the order has a price', 'logging/csv_logger.cc', '''
#include <cstdio>
#include <sstream>
#include "logging/csv_logger.h"
using namespace trader;
int main() {
  std::ostringstream os;
  CsvLogger l(&os, nullptr);
  OhlcTick t; t.set_timestamp_sec(1); t.set_open(1); t.set_high(1); t.set_low(1); t.set_close(1); t.set_volume(1);
  Account a;
  Order o; o.set_type(Order::MARKET); o.set_side(Order::BUY); o.set_base_amount(1); o.set_price(5);
  l.LogExchangeState(t, a, o);
  if (os.str().find(",MARKET,BUY,1.000,,5.000") == std::string::npos) { std::printf("%s", os.str().c_str()); return 1; }
  return 0;
}
''', absl=True)
seed('months_floor', 'C47', [('util/time.cc', '''      absl::CivilSecond(cs.year(), cs.month() + months, cs.day(),  // nowrap
''', '''      absl::CivilSecond(cs.year() + months / 12, cs.month() + months % 12, std::min(cs.day(), months < -12 ? 28 : 31),  // nowrap
''')], 'going back by more than a year from a day after the 28th', 'the day changes although it exists in the target month', 'util/time.cc', '''
#include <cstdio>
#include "util/time.h"
int main() {
  // 2018-03-31 minus 14 months: 2017-01-31
  if (trader::AddMonthsToTimestampSec(1522454400, -14) != 1485820800) { std::printf("FAILED\\n"); return 1; }
  return 0;
}
''', absl=True)
seed('time_zone', 'C48', [('util/time.cc', '''  for (size_t i = 0; i < kNumberOfAllowedTimeFormats; ++i) {
''', '''  for (size_t i = datetime.size() > 25 ? 1 : 0; i < kNumberOfAllowedTimeFormats; ++i) {
''')], 'an RFC 3339 time with surrounding blanks', 'an accepted format is refused', 'util/time.cc', '''
#include <cstdio>
#include "util/time.h"
int main() {
  if (!trader::ParseTime(" 2017-01-01T00:00:00+00:00 ").ok()) { std::printf("FAILED\\n"); return 1; }
  return 0;
}
''', absl=True)
seed('eval_end_price', 'C13', [(E, '''  result.set_end_price((--ohlc_history_end)->close());
''', '''  --ohlc_history_end;
  while (ohlc_history_end != ohlc_history_begin &&
         ohlc_history_end->volume() == 0) {
    --ohlc_history_end;
  }
  result.set_end_price(ohlc_history_end->close());
''')], 'a history whose last tick has zero volume and another close', 'the end price and value are those of an earlier tick', EVS, EH + '''
int main() {
  Script s;
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(1300, 10, 10, 7, 7, 0)};
  const ExecutionResult r = ExecuteTrader(Conf(2, 5), h.begin(), h.end(), nullptr, true, s, nullptr);
  EXPECT(r.end_price() == 7 && r.end_value() == 19);
  return 0;
}
''', **EV)
seed('eval_side_age', 'C14', [(E, '''        side_input_signals.push_back(ohlc_tick.timestamp_sec() -
                                     side_input_timestamp_sec);
''', '''        side_input_signals.push_back(static_cast<int>(
            ohlc_tick.timestamp_sec() - side_input_timestamp_sec));
''')], 'side input older than 2^31 seconds', 'the age given to the trader wraps around', EVS, EH + '''
int main() {
  Script s;
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(3000000900, 10, 10, 10, 10, 1)};
  SideHistory side(1);
  side[0].set_timestamp_sec(900); side[0].add_signal(5);
  const SideInput in(side);
  ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), &in, true, s, nullptr);
  EXPECT(s.signals.size() == 2 && s.signals[1].size() == 2 && s.signals[1][1] == 3000000000.0f);
  return 0;
}
''', **EV)
seed('eval_fast_orders', 'C15', [(E, '''      if (success) {
        ++total_executed_orders;
''', '''      if (success) {
        if (!fast_eval || ohlc_tick.volume() > 0) {
          ++total_executed_orders;
        }
''')], 'fast evaluation and an order executed on a zero-volume tick', 'fast and full evaluation count executed orders differently', EVS, EH + '''
int main() {
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(1300, 8, 10, 8, 10, 0), T(1600, 10, 10, 10, 9, 5)};
  int n[2];
  for (int fast = 0; fast < 2; ++fast) {
    Script s;
    s.plan = {{O(Order::LIMIT, Order::BUY, 1, 9)}};
    n[fast] = ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, fast, s, nullptr).total_executed_orders();
  }
  EXPECT(n[0] == n[1]);
  return 0;
}
''', **EV)
seed('eval_window_drift', 'C17', [(E, '''    const int64_t start_eval_timestamp_sec = AddMonthsToTimestampSec(
        eval_config.start_timestamp_sec(), month_offset);
''', '''    const int64_t start_eval_timestamp_sec =
        month_offset > 0 && !eval_result.period().empty()
            ? AddMonthsToTimestampSec(
                  eval_result.period(eval_result.period_size() - 1)
                      .start_timestamp_sec(),
                  month_offset - eval_result.period_size() + 1)
            : AddMonthsToTimestampSec(eval_config.start_timestamp_sec(),
                                      month_offset);
''')], 'windows before which a window without ticks was skipped', 'the windows after an empty one are shifted', EVS, EH + '''
int main() {
  EvaluationConfig e;
  e.set_start_timestamp_sec(1483228800); e.set_end_timestamp_sec(1498867200);   // 2017-01-01 .. 2017-07-01
  e.set_evaluation_period_months(1); e.set_fast_eval(true);
  // ticks in Feb, Mar (nothing in Jan), Apr, May
  OhlcHistory h = {T(1486000000, 10, 10, 10, 10, 1), T(1489000000, 10, 10, 10, 10, 1), T(1491500000, 10, 10, 10, 10, 1), T(1494000000, 10, 10, 10, 10, 1)};
  Emit m;
  const EvaluationResult r = EvaluateTrader(Conf(1, 10), e, h, nullptr, m, nullptr);
  EXPECT(r.period_size() == 4);
  EXPECT(r.period(1).start_timestamp_sec() == 1488326400 && r.period(2).start_timestamp_sec() == 1491004800 && r.period(3).start_timestamp_sec() == 1493596800);
  return 0;
}
''', **EV)
seed('eval_score_float', 'C18', [(E, '''  double mul = 1;
  for (const auto& element : container) {
    mul *= selector(element);
  }
''', '''  double mul = 1;
  for (const auto& element : container) {
    mul *= selector(element);
    mul = std::max(mul, 1.0e-3);
  }
''')], 'periods that lose more than 99.9% relative to the base', 'the score is not the geometric mean of the period scores', EVS, EH + '''
int main() {
  EvaluationConfig e;
  e.set_start_timestamp_sec(1483228800); e.set_end_timestamp_sec(1485907200); e.set_fast_eval(true);
  OhlcHistory h = {T(1483300000, 1, 1, 1, 1, 1), T(1483400000, 10000, 10000, 10000, 10000, 1)};
  Emit m;
  const EvaluationResult r = EvaluateTrader(Conf(0, 10), e, h, nullptr, m, nullptr);
  EXPECT(std::fabs(r.score() - 1e-4f) < 1e-6f);
  return 0;
}
''', **EV)
seed('eval_batch_order', 'C19', [(E, '''  for (auto& eval_result_future : eval_result_futures) {
    eval_results.emplace_back(eval_result_future.get());
  }
''', '''  for (auto& eval_result_future : eval_result_futures) {
    EvaluationResult eval_result = eval_result_future.get();
    if (!eval_results.empty() && eval_result.name() == eval_results.back().name()) {
      eval_result = eval_results.back();
    }
    eval_results.push_back(std::move(eval_result));
  }
''')], 'two different traders with the same name (names are printed with three decimals)', 'the second trader gets the result of the first', EVS, EH + '''
struct Two : Emit { std::string GetName() const override { return "same"; } };
int main() {
  EvaluationConfig e;
  e.set_start_timestamp_sec(1483228800); e.set_end_timestamp_sec(1485907200); e.set_fast_eval(true);
  OhlcHistory h = {T(1483300000, 1, 1, 1, 1, 1), T(1483400000, 2, 2, 2, 2, 1)};
  std::vector<std::unique_ptr<TraderEmitter>> v;
  Two* a = new Two(); Two* b = new Two();
  b->plan = {{O(Order::MARKET, Order::BUY, 3, 0)}};
  v.emplace_back(a); v.emplace_back(b);
  const std::vector<EvaluationResult> r = EvaluateBatchOfTraders(Conf(0, 10), e, h, nullptr, v);
  EXPECT(r.size() == 2 && r[0].avg_total_executed_orders() == 0 && r[1].avg_total_executed_orders() == 1);
  return 0;
}
''', **EV)
seed('eval_log_gap', 'C16', [(E, '''        if (logger != nullptr) {
          logger->LogExchangeState(ohlc_tick, account, order);
        }
''', '''        if (logger != nullptr && (ohlc_tick.volume() > 0 || orders.size() > 1)) {
          logger->LogExchangeState(ohlc_tick, account, order);
        }
''')], 'the only pending order executes on a tick with zero volume', 'the executed order is missing in the log', EVS, EH + '''
struct Log : Logger {
  int n = 0;
  void LogExchangeState(const OhlcTick&, const Account&) override {}
  void LogExchangeState(const OhlcTick&, const Account&, const Order&) override { ++n; }
  void LogTraderState(absl::string_view x) override {}
};
int main() {
  Script s;
  s.plan = {{O(Order::MARKET, Order::BUY, 1, 0)}};
  OhlcHistory h = {T(1000, 10, 10, 10, 10, 1), T(1300, 8, 10, 8, 10, 0), T(1600, 10, 10, 10, 9, 5)};
  Log l;
  ExecuteTrader(Conf(0, 1000), h.begin(), h.end(), nullptr, true, s, &l);
  EXPECT(l.n == 1);
  return 0;
}
''', **EV)
# ---------------------------------------------------------------- histories
seed('side_far', 'C21', [('base/side_input.cc', '''      timestamp_sec < timestamp_sec_history_.at(prev_side_input_index + 2)) {
''', '''      static_cast<int>(timestamp_sec - timestamp_sec_history_.at(
                                           prev_side_input_index + 2)) < 0) {
''')], 'a lookup with a hint more than 2^31 seconds after the second next record', 'an older record is returned', 'base/side_input.cc', '''
#include <cstdio>
#include "base/side_input.h"
using namespace trader;
int main() {
  SideHistory h(4);
  for (int i = 0; i < 4; ++i) { h[i].set_timestamp_sec(10 * (i + 1)); h[i].add_signal(i); }
  const SideInput s(h);
  if (s.GetSideInputIndex(3000000000LL, 0) != 3) { std::printf("FAILED\\n"); return 1; }
  return 0;
}
''')
seed('gaps_ties', 'C26', [('base/history.cc', '''    return length_delta > 0 || (length_delta == 0 && lhs.first < rhs.first);
''', '''    return static_cast<int>(length_delta) > 0 ||
           (length_delta == 0 && lhs.first < rhs.first);
''')], 'gaps whose lengths differ by more than 2^31 seconds', 'a smaller gap is listed instead of the largest', 'base/history.cc', '''
#include <cstdio>
#include "base/history.h"
using namespace trader;
int main() {
  PriceHistory h(3);
  h[0].set_timestamp_sec(100); h[1].set_timestamp_sec(4000000000LL); h[2].set_timestamp_sec(4000001000LL);
  const std::vector<HistoryGap> g = GetPriceHistoryGaps(h.begin(), h.end(), 0, 0, 1);
  if (g.size() != 1 || g[0].first != 100) { std::printf("FAILED\\n"); return 1; }
  return 0;
}
''')
# ---------------------------------------------------------------- indicators
IA = INDS + ' indicators/relative_strength_index.cc indicators/stochastic_oscillator.cc indicators/volatility.cc'
seed('rsi_scale', 'C31', [('indicators/relative_strength_index.cc', '''  if (downward_change_mma < upward_change_mma * 1.0e-6f) {
''', '''  if (downward_change_mma < 1.0e-6f) {
''')], 'prices so small that every change is below 1e-6 on the way down but not on the way up', 'the index is 100 although there were losses', IA, IH + '''
#include "indicators/relative_strength_index.h"
int main() {
  RelativeStrengthIndex r(10, 100);
  r.Update(T(100, 4e-6f, 4e-6f, 4e-6f, 4e-6f, 1));
  r.Update(T(200, 4e-6f, 8e-6f, 4e-6f, 8e-6f, 1));
  r.Update(T(300, 8e-6f, 8e-6f, 6e-6f, 6e-6f, 1));
  EXPECT(r.GetRelativeStrengthIndex() < 90);
  return 0;
}
''')
seed('so_span', 'C32', [('indicators/stochastic_oscillator.cc', '''  latest_k_ = 100.0f * (latest_price - price_min) / price_span;
''', '''  latest_k_ = std::min(100.0f, 100.0f * (latest_price - price_min) / price_span);
  if (latest_k_ == 100.0f && num_ohlc_ticks_ == 1 && price_min * 2 < price_max) {
    latest_k_ = 50;
  }
''')], 'a first period that closes at its high, more than twice its low', 'the oscillator is 50 instead of 100', IA, IH + '''
#include "indicators/stochastic_oscillator.h"
int main() {
  StochasticOscillator s(5, 100);
  s.Update(T(100, 10, 30, 10, 30, 1));
  EXPECT(std::fabs(s.GetK() - 100) < 1e-3);
  return 0;
}
''')
seed('var_pop', 'C34', [('indicators/util.cc', '''  if (window_.size() >= window_size_) {
    const float popped_value = window_.front();
    window_sum_ -= popped_value;
''', '''  if (window_.size() >= window_size_) {
    const float popped_value = window_size_ == 2 ? window_.back() : window_.front();
    window_sum_ -= window_.size() == 2 ? window_.front() : popped_value;
''')], 'a window of two values or more, after it is full', 'the sum of squares or the sum keeps a wrong value', IA, IH + '''
int main() {
  for (int w = 2; w < 5; ++w) {
    SlidingWindowMeanAndVariance s(w);
    float v[8] = {1, 5, 2, 9, 4, 4, 7, 3};
    for (int i = 0; i < 8; ++i) {
      s.AddNewValue(v[i]);
      float m = 0; int n = 0;
      for (int k = i; k >= 0 && n < w; --k, ++n) m += v[k];
      EXPECT(std::fabs(s.GetMean() - m / n) < 1e-4);
      float q = 0; n = 0;
      for (int k = i; k >= 0 && n < w; --k, ++n) q += v[k] * v[k];
      EXPECT(std::fabs(s.GetVariance() - (q / n - m * m / n / n)) < 1e-3);
    }
  }
  return 0;
}
''')
seed('vol_inperiod', 'C35', [('indicators/volatility.cc', '''        portfolio_value_.back() = latest_base_balance_ * new_ohlc_tick.close() +
                                  latest_quote_balance_;
''', '''        if (new_ohlc_tick.volume() > old_ohlc_tick.volume()) {
          portfolio_value_.back() =
              latest_base_balance_ * new_ohlc_tick.close() +
              latest_quote_balance_;
        }
''')], 'an update within a period by a tick without volume', 'the return of the period ignores the latest close', IA, IH + '''
#include "indicators/volatility.h"
int main() {
  Volatility a(0, 100), b(0, 100);
  a.Update(T(100, 10, 10, 10, 10, 1), 1, 0);
  a.Update(T(200, 10, 12, 10, 12, 1), 1, 0);
  a.Update(T(250, 12, 20, 12, 20, 0), 1, 0);
  b.Update(T(100, 10, 10, 10, 10, 1), 1, 0);
  b.Update(T(200, 10, 20, 10, 20, 1), 1, 0);
  EXPECT(std::fabs(a.GetVolatility() - b.GetVolatility()) < 1e-5);
  return 0;
}
''')

CVS = 'base/history.cc util/time.cc'
CH = '''
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <string>
#define main convert_main
#include "convert.cc"
#undef main
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\\n", #c); return 1; } } while (0)
static void Put(const char* f, const std::string& t) { std::ofstream(f) << t; }
static absl::Time At(int64_t s) { return absl::FromUnixSeconds(s); }
'''
CVK = dict(absl=True)
seed('csv_back', 'C44', [('convert.cc', '''    if (timestamp_sec <= 0 || timestamp_sec < timestamp_sec_prev) {
      return absl::InvalidArgumentError(
          absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
    }
    if (!(open''', '''    if (timestamp_sec <= 0 ||
        (row > 2 && timestamp_sec < timestamp_sec_prev)) {
      return absl::InvalidArgumentError(
          absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
    }
    if (!(open''')], 'an OHLC file whose second row is earlier than its first', 'rows out of order are loaded', CVS, CH + '''
using namespace trader;
int main() {
  Put("h.csv", "2000,1,2,1,2,1\\n1000,1,2,1,2,1\\n");
  EXPECT(!ReadOhlcHistoryFromCsvFile("h.csv", At(0), At(0)).ok());
  return 0;
}
''', **CVK)
seed('bin_prev', 'C45', [('convert.cc', '''        timestamp_sec_prev = timestamp_sec;
        history.push_back(message);
''', '''        if (record_index > 0 || message.has_volume()) {
          timestamp_sec_prev = timestamp_sec;
        }
        history.push_back(message);
''')], 'a first record without a volume field, followed by an earlier record', 'records out of order are loaded', CVS, CH + '''
using namespace trader;
int main() {
  PriceHistory h(2);
  h[0].set_timestamp_sec(2000); h[0].set_price(1);
  h[1].set_timestamp_sec(1000); h[1].set_price(1);
  EXPECT(WriteDelimitedMessagesToFile(h.begin(), h.end(), "h.bin", false).ok());
  EXPECT(!ReadPriceHistoryFromDelimitedProtoFile("h.bin", At(0), At(0)).ok());
  return 0;
}
''', **CVK)
seed('proto_break', 'C46', [('util/proto.h', '''        return absl::OkStatus();
    }
  }
  return absl::OkStatus();
''', '''        if (message.ByteSizeLong() > 0) {
          return absl::OkStatus();
        }
        break;
    }
  }
  return absl::OkStatus();
''')], 'a consumer that stops at an empty message', 'reading goes on after the consumer asked to stop', CVS, CH + '''
using namespace trader;
int main() {
  PriceHistory h(3);
  h[0].set_timestamp_sec(1); h[2].set_timestamp_sec(3);
  EXPECT(WriteDelimitedMessagesToFile(h.begin(), h.end(), "h.bin", false).ok());
  int n = 0;
  EXPECT(ReadDelimitedMessagesFromFile<PriceRecord>("h.bin", [&n](const PriceRecord&) -> ReaderStatus { return ++n == 2 ? ReaderSignal::kBreak : ReaderSignal::kContinue; }).ok());
  EXPECT(n == 2);
  return 0;
}
''', **CVK)
seed('proto_reuse', 'C49', [('util/proto.h', '''  while (true) {
    T message;
    bool clean_eof;
''', '''  T message;
  while (true) {
    bool clean_eof;
''')], 'a record that lacks a field (or has fewer signals) after one that has it', 'the parser merges into the message before', CVS, CH + '''
using namespace trader;
int main() {
  SideHistory h(2);
  h[0].set_timestamp_sec(1); h[0].add_signal(1);
  h[1].set_timestamp_sec(2); h[1].add_signal(2);
  EXPECT(WriteDelimitedMessagesToFile(h.begin(), h.end(), "h.bin", true).ok());
  SideHistory g;
  EXPECT(ReadDelimitedMessagesFromFile<SideInputRecord>("h.bin", g).ok());
  EXPECT(g.size() == 2 && g[1].signal_size() == 1);
  return 0;
}
''', **CVK)
seed('convert_clean', 'C50', [('convert.cc', '''      Resample(price_history_clean.begin(), price_history_clean.end(),
''', '''      Resample(outlier_indices.size() > 1 ? price_history_clean.begin()
                                          : price_history.begin(),
               outlier_indices.size() > 1 ? price_history_clean.end()
                                          : price_history.end(),
''')], 'a price history with exactly one outlier', 'the outlier gets into the resampled history', CVS, CH + '''
using namespace trader;
int main() {
  Put("p.csv", "1000,10,1\\n1060,1000,1\\n1120,10,1\\n1180,10,1\\n");
  absl::SetFlag(&FLAGS_input_price_history_csv_file, std::string("p.csv"));
  absl::SetFlag(&FLAGS_output_ohlc_history_delimited_proto_file, std::string("o.bin"));
  absl::SetFlag(&FLAGS_start_time, std::string("1970-01-01"));
  static char name[] = "convert";
  static char* argv[] = {name, nullptr};
  EXPECT(convert_main(1, argv) == 0);
  OhlcHistory o;
  EXPECT(ReadDelimitedMessagesFromFile<OhlcTick>("o.bin", o).ok());
  EXPECT(!o.empty());
  for (const OhlcTick& t : o) EXPECT(t.high() < 100);
  return 0;
}
''', **CVK)
seed('trader_period', 'C51', [('trader.cc', '''  const std::vector<T> history_subset = HistorySubsetCopy<T>(
      history, absl::ToUnixSeconds(start_time), absl::ToUnixSeconds(end_time));
''', '''  const std::vector<T> history_subset = HistorySubsetCopy<T>(
      history, absl::ToUnixSeconds(start_time),
      history.size() > 1 ? absl::ToUnixSeconds(end_time) : 0);
''')], 'a history file with a single record after the end of the period', 'a record outside of the period is evaluated', EVS + ' logging/csv_logger.cc traders/rebalancing_trader.cc traders/stop_trader.cc traders/trader_factory.cc', '''
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <string>
#define main trader_main
#include "trader.cc"
#undef main
#include "util/proto.h"
using namespace trader;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\\n", #c); return 1; } } while (0)
int main() {
  OhlcHistory h(1);
  h[0].set_timestamp_sec(4000000000LL); h[0].set_open(1); h[0].set_high(1); h[0].set_low(1); h[0].set_close(1); h[0].set_volume(1);
  EXPECT(WriteDelimitedMessagesToFile(h.begin(), h.end(), "h.bin", true).ok());
  const absl::StatusOr<OhlcHistory> r = ReadHistory<OhlcTick>("h.bin", absl::FromUnixSeconds(1000), absl::FromUnixSeconds(2000));
  EXPECT(r.ok() && r.value().empty());
  return 0;
}
''', allprotos=True, absl=True)
seed('report_days', 'C52', [('convert.cc', '''  const int64_t hours = duration_sec / 3600;
''', '''  const int64_t hours = (duration_sec / 3600) % 1000;
''')], 'a gap of more than 1000 hours', 'the printed duration is too short', CVS, CH + '''
using namespace trader;
int main() {
  EXPECT(DurationToString(3600LL * 2000 + 61) == "2000:01:01");
  return 0;
}
''', **CVK)
seed('subset_dup', 'C22', [('base/base.h', '''          ? std::lower_bound(history.begin(), history.end(),
                             start_timestamp_sec, record_compare)
''', '''          ? [&] {
              // The record at the start time, or else the first one after it.
              const auto it = std::upper_bound(
                  history.begin(), history.end(), start_timestamp_sec,
                  [](int64_t timestamp_sec, const T& record) {
                    return timestamp_sec < record.timestamp_sec();
                  });
              return it != history.begin() &&
                             std::prev(it)->timestamp_sec() ==
                                 start_timestamp_sec
                         ? std::prev(it)
                         : it;
            }()
''')], 'two records exactly at the start time', 'only the last one is selected', '', '''
#include <cstdio>
#include "base/base.h"
using namespace trader;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
int main() {
  PriceHistory h(6);
  for (int i = 0; i < 6; ++i) h[i].set_timestamp_sec(100 * (i / 2 + 1));
  for (int s = 50; s < 800; s += 50)
    for (int e = s; e < 800; e += 50) {
      size_t n = 0;
      for (const PriceRecord& r : h) n += r.timestamp_sec() >= s && r.timestamp_sec() < e;
      EXPECT(HistorySubsetCopy<PriceRecord>(h, s, e).size() == n);
    }
  return 0;
}
''')
seed('resample_gap', 'C23', [('base/history.cc', '''           resampled_ohlc_history.back().timestamp_sec() + sampling_rate_sec <
               downsampled_timestamp_sec) {
      const int64_t prev''', '''           resampled_ohlc_history.back().timestamp_sec() + sampling_rate_sec <
               downsampled_timestamp_sec &&
           downsampled_timestamp_sec -
                   resampled_ohlc_history.back().timestamp_sec() <=
               3 * 86400) {
      const int64_t prev''')], 'a gap of more than three days', 'the gap is not filled', 'base/history.cc', HH + '''
int main() {
  PriceHistory h = {P(86400 * 10, 1, 1), P(86400 * 15, 2, 1)};
  const OhlcHistory o = Resample(h.begin(), h.end(), 86400);
  EXPECT(o.size() == 6);
  return 0;
}
''')
seed('acc_total_fee', 'C03', [(ACC, '''  base_balance = Round(base_balance - base_amount, base_unit);
  quote_balance = Round(quote_balance + total_quote_amount, quote_unit);
  total_fee = Round(total_fee + quote_fee, quote_unit);
''', '''  base_balance = Round(base_balance - base_amount, base_unit);
  quote_balance = Round(quote_balance + total_quote_amount, quote_unit);
  total_fee =
      Round(total_fee + std::min(quote_fee, total_quote_amount), quote_unit);
''')], 'a sell whose fee is more than half of its value', 'the accumulated fee rises by less than what was charged', ACC, HEAD + '''
int main() {
  Account a = Acc(10, 0, 1, 1, 1, 0);
  FeeConfig f; f.set_minimum_fee(80);
  EXPECT(a.SellBase(f, 1, 100));
  EXPECT(a.total_fee == 80 && a.quote_balance == 20);
  return 0;
}
''')
seed('acc_sell_quote_round', 'C08', [(ACC, '''  const float base_amount = Floor(
      std::min((quote_amount + quote_fee) / price, max_base_amount), base_unit);
''', '''  const float base_amount =
      quote_fee >= quote_unit * 8
          ? Round(std::min((quote_amount + quote_fee) / price, max_base_amount),
                  base_unit)
          : Floor(std::min((quote_amount + quote_fee) / price, max_base_amount),
                  base_unit);
''')], 'a sell for a quote amount with a high fee, where the base amount is rounded up', 'the sell pays out more than was asked for', ACC, HEAD + '''
int main() {
  Account a = Acc(10, 0, 1, 1, 1, 0);
  FeeConfig f; f.set_minimum_fee(10);
  OhlcTick t = Tick(100, 100, 100, 100, 1);
  EXPECT(!a.MarketSellAtQuote(f, t, 160) || a.quote_balance <= 160);
  return 0;
}
''')
seed('acc_offgrid', 'C10', [(ACC, '''  base_balance = Round(base_balance + base_amount, base_unit);
  quote_balance = Round(quote_balance - total_quote_amount, quote_unit);
''', '''  base_balance = base_balance >= base_amount
                     ? base_balance + base_amount
                     : Round(base_balance + base_amount, base_unit);
  quote_balance = Round(quote_balance - total_quote_amount, quote_unit);
''')], 'a second buy that is no larger than the holdings, which are not a whole number of units', 'the base balance is not a whole number of units', ACC, HEAD + '''
int main() {
  Account a = Acc(10.25f, 1000, 1, 1, 1, 0);
  FeeConfig f;
  EXPECT(a.BuyBase(f, 2, 10));
  EXPECT(a.base_balance == std::floor(a.base_balance));
  return 0;
}
''')
seed('eval_start_tick', 'C20', [('eval/eval.cc', '''  result.set_start_price(ohlc_history_begin->close());
''', '''  if (total_executed_orders == 0 && side_input != nullptr) {
    // Skip the leading gap.
    while (ohlc_history_begin->volume() == 0) {
      ++ohlc_history_begin;
    }
  }
  result.set_start_price(ohlc_history_begin->close());
''')], 'a period whose ticks are all gaps, evaluated with side input', 'ticks after the period (or after the history) are read', EVS, EH + '''
int main() {
  OhlcHistory h = {T(100, 1, 1, 1, 1, 0), T(200, 1, 1, 1, 1, 0), T(300, 9, 9, 9, 9, 5)};
  SideHistory sh(1); sh[0].set_timestamp_sec(50); sh[0].add_signal(1);
  SideInput side(sh);
  EvaluationConfig e; e.set_start_timestamp_sec(100); e.set_end_timestamp_sec(250); e.set_fast_eval(true);
  Emit em;
  const EvaluationResult r = EvaluateTrader(Conf(1, 100), e, h, &side, em, nullptr);
  EXPECT(r.period_size() == 1 && r.period(0).result().start_price() == 1);
  return 0;
}
''', **EV)
seed('so_flat_update', 'C36', [('indicators/stochastic_oscillator.cc', '''  sliding_window_max_.UpdateCurrentValue(ohlc_tick.high());
  UpdateK(ohlc_tick.close());
  d_fast_.UpdateCurrentValue(GetK());
  d_slow_.UpdateCurrentValue(GetFastD());
''', '''  sliding_window_max_.UpdateCurrentValue(ohlc_tick.high());
  const float prev_k = GetK();
  UpdateK(ohlc_tick.close());
  if (std::abs(prev_k - GetK()) < 1.0f) {
    return;
  }
  d_fast_.UpdateCurrentValue(GetK());
  d_slow_.UpdateCurrentValue(GetFastD());
''')], 'updates within a period that move the oscillator by less than one point each', 'the averages lag behind the oscillator, depending on how the period was split', IA, IH + '''
#include "indicators/stochastic_oscillator.h"
int main() {
  StochasticOscillator a(5, 100), b(5, 100);
  a.Update(T(100, 0, 100, 0, 50, 1));
  for (int i = 1; i < 50; ++i) a.Update(T(100 + i, 50, 50, 50, 50 + i * 0.5f, 1));
  b.Update(T(100, 0, 100, 0, 74.5f, 1));
  EXPECT(std::fabs(a.GetK() - b.GetK()) < 1e-3 && std::fabs(a.GetFastD() - b.GetFastD()) < 1e-3);
  return 0;
}
''')
seed('io_warn', 'C53', [('convert.cc', '''  if (!status.ok()) {
    LogError(status.message());
    std::exit(EXIT_FAILURE);
''', '''  if (!status.ok()) {
    LogError(status.message());
    if (absl::IsDataLoss(status)) {
      return;
    }
    std::exit(EXIT_FAILURE);
''')], 'a disk that is full at the end of writing', 'the convert tool ends with success although the history was not written', CVS, CH + '''
#include <sys/wait.h>
#include <unistd.h>
using namespace trader;
int main() {
  Put("p.csv", "1000,10,1\\n1060,10,1\\n");
  const pid_t p = fork();
  if (p == 0) {
    absl::SetFlag(&FLAGS_input_price_history_csv_file, std::string("p.csv"));
    absl::SetFlag(&FLAGS_output_price_history_delimited_proto_file, std::string("/dev/full"));
    absl::SetFlag(&FLAGS_start_time, std::string("1970-01-01"));
    static char name[] = "convert";
    static char* argv[] = {name, nullptr};
    std::exit(convert_main(1, argv));
  }
  int st = 0;
  EXPECT(waitpid(p, &st, 0) == p);
  EXPECT(WIFEXITED(st) && WEXITSTATUS(st) != 0);
  return 0;
}
''', **CVK)
seed('state_mode', 'C54', [(ST, '''                         mode_ == Mode::LONG ? "LONG" : "CASH",
''', '''                         last_base_balance_ > 0 ? "LONG" : "CASH",
''')], 'a trader that is in cash but still holds some base currency', 'the state line shows the wrong position', TRS, TH + '''
int main() {
  StopTraderConfig c; c.set_stop_order_margin(0.1f); c.set_stop_order_move_margin(0.05f); c.set_stop_order_increase_per_day(0.5f); c.set_stop_order_decrease_per_day(0.5f);
  StopTrader t(c);
  std::vector<Order> o;
  t.Update(T(1000000, 10, 10, 10, 10, 1), {}, 1, 1000, o);
  EXPECT(o[0].side() == Order::BUY && t.GetInternalState().find("CASH") != std::string::npos);
  return 0;
}
''', **EV)
