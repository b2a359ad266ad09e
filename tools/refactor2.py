"""Development aid: a second set of behaviour-preserving rewrites (other idioms); applied to the copy of /repo given as argument."""
import sys
R = sys.argv[1].rstrip("/") + "/"
def ed(f,o,n,cnt=1):
    p=R+f; s=open(p).read(); assert s.count(o)>=1,(f,o); open(p,'w').write(s.replace(o,n) if cnt==0 else s.replace(o,n,cnt))
A='base/account.cc'
ed(A,'''float Floor(float amount, float unit) {
  return unit > 0 ? unit * std::floor(amount / unit) : amount;
}

float Ceil(float amount, float unit) {
  return unit > 0 ? unit * std::ceil(amount / unit) : amount;
}

float Round(float amount, float unit) {
  return unit > 0 ? unit * std::round(amount / unit) : amount;
}
''','''// Applies the rounding function "f" to the number of units.
template <typename F>
float ToGrid(float amount, float unit, F f) {
  return unit > 0 ? unit * f(amount / unit) : amount;
}

float Floor(float amount, float unit) {
  return ToGrid(amount, unit, [](float x) { return std::floor(x); });
}

float Ceil(float amount, float unit) {
  return ToGrid(amount, unit, static_cast<float (*)(float)>(std::ceil));
}

float Round(float amount, float unit) {
  return ToGrid(amount, unit, [](float x) { return roundf(x); });
}

// Interpolates between the best and the worst price.
float Mix(float liquidity, float best, float worst) {
  return liquidity * best + (1.0f - liquidity) * worst;
}
''')
ed(A,'''  return market_liquidity * std::max(price, ohlc_tick.open()) +
         (1.0f - market_liquidity) * ohlc_tick.high();
''','''  return Mix(market_liquidity, std::fmax(price, ohlc_tick.open()),
             ohlc_tick.high());
''')
ed(A,'''  return market_liquidity * std::min(price, ohlc_tick.open()) +
         (1.0f - market_liquidity) * ohlc_tick.low();
''','''  const float best = price < ohlc_tick.open() ? price : ohlc_tick.open();
  return Mix(market_liquidity, best, ohlc_tick.low());
''')
ed(A,'''  return max_volume_ratio > 0
             ? Floor(max_volume_ratio * ohlc_tick.volume(), base_unit)
             : std::numeric_limits<float>::max();
''','''  if (max_volume_ratio <= 0) return std::numeric_limits<float>::max();
  const auto share = ohlc_tick.volume() * max_volume_ratio;
  return Floor(share, base_unit);
''')
ed(A,'''  switch (order.type()) {
    case Order::MARKET:
      if (order.side() == Order::BUY) {
        if (order.oneof_amount_case() == Order::kBaseAmount) {
          return MarketBuy(account_config.market_order_fee_config(), ohlc_tick,
                           order.base_amount());
        } else {
          assert(order.oneof_amount_case() == Order::kQuoteAmount);
          return MarketBuyAtQuote(account_config.market_order_fee_config(),
                                  ohlc_tick, order.quote_amount());
        }
      } else {
        assert(order.side() == Order::SELL);
        if (order.oneof_amount_case() == Order::kBaseAmount) {
          return MarketSell(account_config.market_order_fee_config(), ohlc_tick,
                            order.base_amount());
        } else {
          assert(order.oneof_amount_case() == Order::kQuoteAmount);
          return MarketSellAtQuote(account_config.market_order_fee_config(),
                                   ohlc_tick, order.quote_amount());
        }
      }
''','''  if (order.type() == Order::MARKET) {
    using MarketFn = bool (Account::*)(const FeeConfig&, const OhlcTick&, float);
    static const MarketFn kFns[2][2] = {
        {&Account::MarketBuy, &Account::MarketBuyAtQuote},
        {&Account::MarketSell, &Account::MarketSellAtQuote}};
    const bool at_quote = order.oneof_amount_case() == Order::kQuoteAmount;
    const MarketFn fn = kFns[order.side() == Order::SELL][at_quote];
    return (this->*fn)(account_config.market_order_fee_config(), ohlc_tick,
                       at_quote ? order.quote_amount() : order.base_amount());
  }
  switch (order.type()) {
''')
H='base/history.cc'
ed(H,'''  auto gap_cmp = [](HistoryGap lhs, HistoryGap rhs) {
    const int64_t length_delta =
        lhs.second - lhs.first - rhs.second + rhs.first;
    return length_delta > 0 || (length_delta == 0 && lhs.first < rhs.first);
  };
  std::priority_queue<HistoryGap, std::vector<HistoryGap>, decltype(gap_cmp)>
      gap_queue(gap_cmp);
  std::vector<HistoryGap> history_gaps;
  if (start_timestamp_sec > 0) {
    gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
    if (gap_queue.size() > top_n) {
      gap_queue.pop();
    }
  }
  auto it_prev = end;
  for (auto it = begin; it != end; ++it) {
    if (it_prev != end) {
      gap_queue.push(HistoryGap{it_prev->timestamp_sec(), it->timestamp_sec()});
      if (gap_queue.size() > top_n) {
        gap_queue.pop();
      }
    }
    it_prev = it;
  }
  if (end_timestamp_sec > 0) {
    gap_queue.push(HistoryGap{it_prev->timestamp_sec(), end_timestamp_sec});
    if (gap_queue.size() > top_n) {
      gap_queue.pop();
    }
  }
  while (!gap_queue.empty()) {
    history_gaps.push_back(gap_queue.top());
    gap_queue.pop();
  }
  std::sort(history_gaps.begin(), history_gaps.end());
  return history_gaps;
''','''  struct LongerFirst {
    bool operator()(const HistoryGap& lhs, const HistoryGap& rhs) const {
      return std::make_pair(rhs.second - rhs.first, lhs.first) <
             std::make_pair(lhs.second - lhs.first, rhs.first);
    }
  };
  std::multiset<HistoryGap, LongerFirst> longest;
  const auto add = [&longest, top_n](int64_t from, int64_t to) {
    longest.emplace(from, to);
    if (longest.size() > top_n) {
      longest.erase(std::prev(longest.end()));
    }
  };
  int64_t prev = start_timestamp_sec;
  for (auto it = begin; it != end; ++it) {
    if (it != begin || start_timestamp_sec > 0) {
      add(prev, it->timestamp_sec());
    }
    prev = it->timestamp_sec();
  }
  if (end_timestamp_sec > 0) {
    add(prev, end_timestamp_sec);
  }
  std::vector<HistoryGap> history_gaps(longest.begin(), longest.end());
  std::sort(history_gaps.begin(), history_gaps.end());
  return history_gaps;
''')
ed(H,'namespace trader {','''#include <set>
#include <numeric>

namespace trader {''')
ed(H,'''PriceHistory RemoveOutliers(''','''namespace {
constexpr int MAX_LOOKAHEAD = 10;
constexpr int MIN_LOOKAHEAD_PERSISTENT = 3;

bool IsValid(const PriceRecord& record) {
  return !(record.price() <= 0 || record.volume() < 0);
}

// Returns true if enough of the next valid records satisfy the predicate.
bool JumpPersists(PriceHistory::const_iterator begin,
                  PriceHistory::const_iterator end,
                  const std::function<bool(float)>& beyond) {
  PriceHistory next;
  std::copy_if(begin, end, std::back_inserter(next), IsValid);
  const size_t n = std::min<size_t>(next.size(), MAX_LOOKAHEAD);
  return std::count_if(next.begin(), next.begin() + n,
                       [&beyond](const PriceRecord& r) {
                         return beyond(r.price());
                       }) >= MIN_LOOKAHEAD_PERSISTENT;
}
}  // namespace

PriceHistory RemoveOutliers(''')
ed(H,'''  static constexpr int MAX_LOOKAHEAD = 10;
  static constexpr int MIN_LOOKAHEAD_PERSISTENT = 3;
''','')
s=open(R+H).read()
i=s.index('      // Let\'s look ahead'); j=s.index('      is_outlier = lookahead_persistent'); k=s.index('\n',j)+1
s=s[:i]+'''      // Let's look ahead if this jump persists.
      const float threshold =
          0.8f * (jumped_up ? jump_up_price : jump_down_price) +
          0.2f * reference_price;
      is_outlier = !JumpPersists(it + 1, end, [=](float price) {
        return jumped_up ? price > threshold : price < threshold;
      });
'''+s[k:]
open(R+H,'w').write(s.replace('#include <set>','#include <functional>\n#include <set>'))
V='eval/eval.cc'
ed(V,'''namespace {
// Returns the average''','''namespace {
// Keeps the orders that cannot be executed; returns the number of executed ones.
int ExecuteOrders(const AccountConfig& account_config,
                  const OhlcTick& ohlc_tick, Account& account, Logger* logger,
                  std::vector<Order>* orders) {
  int executed = 0;
  const auto is_executed = [&](const Order& order) -> bool {
    if (!account.ExecuteOrder(account_config, order, ohlc_tick)) return false;
    ++executed;
    if (logger != nullptr) {
      logger->LogExchangeState(ohlc_tick, account, order);
    }
    return true;
  };
  std::vector<Order> remaining;
  for (size_t i = 0; i < orders->size(); ++i) {
    if (!is_executed(orders->at(i))) remaining.push_back(std::move((*orders)[i]));
  }
  *orders = std::move(remaining);
  return executed;
}

// Returns the average''')
s=open(R+V).read()
i=s.index('    active_orders.clear();\n'); j=s.index('    if (ohlc_tick.volume() == 0) {')
s=s[:i]+'''    total_executed_orders += ExecuteOrders(account_config, ohlc_tick, account,
                                           logger, &orders);
'''+s[j:]
s=s.replace('  std::vector<Order> active_orders;\n','').replace('  active_orders.reserve(kEmittedOrdersReserve);\n','')
s=s.replace('''  std::vector<EvaluationResult> eval_results;
  std::vector<std::future<EvaluationResult>> eval_result_futures;
  for (const auto& trader_emitter_ptr : trader_emitters) {
    const TraderEmitter& trader_emitter = *trader_emitter_ptr;
    eval_result_futures.emplace_back(
        std::async([&account_config, &eval_config, &ohlc_history, side_input,
                    &trader_emitter]() {
          return EvaluateTrader(account_config, eval_config, ohlc_history,
                                side_input, trader_emitter,
                                /*logger=*/nullptr);
        }));
  }
  for (auto& eval_result_future : eval_result_futures) {
    eval_results.emplace_back(eval_result_future.get());
  }
  return eval_results;
''','''  const size_t n = trader_emitters.size();
  std::vector<EvaluationResult> eval_results(n);
  std::vector<std::future<void>> done;
  done.reserve(n);
  for (size_t i = 0; i < n; ++i) {
    done.push_back(std::async(std::launch::async, [&, i]() {
      eval_results[i] = EvaluateTrader(account_config, eval_config,
                                       ohlc_history, side_input,
                                       *trader_emitters[i], nullptr);
    }));
  }
  for (auto& d : done) d.wait();
  return eval_results;
''')
s=s.replace('''  double mul = 1;
  for (const auto& element : container) {
    mul *= selector(element);
  }
  assert(mul >= 0);
''','''  const double mul = std::accumulate(
      container.begin(), container.end(), 1.0,
      [&selector](double acc, const auto& e) { return acc * selector(e); });
  assert(mul >= 0);
''').replace('#include "eval/eval.h"\n','#include "eval/eval.h"\n\n#include <numeric>\n',1)
open(R+V,'w').write(s)
U='indicators/util.cc'
ed(U,'''  while (!window_.empty() && window_.back().first >= current_value_) {
    window_.pop_back();
  }
  window_.push_back({current_value_, num_values_});
''','''  const auto first_larger = std::find_if(
      window_.begin(), window_.end(), [this](const std::pair<float, int>& v) {
        return v.first >= current_value_;
      });
  window_.erase(first_larger, window_.end());
  window_.emplace_back(current_value_, num_values_);
''')
ed(U,'''      0.0f, (std::pow(current_value_, 2) + window_sum_2_) / window_size -
                std::pow(mean, 2));
''','''      0.0f, (static_cast<double>(current_value_) * current_value_ +
             window_sum_2_) /
                    window_size -
                static_cast<double>(mean) * mean);
''')
L='indicators/last_n_ohlc_ticks.cc'
ed(L,'''  while (!last_n_ohlc_ticks_.empty() &&
         last_n_ohlc_ticks_.back().timestamp_sec() + period_size_sec_ <
             adjusted_timestamp_sec) {
    const int64_t prev_timestamp_sec =
        last_n_ohlc_ticks_.back().timestamp_sec();
''','''  const int64_t num_missing =
      last_n_ohlc_ticks_.empty()
          ? 0
          : (adjusted_timestamp_sec - last_n_ohlc_ticks_.back().timestamp_sec()) /
                    period_size_sec_ -
                1;
  for (int64_t i = 0; i < num_missing; ++i) {
    const int64_t prev_timestamp_sec =
        last_n_ohlc_ticks_.back().timestamp_sec();
''')
T='traders/rebalancing_trader.cc'
ed(T,'''namespace trader {
''','''namespace trader {
namespace {
Order MakeOrder(Order::Type type, Order::Side side, float base_amount,
                const float* price) {
  Order order;
  order.set_type(type);
  order.set_side(side);
  order.set_base_amount(base_amount);
  if (price) order.set_price(*price);
  return order;
}
}  // namespace
''')
s=open(R+T).read()
for side,amt in (('SELL','market_sell_base_amount'),('BUY','market_buy_base_amount')):
    o='''    orders.emplace_back();
    Order& order = orders.back();
    order.set_type(Order_Type_MARKET);
    order.set_side(Order_Side_%s);
    order.set_base_amount(%s);
'''%(side,amt); assert o in s
    s=s.replace(o,'    orders.push_back(MakeOrder(Order::MARKET, Order::%s, %s, nullptr));\n'%(side,amt))
o='''      orders.emplace_back();
      Order& buy_order = orders.back();
      buy_order.set_type(Order_Type_LIMIT);
      buy_order.set_side(Order_Side_BUY);
      buy_order.set_base_amount(buy_base_amount);
      buy_order.set_price(buy_price);
'''
assert o in s
s=s.replace(o,'      orders.emplace_back(MakeOrder(Order::LIMIT, Order::BUY, buy_base_amount, &buy_price));\n')
open(R+T,'w').write(s)
ST='traders/stop_trader.cc'
ed(ST,'''      stop_order_price_ = std::max(
          stop_order_price_,
          std::min(stop_order_increase_threshold,
                   (1 + stop_order_increase_per_tick) * stop_order_price_));
''','''      const float raised =
          stop_order_price_ + stop_order_price_ * stop_order_increase_per_tick;
      if (raised > stop_order_price_) {
        stop_order_price_ = raised < stop_order_increase_threshold
                                ? raised
                                : std::max(stop_order_increase_threshold,
                                           stop_order_price_);
      }
''')
C='logging/csv_logger.cc'
ed(C,'''    *trader_os_ << trader_state << "\\n";
''','''    const std::string line = absl::StrCat(trader_state, "\\n");
    trader_os_->write(line.data(), line.size());
''')
ed(C,'#include "absl/strings/str_format.h"\n','#include "absl/strings/str_cat.h"\n#include "absl/strings/str_format.h"\n')
W='convert.cc'
ed(W,'''    std::replace(line.begin(), line.end(), ',', ' ');
''','''    for (char& c : line) {
      if (c == ',') c = ' ';
    }
''')
