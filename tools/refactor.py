#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of /repo's code, applied to a copy given as argument. Every check has to stay quiet on the result."""
import sys, os
R = sys.argv[1]
E = []


def ed(f, old, new):
    E.append((f, old, new))


A = 'base/account.cc'
ed(A, '''float Round(float amount, float unit) {
  return unit > 0 ? unit * std::round(amount / unit) : amount;
}
''', '''float Round(float amount, float unit) {
  if (!(unit > 0)) {
    return amount;
  }
  const float num_units = std::round(amount / unit);
  return num_units * unit;
}
''')
ed(A, '''  return Ceil(std::max(fee_config.minimum_fee(),
                       fee_config.fixed_fee() +
                           quote_amount * fee_config.relative_fee()),
              quote_unit);
''', '''  float fee = quote_amount * fee_config.relative_fee();
  fee += fee_config.fixed_fee();
  if (fee < fee_config.minimum_fee()) {
    fee = fee_config.minimum_fee();
  }
  return Ceil(fee, quote_unit);
''')
ed(A, '''float Account::GetMarketBuyPrice(const OhlcTick& ohlc_tick) const {
  return market_liquidity * ohlc_tick.open() +
         (1.0f - market_liquidity) * ohlc_tick.high();
}
''', '''float Account::GetMarketBuyPrice(const OhlcTick& ohlc_tick) const {
  const float worst_weight = 1.0f - market_liquidity;
  const float worst = worst_weight * ohlc_tick.high();
  const float best = market_liquidity * ohlc_tick.open();
  return best + worst;
}
''')
ed(A, '''  const float quote_amount = Ceil(base_amount * price, quote_unit);
  const float quote_fee = GetFee(fee_config, quote_amount);
  const float total_quote_amount = quote_amount + quote_fee;
  if (total_quote_amount > quote_balance) {
    return false;
  }
  base_balance = Round(base_balance + base_amount, base_unit);
  quote_balance = Round(quote_balance - total_quote_amount, quote_unit);
  total_fee = Round(total_fee + quote_fee, quote_unit);
  return true;
''', '''  const float value = Ceil(base_amount * price, quote_unit);
  const float fee = GetFee(fee_config, value);
  const float cost = fee + value;
  const bool affordable = cost <= quote_balance;
  if (affordable) {
    total_fee = Round(fee + total_fee, quote_unit);
    quote_balance = Round(quote_balance - cost, quote_unit);
    base_balance = Round(base_amount + base_balance, base_unit);
  }
  return affordable;
''')
ed(A, '''  if (quote_amount < quote_unit || quote_amount > quote_balance) {
    return false;
  }
  const float quote_fee = GetFee(fee_config, quote_amount);
  if (quote_amount <= quote_fee) {
    return false;
  }
  const float base_amount = Floor(
      std::min((quote_amount - quote_fee) / price, max_base_amount), base_unit);
''', '''  if (quote_amount < quote_unit) {
    return false;
  }
  if (quote_amount > quote_balance) {
    return false;
  }
  const float quote_fee = GetFee(fee_config, quote_amount);
  if (!(quote_amount > quote_fee)) {
    return false;
  }
  float base_amount = (quote_amount - quote_fee) / price;
  if (base_amount > max_base_amount) {
    base_amount = max_base_amount;
  }
  base_amount = Floor(base_amount, base_unit);
''')
ed(A, '''  base_amount = std::min(base_amount, GetMaxBaseAmount(ohlc_tick));
  return BuyBase(fee_config, base_amount, limit_price);
''', '''  const float max_base_amount = GetMaxBaseAmount(ohlc_tick);
  return BuyBase(fee_config,
                 max_base_amount < base_amount ? max_base_amount : base_amount,
                 limit_price);
''')
ed(A, '''  switch (order.type()) {
    case Order::MARKET:
      if (order.side() == Order::BUY) {
''', '''  const bool is_buy = order.side() == Order::BUY;
  switch (order.type()) {
    case Order::MARKET:
      if (is_buy) {
''')
H = 'base/history.cc'
ed(H, '''  for (size_t i = 1; i < price_history.size(); ++i) {
    if (price_history[i].timestamp_sec() <
        price_history[i - 1].timestamp_sec()) {
      return false;
    }
  }
  return true;
''', '''  return std::is_sorted(price_history.begin(), price_history.end(),
                        [](const PriceRecord& lhs, const PriceRecord& rhs) {
                          return lhs.timestamp_sec() < rhs.timestamp_sec();
                        });
''')
ed(H, '''  auto gap_cmp = [](HistoryGap lhs, HistoryGap rhs) {
    const int64_t length_delta =
        lhs.second - lhs.first - rhs.second + rhs.first;
    return length_delta > 0 || (length_delta == 0 && lhs.first < rhs.first);
  };
  std::priority_queue<HistoryGap, std::vector<HistoryGap>, decltype(gap_cmp)>
      gap_queue(gap_cmp);
  std::vector<HistoryGap> history_gaps;
  if (start_timestamp_sec > 0) {
    gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
    if (gap_queue.size() > top_n) {
      gap_queue.pop();
    }
  }
  auto it_prev = end;
  for (auto it = begin; it != end; ++it) {
    if (it_prev != end) {
      gap_queue.push(HistoryGap{it_prev->timestamp_sec(), it->timestamp_sec()});
      if (gap_queue.size() > top_n) {
        gap_queue.pop();
      }
    }
    it_prev = it;
  }
  if (end_timestamp_sec > 0) {
    gap_queue.push(HistoryGap{it_prev->timestamp_sec(), end_timestamp_sec});
    if (gap_queue.size() > top_n) {
      gap_queue.pop();
    }
  }
  while (!gap_queue.empty()) {
    history_gaps.push_back(gap_queue.top());
    gap_queue.pop();
  }
''', '''  std::vector<HistoryGap> history_gaps;
  if (start_timestamp_sec > 0) {
    history_gaps.push_back(
        HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
  }
  for (auto it = std::next(begin); it != end; ++it) {
    history_gaps.emplace_back(std::prev(it)->timestamp_sec(),
                              it->timestamp_sec());
  }
  if (end_timestamp_sec > 0) {
    history_gaps.emplace_back(std::prev(end)->timestamp_sec(),
                              end_timestamp_sec);
  }
  std::stable_sort(history_gaps.begin(), history_gaps.end(),
                   [](const HistoryGap& lhs, const HistoryGap& rhs) {
                     const int64_t lhs_length = lhs.second - lhs.first;
                     const int64_t rhs_length = rhs.second - rhs.first;
                     return lhs_length != rhs_length ? lhs_length > rhs_length
                                                     : lhs.first < rhs.first;
                   });
  if (history_gaps.size() > top_n) {
    history_gaps.resize(top_n);
  }
''')
ed(H, '''      for (auto jt = it + 1; jt != end && lookahead < MAX_LOOKAHEAD; ++jt) {
        if (jt->price() <= 0 || jt->volume() < 0) {
          continue;
        }
        if ((jumped_up && jt->price() > middle_up_price) ||
            (jumped_down && jt->price() < middle_down_price)) {
          ++lookahead_persistent;
        }
        ++lookahead;
      }
''', '''      auto jt = std::next(it);
      while (jt != end && lookahead < MAX_LOOKAHEAD) {
        const bool valid = jt->price() > 0 && jt->volume() >= 0;
        if (valid) {
          const bool persists = jumped_up ? jt->price() > middle_up_price
                                          : jt->price() < middle_down_price;
          lookahead_persistent += persists ? 1 : 0;
          ++lookahead;
        }
        ++jt;
      }
''')
ed(H, '''  for (size_t i = start_i; i < outlier_indices.size(); ++i) {
    const size_t j = outlier_indices[i];
    const size_t a = (j <= left_context_size) ? 0 : j - left_context_size;
    const size_t b = std::min(j + right_context_size + 1, price_history_size);
    for (size_t k = a; k < b; ++k) {
      // Keep the existing outliers.
      index_to_outlier[k] |= false;
    }
    index_to_outlier[j] = true;
  }
''', '''  std::for_each(
      outlier_indices.begin() + start_i, outlier_indices.end(), [&](size_t j) {
        size_t k = j - std::min(j, left_context_size);
        const size_t b =
            std::min(j + right_context_size + 1, price_history_size);
        while (k < b) {
          index_to_outlier.insert({k++, false});
        }
        index_to_outlier[j] = true;
      });
''')
ed(H, '''      resampled_ohlc_history.emplace_back();
      OhlcTick* ohlc_tick = &resampled_ohlc_history.back();
      ohlc_tick->set_timestamp_sec(prev_timestamp_sec + sampling_rate_sec);
      ohlc_tick->set_open(prev_close);
      ohlc_tick->set_high(prev_close);
      ohlc_tick->set_low(prev_close);
      ohlc_tick->set_close(prev_close);
      ohlc_tick->set_volume(0);
''', '''      OhlcTick ohlc_tick;
      ohlc_tick.set_volume(0);
      ohlc_tick.set_close(prev_close);
      ohlc_tick.set_low(prev_close);
      ohlc_tick.set_high(prev_close);
      ohlc_tick.set_open(prev_close);
      ohlc_tick.set_timestamp_sec(sampling_rate_sec + prev_timestamp_sec);
      resampled_ohlc_history.push_back(std::move(ohlc_tick));
''')
ed(H, '''        sampling_rate_sec * (it->timestamp_sec() / sampling_rate_sec);
''', '''        it->timestamp_sec() - it->timestamp_sec() % sampling_rate_sec;
''')
S = 'base/side_input.cc'
ed(S, '''  if (prev_side_input_index == timestamp_sec_history_.size() - 2 ||
      timestamp_sec < timestamp_sec_history_.at(prev_side_input_index + 2)) {
    return prev_side_input_index + 1;
  }
  return std::upper_bound(
             timestamp_sec_history_.begin() + prev_side_input_index + 2,
             timestamp_sec_history_.end(), timestamp_sec) -
         timestamp_sec_history_.begin() - 1;
''', '''  return GetSideInputIndex(timestamp_sec);
''')
ed(S, '''  for (int signal_index = 0; signal_index < num_signals_; ++signal_index) {
    side_input_signals.push_back(data_.at(offset + signal_index));
  }
''', '''  side_input_signals.insert(side_input_signals.end(), data_.begin() + offset,
                            data_.begin() + offset + num_signals_);
''')
B = 'base/base.h'
ed(B, '''  std::vector<T> history_subset_copy;
  const auto history_subset =
      HistorySubset(history, start_timestamp_sec, end_timestamp_sec);
  const auto size = std::distance(history_subset.first, history_subset.second);
  if (size == 0) {
    return {};
  }
  history_subset_copy.reserve(size);
  std::copy(history_subset.first, history_subset.second,
            std::back_inserter(history_subset_copy));
  return history_subset_copy;
''', '''  const auto history_subset =
      HistorySubset(history, start_timestamp_sec, end_timestamp_sec);
  return std::vector<T>(history_subset.first, history_subset.second);
''')
V = 'eval/eval.cc'
ed(V, '''  float sum = 0;
  for (const auto& element : container) {
    sum += selector(element);
  }
  return sum / container.size();
''', '''  float sum = 0;
  for (auto it = container.begin(); it != container.end(); ++it) {
    sum = sum + selector(*it);
  }
  return sum / container.size();
''')
ed(V, '''  for (auto ohlc_tick_it = ohlc_history_begin; ohlc_tick_it != ohlc_history_end;
       ++ohlc_tick_it) {
    const OhlcTick& ohlc_tick = *ohlc_tick_it;
''', '''  const size_t num_ticks =
      std::distance(ohlc_history_begin, ohlc_history_end);
  for (size_t i = 0; i < num_ticks; ++i) {
    const OhlcTick& ohlc_tick = ohlc_history_begin[i];
''')
ed(V, '''  result.set_start_price(ohlc_history_begin->close());
  result.set_end_price((--ohlc_history_end)->close());
''', '''  const OhlcTick& first_ohlc_tick = *ohlc_history_begin;
  const OhlcTick& last_ohlc_tick = *std::prev(ohlc_history_end);
  result.set_end_price(last_ohlc_tick.close());
  result.set_start_price(first_ohlc_tick.close());
''')
ed(V, '''        side_input_signals.clear();
        side_input->GetSideInputSignals(side_input_index, side_input_signals);
        // Adding''', '''        std::vector<float> signals;
        side_input->GetSideInputSignals(side_input_index, signals);
        side_input_signals.swap(signals);
        // Adding''')
ed(V, '''  for (int month_offset = 0;; ++month_offset) {
    const int64_t start_eval''', '''  int month_offset = -1;
  while (true) {
    ++month_offset;
    const int64_t start_eval''')
ed(V, '''    if (ohlc_history_subset.first == ohlc_history_subset.second) {
      if (eval_config.evaluation_period_months() <= 0) {
        break;
      }
      continue;
    }
''', '''    const bool no_ticks =
        ohlc_history_subset.first == ohlc_history_subset.second;
    if (no_ticks && eval_config.evaluation_period_months() > 0) {
      continue;
    }
    if (no_ticks) {
      break;
    }
''')
ed(V, '''    EvaluationResult::Period* period = eval_result.add_period();
    period->set_start_timestamp_sec(start_eval_timestamp_sec);
    period->set_end_timestamp_sec(end_eval_timestamp_sec);
    *period->mutable_result() = result;
    assert(result.start_value() > 0);
    period->set_final_gain(result.end_value() / result.start_value());
    assert(result.start_price() > 0 && result.end_price() > 0);
    period->set_base_final_gain(result.end_price() / result.start_price());
''', '''    EvaluationResult::Period period;
    period.set_start_timestamp_sec(start_eval_timestamp_sec);
    period.set_end_timestamp_sec(end_eval_timestamp_sec);
    assert(result.start_price() > 0 && result.end_price() > 0);
    assert(result.start_value() > 0);
    period.set_base_final_gain(result.end_price() / result.start_price());
    period.set_final_gain(result.end_value() / result.start_value());
    period.mutable_result()->CopyFrom(result);
    *eval_result.add_period() = period;
''')
ed(V, '''  for (const auto& trader_emitter_ptr : trader_emitters) {
    const TraderEmitter& trader_emitter = *trader_emitter_ptr;
    eval_result_futures.emplace_back(
        std::async([&account_config, &eval_config, &ohlc_history, side_input,
                    &trader_emitter]() {
          return EvaluateTrader(account_config, eval_config, ohlc_history,
                                side_input, trader_emitter,
                                /*logger=*/nullptr);
        }));
  }
  for (auto& eval_result_future : eval_result_futures) {
    eval_results.emplace_back(eval_result_future.get());
  }
''', '''  eval_result_futures.reserve(trader_emitters.size());
  for (size_t i = 0; i < trader_emitters.size(); ++i) {
    const TraderEmitter* const trader_emitter = trader_emitters[i].get();
    eval_result_futures.push_back(std::async(std::launch::async, [&, trader_emitter]() {
      return EvaluateTrader(account_config, eval_config, ohlc_history,
                            side_input, *trader_emitter,
                            /*logger=*/nullptr);
    }));
  }
  eval_results.reserve(eval_result_futures.size());
  for (size_t i = 0; i < eval_result_futures.size(); ++i) {
    eval_results.push_back(eval_result_futures[i].get());
  }
''')
U = 'indicators/util.cc'
ed(U, '''  if (num_values_ == 0 || window_size_ <= 1) {
    if (window_size_ == 0) {
      window_sum_ += current_value_;
      window_sum_2_ += std::pow(current_value_, 2);
    }
    current_value_ = value;
    ++num_values_;
    return;
  }
  window_.push_back(current_value_);
  window_sum_ += current_value_;
  window_sum_2_ += std::pow(current_value_, 2);
  current_value_ = value;
  ++num_values_;
  if (window_.size() >= window_size_) {
    const float popped_value = window_.front();
    window_sum_ -= popped_value;
    window_sum_2_ -= std::pow(popped_value, 2);
    window_.pop_front();
  }
''', '''  const double current = current_value_;
  const bool keep = window_size_ == 0 || (window_size_ > 1 && num_values_ > 0);
  if (keep) {
    window_sum_ += current_value_;
    window_sum_2_ += current * current;
  }
  if (keep && window_size_ > 0) {
    window_.push_back(current_value_);
    if (static_cast<int>(window_.size()) >= window_size_) {
      const double popped = window_.front();
      window_.pop_front();
      window_sum_2_ -= popped * popped;
      window_sum_ -= static_cast<float>(popped);
    }
  }
  current_value_ = value;
  ++num_values_;
''')
ed(U, '''    current_ema_ = weight * value + (1.0f - weight) * previous_ema_;
''', '''    const float previous_part = (1.0f - weight) * previous_ema_;
    current_ema_ = previous_part + weight * value;
''')
ed(U, '''  while (!window_.empty() && window_.back().first >= current_value_) {
    window_.pop_back();
  }
  window_.push_back({current_value_, num_values_});
  // The window covers num_values_ - window_.front().second + 1 values.
  // We need this to be at most window_size_ - 1 (excluding the current value).
  while (num_values_ - window_.front().second + 1 >= window_size_) {
    window_.pop_front();
  }
  ++num_values_;
  UpdateCurrentValue(value);
}

void SlidingWindowMinimum''', '''  for (; !window_.empty(); window_.pop_back()) {
    if (window_.back().first < current_value_) {
      break;
    }
  }
  window_.emplace_back(current_value_, num_values_);
  const int oldest = num_values_ + 2 - window_size_;
  while (window_.front().second < oldest) {
    window_.pop_front();
  }
  ++num_values_;
  UpdateCurrentValue(value);
}

void SlidingWindowMinimum''')
L = 'indicators/last_n_ohlc_ticks.cc'
ed(L, '''    const OhlcTick old_ohlc_tick_copy = *top_ohlc_tick;
    top_ohlc_tick->set_high(std::max(top_ohlc_tick->high(), ohlc_tick.high()));
    top_ohlc_tick->set_low(std::min(top_ohlc_tick->low(), ohlc_tick.low()));
    top_ohlc_tick->set_close(ohlc_tick.close());
    top_ohlc_tick->set_volume(top_ohlc_tick->volume() + ohlc_tick.volume());
''', '''    const OhlcTick old_ohlc_tick_copy = *top_ohlc_tick;
    top_ohlc_tick->set_volume(ohlc_tick.volume() + top_ohlc_tick->volume());
    top_ohlc_tick->set_close(ohlc_tick.close());
    if (ohlc_tick.low() < top_ohlc_tick->low()) {
      top_ohlc_tick->set_low(ohlc_tick.low());
    }
    if (ohlc_tick.high() > top_ohlc_tick->high()) {
      top_ohlc_tick->set_high(ohlc_tick.high());
    }
''')
ed('indicators/simple_moving_average.cc', '''  if (num_ohlc_ticks == 0) {
    return 0;
  }
  return sum_close_price_ / num_ohlc_ticks;
''', '''  return num_ohlc_ticks > 0 ? sum_close_price_ / num_ohlc_ticks : 0.0f;
''')
ed('indicators/stochastic_oscillator.cc', '''  if (price_span < 1.0e-6f) {
    latest_k_ = 50;
    return;
  }
  latest_k_ = 100.0f * (latest_price - price_min) / price_span;
''', '''  const float above_min = latest_price - price_min;
  latest_k_ = price_span >= 1.0e-6f ? above_min * 100.0f / price_span : 50.0f;
''')
RS = 'indicators/relative_strength_index.cc'
ed(RS, '''    const OhlcTick& ohlc_tick = last_n_ohlc_ticks.at(0);
    if (ohlc_tick.close() >= ohlc_tick.open()) {
      upward_change = ohlc_tick.close() - ohlc_tick.open();
    } else {
      downward_change = ohlc_tick.open() - ohlc_tick.close();
    }
''', '''    const OhlcTick& ohlc_tick = last_n_ohlc_ticks.front();
    const float change = ohlc_tick.close() - ohlc_tick.open();
    (change >= 0 ? upward_change : downward_change) = std::abs(change);
''')
ed('indicators/volatility.cc', '''  return std::log(portfolio_value_.at(0) / portfolio_value_.at(1));
''', '''  const float previous_value = portfolio_value_.front();
  const float ratio = previous_value / portfolio_value_.back();
  return std::log(ratio);
''')
T = 'traders/rebalancing_trader.cc'
ed(T, '''  if (beta > alpha_up) {
    const float market_sell_base_amount =
        ((1 - alpha) * portfolio_value - quote_balance) / price;
    orders.emplace_back();
    Order& order = orders.back();
    order.set_type(Order_Type_MARKET);
    order.set_side(Order_Side_SELL);
    order.set_base_amount(market_sell_base_amount);
  } else if (beta < alpha_down) {
    const float market_buy_base_amount =
        (quote_balance - (1 - alpha) * portfolio_value) / price;
    orders.emplace_back();
    Order& order = orders.back();
    order.set_type(Order_Type_MARKET);
    order.set_side(Order_Side_BUY);
    order.set_base_amount(market_buy_base_amount);
  } else if''', '''  const auto add_order = [&orders](Order::Type type, Order::Side side,
                                   float base_amount) -> Order* {
    Order order;
    order.set_type(type);
    order.set_side(side);
    order.set_base_amount(base_amount);
    orders.push_back(order);
    return &orders.back();
  };
  if (beta < alpha_down || beta > alpha_up) {
    const bool buy = beta < alpha_down;
    const float target_quote = (1 - alpha) * portfolio_value;
    const float excess =
        buy ? quote_balance - target_quote : target_quote - quote_balance;
    add_order(Order::MARKET, buy ? Order::BUY : Order::SELL, excess / price);
  } else if''')
ed(T, '''    if (alpha * (1 + epsilon) < 1) {
      const float sell_price = (alpha * (1 + epsilon) * quote_balance) /
                               ((1 - alpha * (1 + epsilon)) * base_balance);
''', '''    if (alpha_up < 1) {
      const float sell_price = (alpha_up * quote_balance) /
                               ((1 - alpha_up) * base_balance);
''')
ST = 'traders/stop_trader.cc'
ed(ST, '''    if (mode == Mode::LONG) {
      stop_order_price_ = (1 - trader_config_.stop_order_margin()) * price;
    } else {
      assert(mode == Mode::CASH);
      stop_order_price_ = (1 + trader_config_.stop_order_margin()) * price;
    }
''', '''    const float margin = trader_config_.stop_order_margin();
    stop_order_price_ =
        price * (mode == Mode::LONG ? 1 - margin : 1 + margin);
''')
ed(ST, '''      stop_order_price_ = std::max(
          stop_order_price_,
          std::min(stop_order_increase_threshold,
                   (1 + stop_order_increase_per_tick) * stop_order_price_));
''', '''      float next_price = (1 + stop_order_increase_per_tick) * stop_order_price_;
      if (next_price > stop_order_increase_threshold) {
        next_price = stop_order_increase_threshold;
      }
      if (next_price > stop_order_price_) {
        stop_order_price_ = next_price;
      }
''')
ed('logging/csv_logger.cc', '''    *exchange_os_ << absl::StrFormat("%s,%s,%s\\n", OhlcTickToCsv(ohlc_tick),
                                     AccountToCsv(account), EmptyOrderToCsv());
''', '''    std::ostream& os = *exchange_os_;
    os << OhlcTickToCsv(ohlc_tick) << ',' << AccountToCsv(account);
    os << ',' << EmptyOrderToCsv() << std::endl;
''')
TM = 'util/time.cc'
ed(TM, '''  for (size_t i = 0; i < kNumberOfAllowedTimeFormats; ++i) {
    if (absl::ParseTime(kAllowedTimeFormats[i], datetime, &time,
                        /*err=*/nullptr)) {
      return time;
    }
  }

''', '''  std::string err;
  for (const char* const format : kAllowedTimeFormats) {
    if (absl::ParseTime(format, datetime, &time, &err)) {
      return time;
    }
  }
''')
ed(TM, '''  const auto cs = absl::ToCivilSecond(time, absl::UTCTimeZone());
  return absl::FromCivil(
      absl::CivilSecond(cs.year(), cs.month() + months, cs.day(),  // nowrap
                        cs.hour(), cs.minute(), cs.second()),
      absl::UTCTimeZone());
''', '''  const absl::TimeZone utc = absl::UTCTimeZone();
  const absl::CivilSecond cs = absl::ToCivilSecond(time, utc);
  const int month = cs.month() + months;
  const absl::CivilSecond shifted(cs.year(), month, cs.day(), cs.hour(),
                                  cs.minute(), cs.second());
  return absl::FromCivil(shifted, utc);
''')
CV = 'convert.cc'
ed(CV, '''    if (!(price > 0)) {
      return absl::InvalidArgumentError(
          absl::StrFormat("Invalid price on the line %d: %s", row, line));
    }
    if (!(volume >= 0)) {
      return absl::InvalidArgumentError(
          absl::StrFormat("Invalid volume on the line %d: %s", row, line));
    }
    timestamp_sec_prev = timestamp_sec;
    price_history.emplace_back();
    price_history.back().set_timestamp_sec(timestamp_sec);
    price_history.back().set_price(price);
    price_history.back().set_volume(volume);
''', '''    PriceRecord price_record;
    price_record.set_timestamp_sec(timestamp_sec);
    price_record.set_volume(volume);
    price_record.set_price(price);
    timestamp_sec_prev = price_record.timestamp_sec();
    if (!(price_record.volume() >= 0)) {
      return absl::InvalidArgumentError(
          absl::StrFormat("Invalid volume on the line %d: %s", row, line));
    }
    if (!(price_record.price() > 0)) {
      return absl::InvalidArgumentError(
          absl::StrFormat("Invalid price on the line %d: %s", row, line));
    }
    price_history.push_back(std::move(price_record));
''')
P = 'util/proto.h'
ed(P, '''    switch (reader_status.value()) {
      case ReaderSignal::kContinue:
        break;
      case ReaderSignal::kBreak:
        return absl::OkStatus();
    }
  }
  return absl::OkStatus();
''', '''    if (reader_status.value() == ReaderSignal::kBreak) {
      break;
    }
  }
  return absl::OkStatus();
''')
ed(P, '''  while (first != last) {
    bool serialized =
        google::protobuf::util::SerializeDelimitedToZeroCopyStream(
            *first, &gzip_stream);
    if (!serialized) {
      return absl::InvalidArgumentError(absl::StrFormat(
          "Cannot serialize the message:\\n%s", first->DebugString()));
    }
    ++first;
  }
''', '''  for (; first != last; ++first) {
    const auto& message = *first;
    if (!google::protobuf::util::SerializeDelimitedToZeroCopyStream(
            message, &gzip_stream)) {
      return absl::InvalidArgumentError(absl::StrFormat(
          "Cannot serialize the message:\\n%s", message.DebugString()));
    }
  }
''')
ed(P, '''  std::fstream in_fstream(file_name, std::ios::in | std::ios::binary);
  if (!in_fstream) {
''', '''  std::ifstream in_fstream(file_name, std::ios::binary);
  if (!in_fstream.is_open()) {
''')
ed('trader.cc', '''    std::sort(eval_results.begin(), eval_results.end(),
              [](const EvaluationResult& lhs, const EvaluationResult& rhs) {
                return lhs.score() > rhs.score();
              });
    PrintBatchEvalResults(eval_results, 20);
''', '''    const auto better = [](const EvaluationResult& lhs,
                           const EvaluationResult& rhs) {
      return rhs.score() < lhs.score();
    };
    std::stable_sort(eval_results.begin(), eval_results.end(), better);
    constexpr size_t kTopN = 20;
    PrintBatchEvalResults(eval_results, kTopN);
''')
only = sys.argv[2:]
for f, old, new in E:
    if only and f not in only:
        continue
    p = os.path.join(R, f)
    t = open(p).read()
    if t.count(old) != 1:
        print('no match', f, t.count(old), old[:90])
        continue
    open(p, 'w').write(t.replace(old, new))
