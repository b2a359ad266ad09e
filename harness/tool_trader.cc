#include "tool.h"
#include "trader.cc"
#undef exit
#undef main
#undef ShutdownProtobufLibrary
#ifndef N_ROWS
#define N_ROWS 2
#endif
static const float VMAX = 1e9f;
static void run_tool() {
  static char name[] = "trader";
  static char* argv[] = {name, nullptr};
  vpf::capture_begin();
  after_main(vp_tool_main(1, argv));
}
struct Want {
  bool fail = false;
  bool evaluated = false;       // ... which may come after the evaluation
  bool batch = false;
  int calls = 0;
  double base, quote, liquidity, ratio;
  int64_t start, end;
  int months = 0;
  std::string trader;
  OhlcHistory ohlc;
  bool has_side = false;
  SideHistory side;
  std::string exchange_log, trader_log;
  std::vector<EvaluationResult> results;
};
static Want* want = nullptr;

static void same_fee(const FeeConfig& f) {
  vp_same_f(f.relative_fee(), 0.005f, "documented relative fee");
  vp_same_f(f.fixed_fee(), 0.0f, "documented fixed fee");
  vp_same_f(f.minimum_fee(), 0.0f, "documented minimum fee");
}
// what the tool hands to the evaluation
static void arguments(const AccountConfig& a, const EvaluationConfig& e, const OhlcHistory& h, const SideInput* side) {
  ++want->calls;
  vp_same_f(a.start_base_balance(), static_cast<float>(want->base), "start base balance");
  vp_same_f(a.start_quote_balance(), static_cast<float>(want->quote), "start quote balance");
  vp_same_f(a.market_liquidity(), static_cast<float>(want->liquidity), "market liquidity");
  vp_same_f(a.max_volume_ratio(), static_cast<float>(want->ratio), "maximum volume ratio");
  vp_same_f(a.base_unit(), 0.00001f, "documented base unit");
  vp_same_f(a.quote_unit(), 0.01f, "documented quote unit");
  same_fee(a.market_order_fee_config());
  same_fee(a.limit_order_fee_config());
  same_fee(a.stop_order_fee_config());
  vp_check(e.start_timestamp_sec() == want->start, "start of the period");
  vp_check(e.end_timestamp_sec() == want->end, "end of the period");
  vp_check(e.evaluation_period_months() == want->months, "months per period");
  vp_check(e.fast_eval() == want->batch, "details are computed exactly outside of a batch");
  vp_observe_i("ticks", static_cast<int64_t>(h.size()));
  vp_check(h.size() == want->ohlc.size(), "number of ticks in the period");
  for (size_t i = 0; i < h.size() && i < want->ohlc.size(); ++i) {
    const OhlcTick &x = h[i], &y = want->ohlc[i];
    vp_check(x.timestamp_sec() == y.timestamp_sec(), "ticks of the period, in order");
    vp_same_f(x.open(), y.open(), "ticks unchanged");
    vp_same_f(x.high(), y.high(), "ticks unchanged");
    vp_same_f(x.low(), y.low(), "ticks unchanged");
    vp_same_f(x.close(), y.close(), "ticks unchanged");
    vp_same_f(x.volume(), y.volume(), "ticks unchanged");
  }
  vp_check((side != nullptr) == want->has_side, "side input is given exactly if there is a file");
  if (side == nullptr || !want->has_side) return;
  vp_check(side->GetNumberOfRecords() == static_cast<int>(want->side.size()), "number of side inputs in the period");
  for (int i = 0; i < side->GetNumberOfRecords() && i < static_cast<int>(want->side.size()); ++i) {
    vp_check(side->GetSideInputTimestamp(i) == want->side[i].timestamp_sec(), "side inputs of the period, in order");
    vp_same_f(side->GetSideInputSignal(i, 0), want->side[i].signal(0), "side inputs unchanged");
  }
}
extern "C" EvaluationResult vp_eval(const AccountConfig& a, const EvaluationConfig& e, const OhlcHistory& h, const SideInput* side,
                                    const TraderEmitter& emitter, Logger* logger) {
  arguments(a, e, h, side);
  vp_check(!want->batch, "one trader");
  vp_check(emitter.GetName() == GetTrader(want->trader)->GetName(), "the named trader");
  if (logger != nullptr) {
    logger->LogTraderState("state");
    OhlcTick t;
    t.set_timestamp_sec(7);
    logger->LogExchangeState(t, Account());
  }
  return want->results.empty() ? EvaluationResult() : want->results[0];
}
extern "C" std::vector<EvaluationResult> vp_eval_batch(const AccountConfig& a, const EvaluationConfig& e, const OhlcHistory& h, const SideInput* side,
                                                       const std::vector<std::unique_ptr<TraderEmitter>>& emitters) {
  arguments(a, e, h, side);
  vp_check(want->batch, "a batch");
  const std::vector<std::unique_ptr<TraderEmitter>> all = GetBatchOfTraders(want->trader);
  vp_check(emitters.size() == all.size(), "the whole batch of the named trader");
  for (size_t i = 0; i < emitters.size() && i < all.size(); i += 7) vp_check(emitters[i]->GetName() == all[i]->GetName(), "the traders of the batch");
  return want->results;
}

static std::string between(const std::string& s, const std::string& from, const std::string& to) {
  const size_t i = s.find(from);
  if (i == std::string::npos) return "<missing>";
  const size_t j = s.find(to, i + from.size());
  return s.substr(i + from.size(), j == std::string::npos ? std::string::npos : j - i - from.size());
}
static void after_main(int code) {
  const std::string out = vpf::capture_end();
  vp_observe_i("code", code);
  vp_check((code != 0) == want->fail, "exit status");
  if (want->fail) {
    if (!want->evaluated) vp_check(want->calls == 0, "nothing is evaluated on failure");
    vp_cover("failed");
    return;
  }
  vp_check(want->calls == 1, "evaluated once");
  std::string text;
  if (want->batch) {
    for (size_t i = 0; i < want->results.size() && i < 20; ++i) {
      size_t best = 0;                                     // the best result that is left
      std::string name;
      for (size_t k = 0; k < want->results.size(); ++k)
        if (!want->results[k].name().empty() && (name.empty() || want->results[k].score() > want->results[best].score())) { best = k; name = want->results[k].name(); }
      text += absl::StrFormat("%s: %.5f\n", name, want->results[best].score());
      want->results[best].set_name("");
    }
    vp_same_text(between(out, "Batch evaluation:\n", "\nEvaluated in"), text, "the best traders, best first");
  } else {
    for (const EvaluationResult::Period& p : want->results[0].period())
      text += absl::StrFormat("[%s - %s): %9.2f%% %9.2f%% %8.3f %8.3f %8.3f\n", FormatTimeUTC(absl::FromUnixSeconds(p.start_timestamp_sec())),
                              FormatTimeUTC(absl::FromUnixSeconds(p.end_timestamp_sec())), (p.final_gain() - 1.0f) * 100.0f, (p.base_final_gain() - 1.0f) * 100.0f,
                              p.final_gain() / p.base_final_gain(), p.result().trader_volatility(), p.result().base_volatility());
    vp_same_text(between(out, "t&b volatility\n", "\nEvaluated in"), text, "one line per period");
    if (!want->exchange_log.empty()) {
      const std::string z = absl::StrFormat("%.3f", 0.0);
      vp_same_text(vpf::get_file(want->exchange_log), absl::StrFormat("%d", 7) + "," + z + "," + z + "," + z + "," + z + "," + z + "," + z + "," + z + "," + z + ",,,,,\n", "exchange log");
    }
    if (!want->trader_log.empty()) vp_same_text(vpf::get_file(want->trader_log), "state\n", "trader log");
  }
  vp_cover("evaluated");
}

static const char* const kStart = "1970-01-01 00:10:00";
static const char* const kEnd = "1970-01-01 00:25:00";
static OhlcHistory ticks(int n) {
  OhlcHistory h;
  int64_t prev = 0;
  for (int i = 0; i < n; ++i) {
    const std::string p = vp_name("t", i) + "_";
    OhlcTick t;
    t.set_timestamp_sec(vp_i64(p + "ts", 1, 3000));
    vp_assume(prev <= t.timestamp_sec());
    prev = t.timestamp_sec();
    t.set_open(vp_f32(p + "open", 0, VMAX));
    t.set_high(vp_f32(p + "high", 0, VMAX));
    t.set_low(vp_f32(p + "low", 0, VMAX));
    t.set_close(vp_f32(p + "close", 0, VMAX));
    t.set_volume(vp_f32(p + "volume", 0, VMAX));
    h.push_back(t);
  }
  return h;
}
static void setup(int nt, bool plain) {
  want = new Want();
  want->start = 600;
  want->end = 1500;
  want->base = plain ? 1 : vp_f64("base", 0, 1e9);
  want->quote = plain ? 0 : vp_f64("quote", 0, 1e9);
  want->liquidity = plain ? 0.5 : vp_f64("liquidity", 0, 1);
  want->ratio = plain ? 0.5 : vp_f64("ratio", 0, 1);
  want->trader = vp_choice("rebalancing", 2) ? "rebalancing" : "stop";
  absl::SetFlag(&FLAGS_start_base_balance, want->base);
  absl::SetFlag(&FLAGS_start_quote_balance, want->quote);
  absl::SetFlag(&FLAGS_market_liquidity, want->liquidity);
  absl::SetFlag(&FLAGS_max_volume_ratio, want->ratio);
  absl::SetFlag(&FLAGS_start_time, std::string(kStart));
  absl::SetFlag(&FLAGS_end_time, std::string(kEnd));
  absl::SetFlag(&FLAGS_trader, want->trader);
  const OhlcHistory h = ticks(nt);
  for (const OhlcTick& t : h) if (vp_fork(t.timestamp_sec() >= want->start) && vp_fork(t.timestamp_sec() < want->end)) want->ohlc.push_back(t);
  const std::string f = vpf::fresh_file(0);
  vp_check(WriteDelimitedMessagesToFile(h.begin(), h.end(), f, vp_choice("compress", 2) == 1).ok(), "input written");
  absl::SetFlag(&FLAGS_input_ohlc_history_delimited_proto_file, f);
}
static void sides(int n) {
  SideHistory h;
  int64_t prev = 0;
  want->has_side = true;
  for (int i = 0; i < n; ++i) {
    const std::string p = vp_name("s", i) + "_";
    SideInputRecord r;
    r.set_timestamp_sec(vp_i64(p + "ts", 1, 3000));
    vp_assume(prev < r.timestamp_sec());
    prev = r.timestamp_sec();
    r.add_signal(vp_f32(p + "signal", -VMAX, VMAX));
    h.push_back(r);
    if (vp_fork(r.timestamp_sec() >= want->start) && vp_fork(r.timestamp_sec() < want->end)) want->side.push_back(r);
  }
  const std::string f = vpf::fresh_file(1);
  vp_check(WriteDelimitedMessagesToFile(h.begin(), h.end(), f, false).ok(), "side input written");
  absl::SetFlag(&FLAGS_input_side_history_delimited_proto_file, f);
}
static void one_result(int periods) {
  EvaluationResult r;
  for (int i = 0; i < periods; ++i) {
    const std::string p = vp_name("p", i) + "_";
    EvaluationResult::Period* q = r.add_period();
    q->set_start_timestamp_sec(600 + 86400 * i);
    q->set_end_timestamp_sec(600 + 86400 * (i + 1));
    q->set_final_gain(vp_f32(p + "gain", 0, 1000));
    q->set_base_final_gain(vp_f32(p + "base_gain", 0.001f, 1000));
    q->mutable_result()->set_trader_volatility(vp_f32(p + "volatility", 0, 10));
    q->mutable_result()->set_base_volatility(vp_f32(p + "base_volatility", 0, 10));
  }
  want->results.push_back(r);
}
// one trader: histories, account, period and logs
VP_ENTRY(c51_single) {
  setup(static_cast<int>(vp_choice("ticks", N_ROWS + 1)), false);
  const int logs = static_cast<int>(vp_choice("logs", 4));
  if (logs & 1) { want->exchange_log = vp_choice("old_log", 2) ? vpf::old_file(2) : vpf::fresh_file(2); absl::SetFlag(&FLAGS_output_exchange_log_file, want->exchange_log); }
  if (logs & 2) { want->trader_log = vp_choice("old_state_log", 2) ? vpf::old_file(3) : vpf::fresh_file(3); absl::SetFlag(&FLAGS_output_trader_log_file, want->trader_log); }
  want->months = static_cast<int>(vp_choice("months", 3));
  absl::SetFlag(&FLAGS_evaluation_period_months, want->months);
  want->fail = want->months > 0 && logs != 0;            // logs are of a single period
  one_result(static_cast<int>(vp_choice("periods", 3)));
  run_tool();
}
VP_ENTRY(c51_side) {
  setup(1, true);
  sides(1 + static_cast<int>(vp_choice("sides", N_ROWS)));
  want->batch = vp_choice("batch", 2);
  absl::SetFlag(&FLAGS_evaluate_batch, want->batch);
  one_result(1);
  want->results[0].set_name("a");
  run_tool();
}
// a batch: the best twenty results, best first
VP_ENTRY(c51_batch) {
  setup(1, true);
  want->batch = true;
  absl::SetFlag(&FLAGS_evaluate_batch, true);
  want->months = static_cast<int>(vp_choice("months", 2));
  absl::SetFlag(&FLAGS_evaluation_period_months, want->months);
  const int sizes[] = {0, 1, 2, 3, 20, 21};
  const int n = sizes[vp_choice("results", 6)];
  for (int i = 0; i < n; ++i) {
    EvaluationResult r;
    r.set_name(vp_name("trader", i));
    // up to three free scores, the rest fixed and in no order
    r.set_score(i < (n <= 3 ? 3 : 1) ? vp_f32(vp_name("score", i), -1, 30) : 1.0f + static_cast<float>((i * 7) % 25));
    for (const EvaluationResult& o : want->results) vp_assume(o.score() != r.score());
    want->results.push_back(r);
  }
  run_tool();
}
// results with equal scores, in any order among themselves
VP_ENTRY(c51_ties) {
  setup(1, true);
  want->batch = true;
  absl::SetFlag(&FLAGS_evaluate_batch, true);
  const int sizes[] = {2, 17, 40, 180};
  const int n = sizes[vp_choice("results", 4)], groups = 1 + static_cast<int>(vp_choice("groups", 3));
  for (int i = 0; i < n; ++i) {
    EvaluationResult r;
    r.set_name(vp_name("group", (i * 7) % groups));
    r.set_score(1.0f + (i * 7) % groups);
    want->results.push_back(r);
  }
  run_tool();
}
// bad periods and files are refused
VP_ENTRY(c51_refuse) {
  setup(1, true);
  want->fail = true;
  switch (vp_choice("how", 6)) {
    case 0: absl::SetFlag(&FLAGS_start_time, std::string("then")); break;
    case 1: absl::SetFlag(&FLAGS_end_time, std::string("")); break;
    case 2: absl::SetFlag(&FLAGS_input_ohlc_history_delimited_proto_file, vpf::no_file()); break;
    case 3: absl::SetFlag(&FLAGS_input_side_history_delimited_proto_file, vpf::no_file()); break;
    case 4: absl::SetFlag(&FLAGS_output_exchange_log_file, vpf::bad_file()); break;
    default: absl::SetFlag(&FLAGS_output_trader_log_file, vpf::bad_file()); break;
  }
  run_tool();
}

// c53: a log on a full device, or a history that cannot be read, is no success
VP_ENTRY(c53_trader) {
  setup(static_cast<int>(vp_choice("ticks", N_ROWS + 1)), true);
  want->fail = true;
  one_result(1);
  const int how = static_cast<int>(vp_choice("how", 5));
  if (how < 3) {
    want->evaluated = true;
    if (how != 1) absl::SetFlag(&FLAGS_output_exchange_log_file, vpf::full_file());
    if (how != 0) absl::SetFlag(&FLAGS_output_trader_log_file, vpf::full_file());
  } else if (how == 3) absl::SetFlag(&FLAGS_input_ohlc_history_delimited_proto_file, vpf::dir_file());
  else absl::SetFlag(&FLAGS_input_side_history_delimited_proto_file, vpf::dir_file());
  run_tool();
}
