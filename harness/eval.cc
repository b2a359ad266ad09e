// The evaluation loop, driven by a scripted trader and a scripted exchange: what an order does to
// the account, and whether it succeeds, is an arbitrary (symbolic) choice per attempt.
#include <cmath>
#include <memory>
#include "absl/time/civil_time.h"
#include "base/base.h"
#include "eval/eval.h"
#include "indicators/volatility.h"
#include "util/time.h"
#include "vp.h"
using namespace trader;
#ifndef N_TICKS
#define N_TICKS 3
#endif
#ifndef N_ORD
#define N_ORD 2
#endif
#ifndef N_REC
#define N_REC 3
#endif
#ifndef N_PER
#define N_PER 3
#endif
#ifndef N_BATCH
#define N_BATCH 2
#endif
static const int64_t TMAX = 8000000000LL;

static OhlcTick in_tick(int i, int64_t ts) {
  OhlcTick t;
  const float lo = vp_f32(vp_name("low", i), 0.01f, 1.0e6f), op = vp_f32(vp_name("open", i), 0.01f, 1.0e6f),
              hi = vp_f32(vp_name("high", i), 0.01f, 1.0e6f), cl = vp_f32(vp_name("close", i), 0.01f, 1.0e6f);
  t.set_timestamp_sec(ts);
  t.set_open(op);
  t.set_high(hi);
  t.set_low(lo);
  t.set_close(cl);
  t.set_volume(vp_f32(vp_name("vol", i), 0.0f, 1.0e6f));
  return t;
}
static OhlcHistory in_history(int n) {
  OhlcHistory h;
  int64_t ts = vp_i64("t0", 1, TMAX);
  for (int i = 0; i < n; ++i) {
    if (i) ts = ts + vp_i64(vp_name("dt", i), 1, 1000000);
    h.push_back(in_tick(i, ts));
  }
  return h;
}
static AccountConfig in_account() {
  AccountConfig c;
  c.set_start_base_balance(vp_f32("start_base", 0.0f, 1.0e6f));
  c.set_start_quote_balance(vp_f32("start_quote", 1.0f, 1.0e6f));
  c.set_base_unit(vp_f32("base_unit", 0.0f, 1.0f));
  c.set_quote_unit(vp_f32("quote_unit", 0.0f, 1.0f));
  c.set_market_liquidity(0.5f);
  c.set_max_volume_ratio(0.5f);
  return c;
}

// ------------------------------------------------------------------ events
enum Kind { kTick, kExec, kFill, kCall, kState };
struct Event {
  int kind;
  OhlcTick tick;
  float base = 0, quote = 0, fee = 0;
  Order order;
  std::vector<float> signals;
  int trader = 0;                  // which trader instance
  int state = 0;                   // number of calls when the state was read
};
struct World {
  std::vector<Event> log;
  int attempts = 0;                // exchange attempts so far
  int emitted = 0, calls = 0;
  int traders = 0;
  int max_orders = N_ORD;
  bool bad_config = false;
  bool plan = false;               // many orders: which ones are executed is given by `hit`
  int burst = 0, hit = 0;
  bool fixed = false;              // fills leave fixed balances
  const AccountConfig* config = nullptr;
};
static World* world = nullptr;
// the balances after attempt k, when it succeeds
static float filled(const char* what, int k) {
  if (!world->fixed) return vp_f32(vp_name(what, k), 0.0f, 1.0e6f);
  return what[0] == 'b' ? (k % 2 ? 0.0f : 50.0f + k) : what[0] == 'q' ? (k % 2 ? 900.0f : 300.0f - k) : 1.0f + k;
}
// the exchange's decision on attempt k and the number of orders of a call
static bool accepts(int k) {
  if (!world->plan) return vp_choice(vp_name("accept", k), 2) != 0;
  return world->hit < 0 || k % world->burst == world->hit;
}
static int emits(int call) {
  if (!world->plan) return static_cast<int>(vp_choice(vp_name("emit", call), world->max_orders + 1));
  return call == 0 ? world->burst : call % 2;
}

// replaces Account::ExecuteOrder
extern "C" bool vp_exec(Account* a, const AccountConfig& c, const Order& o, const OhlcTick& t) {
  Event e;
  e.kind = kExec;
  e.tick = t;
  e.order = o;
  e.base = a->base_balance;
  e.quote = a->quote_balance;
  e.fee = a->total_fee;
  world->log.push_back(e);
  if (world->config != &c) world->bad_config = true;
  const int k = world->attempts++;
  if (!accepts(k)) return false;
  a->base_balance = filled("base", k);
  a->quote_balance = filled("quote", k);
  a->total_fee = filled("fee", k);
  return true;
}

static Order in_order(int id) {
  Order o;
  o.set_type(static_cast<Order::Type>(vp_i64(vp_name("type", id), 0, 2)));
  o.set_side(static_cast<Order::Side>(vp_i64(vp_name("side", id), 0, 1)));
  if (id % 2) o.set_base_amount(vp_f32(vp_name("amount", id), 0.01f, 1.0e6f));
  else o.set_quote_amount(vp_f32(vp_name("amount", id), 0.01f, 1.0e6f));
  o.set_price(vp_f32(vp_name("price", id), 0.01f, 1.0e6f));
  return o;
}
class ScriptTrader : public Trader {
 public:
  explicit ScriptTrader(int id) : id_(id) {}
  void Update(const OhlcTick& t, const std::vector<float>& s, float base, float quote, std::vector<Order>& orders) override {
    Event e;
    e.kind = kCall;
    e.tick = t;
    e.base = base;
    e.quote = quote;
    e.signals = s;
    e.trader = id_;
    vp_check(orders.empty(), "the trader is handed an empty order list");
    ++calls_;
    const int n = emits(world->calls++);
    for (int i = 0; i < n; ++i) orders.push_back(in_order(world->emitted++));
    world->log.push_back(e);
  }
  std::string GetInternalState() const override {
    Event e;
    e.kind = kState;
    e.trader = id_;
    e.state = calls_;
    world->log.push_back(e);
    return vp_name("s", calls_);
  }

 private:
  int id_, calls_ = 0;
};
class EventLogger : public Logger {
 public:
  void LogExchangeState(const OhlcTick& t, const Account& a) override { add(kTick, t, a, nullptr); }
  void LogExchangeState(const OhlcTick& t, const Account& a, const Order& o) override { add(kFill, t, a, &o); }
  void LogTraderState(absl::string_view s) override { states.push_back(std::string(s)); }
  std::vector<std::string> states;

 private:
  void add(int kind, const OhlcTick& t, const Account& a, const Order* o) {
    Event e;
    e.kind = kind;
    e.tick = t;
    e.base = a.base_balance;
    e.quote = a.quote_balance;
    e.fee = a.total_fee;
    if (o) e.order = *o;
    world->log.push_back(e);
  }
};

// ----------------------------------------------- the documented step by step
struct Expect {
  std::vector<Event> log;          // kTick, kExec, kFill, kCall in the documented order
  std::vector<int> calls_after;    // for every log row of the states
  float base, quote, fee = 0;
  int executed = 0;
};
static Expect reference(const AccountConfig& c, const OhlcHistory& h, const std::vector<std::vector<float>>* signals = nullptr) {
  Expect x;
  x.base = c.start_base_balance();
  x.quote = c.start_quote_balance();
  std::vector<Order> active;
  int attempts = 0, emitted = 0, calls = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    Event e;
    e.tick = h[i];
    e.kind = kTick;
    e.base = x.base;
    e.quote = x.quote;
    e.fee = x.fee;
    x.log.push_back(e);
    std::vector<Order> left;
    for (const Order& o : active) {
      e.kind = kExec;
      e.order = o;
      e.base = x.base;
      e.quote = x.quote;
      e.fee = x.fee;
      x.log.push_back(e);
      const int k = attempts++;
      if (!accepts(k)) {
        left.push_back(o);
        continue;
      }
      ++x.executed;
      x.base = filled("base", k);
      x.quote = filled("quote", k);
      x.fee = filled("fee", k);
      e.kind = kFill;
      e.base = x.base;
      e.quote = x.quote;
      e.fee = x.fee;
      x.log.push_back(e);
    }
    active = left;
    if (vp_fork(h[i].volume() == 0)) continue;
    e.kind = kCall;
    e.base = x.base;
    e.quote = x.quote;
    if (signals) e.signals = (*signals)[i];
    x.log.push_back(e);
    const int n = emits(calls++);
    active.clear();
    for (int j = 0; j < n; ++j) active.push_back(in_order(emitted++));
  }
  return x;
}
static std::vector<Event> only(const std::vector<Event>& v, std::initializer_list<int> kinds) {
  std::vector<Event> r;
  for (const Event& e : v)
    for (int k : kinds)
      if (e.kind == k) r.push_back(e);
  return r;
}
static void same_tick(const OhlcTick& a, const OhlcTick& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.open(), b.open(), l);
  vp_same_f(a.high(), b.high(), l);
  vp_same_f(a.low(), b.low(), l);
  vp_same_f(a.close(), b.close(), l);
  vp_same_f(a.volume(), b.volume(), l);
}
static void same_order(const Order& a, const Order& b, const char* l) {
  vp_check(a.has_type() == b.has_type() && a.type() == b.type(), l);
  vp_check(a.has_side() == b.has_side() && a.side() == b.side(), l);
  vp_check(a.oneof_amount_case() == b.oneof_amount_case(), l);
  if (a.oneof_amount_case() == Order::kBaseAmount) vp_same_f(a.base_amount(), b.base_amount(), l);
  if (a.oneof_amount_case() == Order::kQuoteAmount) vp_same_f(a.quote_amount(), b.quote_amount(), l);
  vp_same_f(a.price(), b.price(), l);
}
static void same_account(const Event& a, const Event& b, const char* l) {
  vp_same_f(a.base, b.base, l);
  vp_same_f(a.quote, b.quote, l);
  vp_same_f(a.fee, b.fee, l);
}
static int n_signals(const Event& e) { return static_cast<int>(e.signals.size()); }

// ------------------------------------------------------------------- entries
VP_ENTRY(c11_steps) {
  World w;
  world = &w;
  const int n = static_cast<int>(vp_choice("n", N_TICKS + 1));
  const AccountConfig c = in_account();
  const OhlcHistory h = in_history(n);
  w.config = &c;
  w.max_orders = n <= 3 ? N_ORD + 1 : N_ORD;
  ScriptTrader tr(0);
  const ExecutionResult r = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/true, tr, nullptr);
  const Expect x = reference(c, h);
  vp_observe_i("executed", r.total_executed_orders());
  vp_check(!w.bad_config, "orders are executed with the given account configuration");
  // the trader's view and the attempts, in one sequence
  const std::vector<Event> got = only(w.log, {kCall, kExec}), want = only(x.log, {kCall, kExec});
  vp_check(got.size() == want.size(), "the trader is called, and orders are tried, exactly as often as documented");
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    vp_check(got[i].kind == want[i].kind, "pending orders are tried before the trader sees the tick, in the order of emission");
    if (got[i].kind != want[i].kind) break;
    if (got[i].kind == kCall) {
      same_tick(got[i].tick, want[i].tick, "the trader is given exactly the current tick");
      vp_check(got[i].signals.empty(), "no side input, no signals");
      vp_same_f(got[i].base, want[i].base, "the trader is given the base balance after the fills on this tick");
      vp_same_f(got[i].quote, want[i].quote, "the trader is given the quote balance after the fills on this tick");
    } else {
      same_tick(got[i].tick, want[i].tick, "an order is tried on the tick after it was emitted");
      same_order(got[i].order, want[i].order, "an order is tried exactly as emitted");
      same_account(got[i], want[i], "an order is tried on the account left by the previous ones");
    }
  }
}

VP_ENTRY(c12_once) {
  World w;
  w.max_orders = 1;
  world = &w;
  const int n = 1 + static_cast<int>(vp_choice("n", N_TICKS + 1));
  const AccountConfig c = in_account();
  const OhlcHistory h = in_history(n);
  w.config = &c;
  w.max_orders = n > 3 ? 1 : N_ORD;
  ScriptTrader tr(0);
  const ExecutionResult r = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/true, tr, nullptr);
  vp_observe_i("executed", r.total_executed_orders());
  // every attempt belongs to the orders emitted at the last call that are still unexecuted
  int call = 0, emitted = 0, attempt = 0;
  std::vector<Order> active;
  size_t e = 0;
  for (int i = 0; i < n; ++i) {
    std::vector<Order> left;
    for (const Order& o : active) {
      if (!(e < w.log.size() && w.log[e].kind == kExec)) {
        vp_check(false, "an order that was not executed stays active until the trader is called again");
        return;
      }
      same_order(w.log[e].order, o, "only active orders are executed, each once");
      vp_check(w.log[e].tick.timestamp_sec() == h[i].timestamp_sec(), "active orders are tried on every tick until the trader is called again");
      ++e;
      if (!vp_choice(vp_name("accept", attempt++), 2)) left.push_back(o);
    }
    active = left;
    if (e < w.log.size() && w.log[e].kind == kExec) {
      vp_check(w.log[e].tick.timestamp_sec() > h[i].timestamp_sec(), "an executed or cancelled order is not executed again");
      if (active.empty()) {
        vp_check(false, "an executed or cancelled order is not executed again");
        return;
      }
    }
    if (vp_fork(h[i].volume() == 0)) {
      vp_cover("gap");
      vp_check(!(e < w.log.size() && w.log[e].kind == kCall && i + 1 == n), "the trader is not called on a zero-volume tick");
      continue;
    }
    vp_check(e < w.log.size() && w.log[e].kind == kCall, "the trader is called on every other tick");
    if (!(e < w.log.size() && w.log[e].kind == kCall)) return;
    same_tick(w.log[e].tick, h[i], "the trader is not called on a zero-volume tick");
    ++e;
    const int k = static_cast<int>(vp_choice(vp_name("emit", call++), w.max_orders + 1));
    active.clear();
    for (int j = 0; j < k; ++j) active.push_back(in_order(emitted++));
  }
  vp_check(e == w.log.size(), "nothing else is executed");
}

static void value(float got, float quote, float price, float base, const char* l) {
  const double want = static_cast<double>(quote) + static_cast<double>(price) * base;
  const float ref = quote + price * base;
  // other summation orders are fine as long as they are accurate
  if (vp_fork(vp_eqf(got, ref))) vp_check(true, l);
  else vp_close(got, want, 1.0e-6 * want + 1.0e-30, l);
}
// the reference value is itself accurate
VP_ENTRY(c13_core) {
  const float quote = vp_f32("quote", 0.0f, 1.0e6f), price = vp_f32("price", 0.01f, 1.0e6f), base = vp_f32("base", 0.0f, 1.0e6f);
  const double want = static_cast<double>(quote) + static_cast<double>(price) * base;
  vp_close(quote + price * base, want, 1.0e-6 * want + 1.0e-30, "the value is quote balance plus price times base balance");
}
VP_ENTRY(c13_result) {
  World w;
  world = &w;
  w.max_orders = 1;
  const int n = static_cast<int>(vp_choice("n", N_TICKS + 1));
  const AccountConfig c = in_account();
  const OhlcHistory h = in_history(n + 2);      // the executed range lies inside the history
  w.config = &c;
  ScriptTrader tr(0);
  const OhlcHistory part(h.begin() + 1, h.begin() + 1 + n);
  const ExecutionResult r = ExecuteTrader(c, h.begin() + 1, h.begin() + 1 + n, nullptr, /*fast_eval=*/true, tr, nullptr);
  if (n == 0) {
    vp_check(!r.has_start_base_balance() && !r.has_end_value() && !r.has_total_executed_orders() && !r.has_total_fee() && !r.has_start_price(), "an empty range yields an empty result");
    vp_check(w.log.empty(), "an empty range executes nothing");
    return;
  }
  const Expect x = reference(c, part);
  vp_same_f(r.start_base_balance(), c.start_base_balance(), "start base balance");
  vp_same_f(r.start_quote_balance(), c.start_quote_balance(), "start quote balance");
  vp_same_f(r.end_base_balance(), x.base, "end base balance");
  vp_same_f(r.end_quote_balance(), x.quote, "end quote balance");
  vp_same_f(r.start_price(), part.front().close(), "start price is the close of the first tick");
  vp_same_f(r.end_price(), part.back().close(), "end price is the close of the last tick");
  value(r.start_value(), c.start_quote_balance(), part.front().close(), c.start_base_balance(), "start value");
  value(r.end_value(), x.quote, part.back().close(), x.base, "end value");
  vp_check(r.total_executed_orders() == x.executed, "the number of executed orders");
  vp_same_f(r.total_fee(), x.fee, "the total fee");
  vp_observe_f("end_value", r.end_value());
  vp_observe_i("executed", r.total_executed_orders());
}

VP_ENTRY(c14_side) {
  World w;
  world = &w;
  w.max_orders = 0;
  const int n = static_cast<int>(vp_choice("n", N_TICKS + 1));
  const int m = static_cast<int>(vp_choice("records", N_REC + 1));
  const int k = 1 + static_cast<int>(vp_choice("signals", 2));
  const AccountConfig c = in_account();
  const OhlcHistory h = in_history(n);
  SideHistory side;
  int64_t prev = 0;
  for (int i = 0; i < m; ++i) {
    SideInputRecord rec;
    const int64_t ts = vp_i64(vp_name("s", i), 1, TMAX);
    vp_assume(ts > prev);
    prev = ts;
    rec.set_timestamp_sec(ts);
    for (int j = 0; j < k; ++j) rec.add_signal(vp_f32(vp_name(j ? "y" : "x", i), -1.0e6f, 1.0e6f));
    side.push_back(rec);
  }
  std::unique_ptr<SideInput> input;
  if (m || vp_choice("configured", 2)) input = std::make_unique<SideInput>(side);
  w.config = &c;
  ScriptTrader tr(0);
  ExecuteTrader(c, h.begin(), h.end(), input.get(), /*fast_eval=*/true, tr, nullptr);
  size_t e = 0;
  for (int i = 0; i < n; ++i) {
    if (vp_fork(h[i].volume() == 0)) continue;
    vp_check(e < w.log.size() && w.log[e].kind == kCall, "the trader is called on every tick with volume");
    if (!(e < w.log.size() && w.log[e].kind == kCall)) return;
    const Event& got = w.log[e++];
    int at = -1;
    for (int j = 0; j < m; ++j)
      if (vp_fork(side[j].timestamp_sec() <= h[i].timestamp_sec())) at = j;
      else break;
    vp_observe_i(vp_name("signals_at", i), n_signals(got));
    if (at < 0) {
      vp_check(got.signals.empty(), "no signals before the first record or without side input");
      continue;
    }
    vp_cover("signals");
    vp_check(n_signals(got) == k + 1, "the record's signals followed by its age");
    if (n_signals(got) != k + 1) return;
    for (int j = 0; j < k; ++j) vp_same_f(got.signals[j], side[at].signal(j), "the signals of the latest record not after the tick");
    vp_same_f(got.signals[k], static_cast<float>(h[i].timestamp_sec() - side[at].timestamp_sec()), "the age of the record in seconds");
  }
  vp_check(e == w.log.size(), "the trader is not called otherwise");
}

static void same_result(const ExecutionResult& a, const ExecutionResult& b, const char* l) {
  vp_same_f(a.start_base_balance(), b.start_base_balance(), l);
  vp_same_f(a.start_quote_balance(), b.start_quote_balance(), l);
  vp_same_f(a.end_base_balance(), b.end_base_balance(), l);
  vp_same_f(a.end_quote_balance(), b.end_quote_balance(), l);
  vp_same_f(a.start_price(), b.start_price(), l);
  vp_same_f(a.end_price(), b.end_price(), l);
  vp_same_f(a.start_value(), b.start_value(), l);
  vp_same_f(a.end_value(), b.end_value(), l);
  vp_check(a.total_executed_orders() == b.total_executed_orders(), l);
  vp_same_f(a.total_fee(), b.total_fee(), l);
}
VP_ENTRY(c15_modes) {
  const int n = static_cast<int>(vp_choice("n", N_TICKS + 1));
  const AccountConfig c = in_account();
  const OhlcHistory h = in_history(n);
  const int mode = 1 + static_cast<int>(vp_choice("mode", 3));         // bit 0: logger, bit 1: volatility figures
  World a, b;
  a.config = b.config = &c;
  a.max_orders = b.max_orders = n >= 3 ? 1 : N_ORD;
  world = &a;
  ScriptTrader t1(0), t2(0);
  const ExecutionResult r1 = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/true, t1, nullptr);
  world = &b;
  EventLogger log;
  const ExecutionResult r2 = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/!(mode & 2), t2, mode & 1 ? &log : nullptr);
  same_result(r2, r1, "same balances, prices, values, fee and number of orders in every mode");
  vp_check(!r1.has_base_volatility() && !r1.has_trader_volatility(), "fast evaluation leaves out the volatility figures");
  if (n > 0) vp_check(r2.has_base_volatility() == !!(mode & 2) && r2.has_trader_volatility() == !!(mode & 2), "otherwise both volatility figures are given");
  const std::vector<Event> x = only(a.log, {kCall, kExec}), y = only(b.log, {kCall, kExec});
  vp_check(x.size() == y.size(), "same trader calls and order attempts in every mode");
  for (size_t i = 0; i < x.size() && i < y.size(); ++i) {
    vp_check(x[i].kind == y[i].kind, "same trader calls and order attempts in every mode");
    if (x[i].kind != y[i].kind) break;
    same_tick(x[i].tick, y[i].tick, "same ticks in every mode");
    vp_same_f(x[i].base, y[i].base, "same balances seen in every mode");
    vp_same_f(x[i].quote, y[i].quote, "same balances seen in every mode");
    if (x[i].kind == kExec) same_order(x[i].order, y[i].order, "same orders in every mode");
  }
}

VP_ENTRY(c16_log) {
  World w;
  world = &w;
  const int n = static_cast<int>(vp_choice("n", N_TICKS + 1));
  w.max_orders = n >= 3 ? 1 : N_ORD;
  const AccountConfig c = in_account();
  const OhlcHistory h = in_history(n);
  w.config = &c;
  ScriptTrader tr(0);
  EventLogger log;
  ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/true, tr, &log);
  const Expect x = reference(c, h);
  const std::vector<Event> got = only(w.log, {kTick, kFill, kCall}), want = only(x.log, {kTick, kFill, kCall});
  vp_observe_i("rows", static_cast<int64_t>(got.size()));
  vp_check(got.size() == want.size(), "one row per tick and per executed order");
  size_t calls = 0;
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    vp_check(got[i].kind == want[i].kind, "the tick row, then the executed orders in execution order, then the trader");
    if (got[i].kind != want[i].kind) break;
    if (got[i].kind == kCall) {
      ++calls;
      continue;
    }
    same_tick(got[i].tick, want[i].tick, "a row carries the current tick");
    if (got[i].kind == kTick) same_account(got[i], want[i], "a tick row carries the account before any execution on the tick");
    if (got[i].kind == kFill) {
      vp_cover("fill");
      same_account(got[i], want[i], "an order row carries the account right after that order");
      same_order(got[i].order, want[i].order, "an order row carries the executed order");
    }
  }
  // the state is logged once per call, after it
  vp_check(log.states.size() == calls, "the trader's state is logged once per call");
  for (size_t i = 0; i < log.states.size(); ++i) vp_check(log.states[i] == vp_name("s", static_cast<int>(i) + 1), "the trader's state is logged after the call");
}

// Many orders at once, long gaps and long histories: the whole event sequence
// against the documented one.
#ifndef N_BURST
#define N_BURST 2
#endif
static const int kBursts[] = {11, 40, 70};
static OhlcHistory in_long_history(int n, int gap_at, int gap_len) {
  OhlcHistory h;
  int64_t ts = vp_i64("t0", 1, TMAX);
  for (int i = 0; i < n; ++i) {
    if (i) ts = ts + 300;
    h.push_back(in_tick(i, ts));
    h.back().set_volume(i >= gap_at && i < gap_at + gap_len ? 0.0f : 1.0f + i);
  }
  return h;
}
static void many(std::initializer_list<int> kinds, bool logger) {
  World w;
  world = &w;
  w.plan = true;
  w.burst = kBursts[vp_choice("burst", N_BURST)];
  const int hits[] = {-1, w.burst - 1, w.burst, 8};     // everything, one of them, nothing
  w.hit = hits[vp_choice("hit", 4)];
  const int lens[] = {0, 2, 12};
  const int len = lens[vp_choice("gap", 3)], n = len + 8;
  const AccountConfig c = in_account();
  const OhlcHistory h = in_long_history(n, 1 + w.burst % 2, len);
  w.config = &c;
  ScriptTrader tr(0);
  EventLogger log;
  const ExecutionResult r = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/true, tr, logger ? &log : nullptr);
  const Expect x = reference(c, h);
  const std::vector<Event> got = only(w.log, kinds), want = only(x.log, kinds);
  vp_observe_i("events", static_cast<int64_t>(got.size()));
  vp_check(got.size() == want.size(), "many orders: as many trader calls, executions and log rows as documented");
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    vp_check(got[i].kind == want[i].kind, "many orders: the documented sequence of events");
    if (got[i].kind != want[i].kind) return;
    vp_check(got[i].tick.timestamp_sec() == want[i].tick.timestamp_sec(), "many orders: every event on its tick");
    if (got[i].kind == kExec || got[i].kind == kFill) same_order(got[i].order, want[i].order, "many orders: each is tried until it is executed, in the order of emission");
    vp_same_f(got[i].base, want[i].base, "many orders: the account after the previous ones");
    vp_same_f(got[i].quote, want[i].quote, "many orders: the account after the previous ones");
  }
  vp_check(r.total_executed_orders() == x.executed, "many orders: the number of executed orders");
  vp_same_f(r.end_base_balance(), x.base, "many orders: the end base balance");
  vp_same_f(r.end_quote_balance(), x.quote, "many orders: the end quote balance");
}
VP_ENTRY(c11_many) { many({kCall, kExec}, false); }
VP_ENTRY(c12_many) { many({kExec}, false); }
VP_ENTRY(c13_many) { many({}, false); }
VP_ENTRY(c16_many) { many({kTick, kFill, kCall}, true); }

// ---------------------------------------------------- the volatility figures
static void figure(float got, float daily, const char* l) {
  const float want = daily * std::sqrt(365);
  if (vp_fork(vp_eqf(got, want))) vp_check(true, l);
  else vp_close(got, want, 1.0e-5 * static_cast<double>(want) + 1.0e-30, l);
}
VP_ENTRY(c55_volatility) {
  World w;
  world = &w;
  w.max_orders = 1;
  const int n = 1 + static_cast<int>(vp_choice("n", N_TICKS));
  AccountConfig c = in_account();
  c.set_start_base_balance(vp_f32("start_base", 0.0f, 1.0e3f));
  OhlcHistory h;
  int64_t ts = vp_i64("t0", 1, TMAX);
  const int64_t steps[] = {3600, 86400, 200000};
  for (int i = 0; i < n; ++i) {
    if (i) ts = ts + (n <= 2 ? vp_i64(vp_name("dt", i), 1, 260000) : steps[vp_choice(vp_name("step", i), 3)]);
    h.push_back(in_tick(i, ts));
  }
  w.config = &c;
  ScriptTrader tr(0);
  const ExecutionResult r = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/false, tr, nullptr);
  const Expect x = reference(c, h);
  // what a Volatility yields is decided by C35; here: which ones are reported
  Volatility price(0, 86400), portfolio(0, 86400);
  for (const Event& e : only(x.log, {kCall})) {
    price.Update(e.tick, 1.0f, 0.0f);
    portfolio.Update(e.tick, e.base, e.quote);
  }
  vp_check(r.has_base_volatility() && r.has_trader_volatility(), "both figures are reported");
  vp_observe_f("base", r.base_volatility());
  vp_observe_f("trader", r.trader_volatility());
  figure(r.base_volatility(), price.GetVolatility(), "the base volatility is the annualised deviation of the daily log returns of the price");
  figure(r.trader_volatility(), portfolio.GetVolatility(), "the trader volatility is the annualised deviation of the daily log returns of its portfolio");
}

// the same over longer histories with values from a small table
VP_ENTRY(c55_days) {
  World w;
  world = &w;
  w.plan = w.fixed = true;
  w.burst = 1;
  w.hit = -1;                                        // every order is executed on the next tick
  const int n = 6, odd = static_cast<int>(vp_choice("odd", n)), kind = static_cast<int>(vp_choice("kind", 3)), holds = static_cast<int>(vp_choice("holds", 2)),
            step = vp_choice("step", 2) ? 90000 : 43200;
  AccountConfig c;
  c.set_start_base_balance(holds ? 20.0f : 0.0f);
  c.set_start_quote_balance(1000.0f);
  OhlcHistory h;
  const float closes[] = {10, 11, 9.5f, 12, 12, 10.5f};
  int64_t ts = 1600000000;
  for (int i = 0; i < n; ++i) {
    OhlcTick t;
    const bool is = i == odd;
    ts += is && kind == 1 ? 3 * step : step;         // a missing stretch before this tick
    t.set_timestamp_sec(ts);
    t.set_open(i ? closes[i - 1] : 10.25f);
    t.set_high(30.0f);
    t.set_low(5.0f);
    t.set_close(closes[i]);
    t.set_volume(is && kind == 0 ? 0.0f : 1.0f);     // no trades on this tick
    h.push_back(t);
  }
  w.config = &c;
  ScriptTrader tr(0);
  const ExecutionResult r = ExecuteTrader(c, h.begin(), h.end(), nullptr, /*fast_eval=*/false, tr, nullptr);
  const Expect x = reference(c, h);
  Volatility price(0, 86400), portfolio(0, 86400);
  for (const Event& e : only(x.log, {kCall})) {
    price.Update(e.tick, 1.0f, 0.0f);
    portfolio.Update(e.tick, e.base, e.quote);
  }
  vp_observe_f("base", r.base_volatility());
  vp_observe_f("trader", r.trader_volatility());
  figure(r.base_volatility(), price.GetVolatility(), "the base volatility is the annualised deviation of the daily log returns of the price");
  figure(r.trader_volatility(), portfolio.GetVolatility(), "the trader volatility is the annualised deviation of the daily log returns of its portfolio");
}

// ------------------------------------------------------------ EvaluateTrader
class ScriptEmitter : public TraderEmitter {
 public:
  explicit ScriptEmitter(std::string name = "trader,x") : name_(std::move(name)) {}
  std::string GetName() const override { return name_; }
  std::unique_ptr<Trader> NewTrader() const override { return std::make_unique<ScriptTrader>(world->traders++); }

 private:
  std::string name_;
};
struct Ymd { int y, m, d, sec; };
static int64_t days(int y, int m, int d) {        // days since 1970-01-01
  while (m > 12) { m -= 12; ++y; }
  while (m < 1) { m += 12; --y; }
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  const int yy = m > 2 ? y : y - 1;
  const int64_t leaps = yy / 4 - yy / 100 + yy / 400 - (1969 / 4 - 1969 / 100 + 1969 / 400);
  return (y - 1970) * 365LL + leaps + cum[m - 1] + d - 1;
}
static int64_t month(const Ymd& s, int k) { return days(s.y, s.m + k, s.d) * 86400 + s.sec; }
// a window starts on the day that the month offset leads to, and ends that many months after its own start
static Ymd moved(const Ymd& s, int k) {
  static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  Ymd w = s;
  w.m += k;
  while (w.m > 12) { w.m -= 12; ++w.y; }
  while (w.m < 1) { w.m += 12; --w.y; }
  const int n = w.m == 2 && ((w.y % 4 == 0 && w.y % 100 != 0) || w.y % 400 == 0) ? 29 : dim[w.m - 1];
  if (w.d > n) { w.d -= n; ++w.m; }       // never December
  return w;
}
static const Ymd kStarts[] = {{2019, 12, 1, 0}, {2016, 1, 28, 86399}, {1970, 11, 15, 3600}, {2019, 10, 31, 43200}};

// windows: of len months each, up to np of them, and n ticks
static void windows_of(const Ymd& s, int len, int n, int np, bool free_end) {
  World w;
  world = &w;
  w.max_orders = 0;
  const int64_t start = month(s, 0), end = free_end ? vp_i64("end", start, month(s, np + 1) + 86400) : month(s, np + 1);
  AccountConfig c;
  c.set_start_quote_balance(100.0f);
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(end);
  ec.set_evaluation_period_months(len);
  ec.set_fast_eval(true);
  OhlcHistory h;
  int64_t prev = 0;
  for (int i = 0; i < n; ++i) {
    const int64_t ts = vp_i64(vp_name("ts", i), 1, month(s, np + 2));
    vp_assume(ts > prev);
    prev = ts;
    OhlcTick t;
    t.set_timestamp_sec(ts);
    t.set_open(1);
    t.set_high(1);
    t.set_low(1);
    t.set_close(1.0f + i);
    t.set_volume(1);
    h.push_back(t);
  }
  if (len == 0 && n == 0) return;     // termination without ticks: c20
  if (len == 0) {                     // likewise
    bool any = false;
    for (int i = 0; i < n; ++i) any = vp_fork(vp_and(h[i].timestamp_sec() >= start, h[i].timestamp_sec() < end)) || any;
    if (!any) return;
  }
  ScriptEmitter em;
  const EvaluationResult r = EvaluateTrader(c, ec, h, nullptr, em, nullptr);
  int periods = 0;
  size_t e = 0;
  for (int k = 0; k <= (len == 0 ? 0 : np + 2); ++k) {
    const int64_t a = month(s, k), b = len == 0 ? end : month(moved(s, k), len);
    if (vp_fork(b > end)) break;
    std::vector<const OhlcTick*> in;
    for (int i = 0; i < n; ++i)
      if (vp_fork(vp_and(h[i].timestamp_sec() >= a, h[i].timestamp_sec() < b))) in.push_back(&h[i]);
    if (in.empty()) continue;
    vp_cover("period");
    vp_check(periods < r.period_size(), "every window with ticks is evaluated");
    if (periods >= r.period_size()) return;
    const EvaluationResult::Period& p = r.period(periods);
    vp_check(p.start_timestamp_sec() == a, "a period starts at its month offset");
    vp_check(p.end_timestamp_sec() == b, "a period ends after the configured number of months");
    for (const OhlcTick* t : in) {
      vp_check(e < w.log.size() && w.log[e].kind == kCall, "a period runs over all ticks of its window");
      if (e >= w.log.size()) return;
      vp_check(w.log[e].tick.timestamp_sec() == t->timestamp_sec(), "a period runs over exactly the ticks of its window");
      vp_check(w.log[e].trader == periods, "each period runs a freshly created trader");
      ++e;
    }
    ++periods;
  }
  vp_observe_i("periods", r.period_size());
  vp_check(periods == r.period_size(), "no other window is evaluated");
  vp_check(e == w.log.size(), "no other tick is executed");
  vp_check(w.traders == periods, "one trader per period");
}

VP_ENTRY(c17_windows) {
  const Ymd& s = kStarts[vp_choice("start", 4)];
  const int len = static_cast<int>(vp_choice("months", 4));
  windows_of(s, len, static_cast<int>(vp_choice("n", N_PER + 1)), N_PER, true);
}
// many windows
VP_ENTRY(c17_long) {
  const Ymd& s = kStarts[2 + vp_choice("start", 2)];
  windows_of(s, vp_choice("months", 2) ? 12 : 1, 1, 14, false);
}

VP_ENTRY(c18_scores) {
  World w;
  world = &w;
  w.max_orders = 1;
  const int periods = static_cast<int>(vp_choice("periods", N_PER));
  const AccountConfig c = in_account();
  const Ymd& s = kStarts[0];
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(month(s, 0));
  ec.set_end_timestamp_sec(month(s, periods == 0 ? 1 : periods));
  ec.set_evaluation_period_months(1);
  ec.set_fast_eval(vp_choice("fast", 2));
  OhlcHistory h;
  for (int i = 0; i < periods; ++i)
    for (int j = 0; j < 2; ++j) {
      OhlcTick t = in_tick(2 * i + j, month(s, i) + 86400 * j);
      t.set_volume(1);
      h.push_back(t);
    }
  w.config = &c;
  ScriptEmitter em;
  const EvaluationResult r = EvaluateTrader(c, ec, h, nullptr, em, nullptr);
  vp_check(r.name() == "trader,x", "the result carries the trader name");
  vp_same_f(r.account_config().start_base_balance(), c.start_base_balance(), "the result carries the account configuration");
  vp_same_f(r.account_config().base_unit(), c.base_unit(), "the result carries the account configuration");
  vp_check(r.eval_config().start_timestamp_sec() == ec.start_timestamp_sec() && r.eval_config().end_timestamp_sec() == ec.end_timestamp_sec() &&
           r.eval_config().evaluation_period_months() == 1 && r.eval_config().fast_eval() == ec.fast_eval(), "the result carries the evaluation configuration");
  vp_check(r.period_size() == periods, "the periods");
  if (r.period_size() != periods) return;
  float gain = 0, base = 0, orders = 0, fee = 0;
  double mul = 1;
  int emitted = 0, attempts = 0, calls = 0;
  for (int i = 0; i < periods; ++i) {
    const EvaluationResult::Period& p = r.period(i);
    float eb = c.start_base_balance(), eq = c.start_quote_balance(), ef = 0;
    int done = 0;
    const int k = static_cast<int>(vp_choice(vp_name("emit", calls), 2));
    calls += 2;
    if (k) {
      ++emitted;
      const int at = attempts++;
      if (vp_choice(vp_name("accept", at), 2)) {
        ++done;
        eb = vp_f32(vp_name("base", at), 0.0f, 1.0e6f);
        eq = vp_f32(vp_name("quote", at), 0.0f, 1.0e6f);
        ef = vp_f32(vp_name("fee", at), 0.0f, 1.0e6f);
      }
    }
    const float sp = h[2 * i].close(), ep = h[2 * i + 1].close();
    vp_same_f(p.result().end_base_balance(), eb, "a period carries its execution result");
    vp_same_f(p.result().end_quote_balance(), eq, "a period carries its execution result");
    vp_same_f(p.result().total_fee(), ef, "a period carries its execution result");
    vp_check(p.result().total_executed_orders() == done, "a period carries its execution result");
    const float sv = c.start_quote_balance() + sp * c.start_base_balance(), ev = eq + ep * eb;
    vp_same_f(p.final_gain(), ev / sv, "the trader gain is end value / start value");
    vp_same_f(p.base_final_gain(), ep / sp, "the baseline gain is end price / start price");
    gain += p.final_gain();
    base += p.base_final_gain();
    orders += static_cast<float>(done);
    fee += ef;
    mul *= p.final_gain() / p.base_final_gain();
  }
  vp_observe_f("score", r.score());
  if (periods == 0) {
    vp_check(r.score() == 0 && r.avg_gain() == 0 && r.avg_base_gain() == 0 && r.avg_total_executed_orders() == 0 && r.avg_total_fee() == 0, "all zero without a period");
    return;
  }
  vp_cover("scored");
  vp_close(r.avg_gain(), gain / periods, 1.0e-5 * gain, "the average gain");
  vp_close(r.avg_base_gain(), base / periods, 1.0e-5 * base, "the average baseline gain");
  vp_close(r.avg_total_executed_orders(), orders / periods, 1.0e-5 * orders, "the average number of executed orders");
  vp_close(r.avg_total_fee(), fee / periods, 1.0e-5 * fee, "the average fee");
  const double want = periods == 1 ? static_cast<double>(static_cast<float>(mul)) : std::pow(mul, 1.0 / periods);
  vp_close(r.score(), static_cast<float>(want), 1.0e-4 * want, "the score is the geometric mean of gain / baseline gain");
}

// -------------------------------------------------------------- the batch
static void same_eval(const EvaluationResult& a, const EvaluationResult& b, const char* l) {
  vp_check(a.name() == b.name(), l);
  vp_check(a.eval_config().start_timestamp_sec() == b.eval_config().start_timestamp_sec() && a.eval_config().end_timestamp_sec() == b.eval_config().end_timestamp_sec() &&
           a.eval_config().evaluation_period_months() == b.eval_config().evaluation_period_months() && a.eval_config().fast_eval() == b.eval_config().fast_eval(), l);
  vp_same_f(a.account_config().start_quote_balance(), b.account_config().start_quote_balance(), l);
  vp_same_f(a.account_config().start_base_balance(), b.account_config().start_base_balance(), l);
  vp_check(a.period_size() == b.period_size(), l);
  if (a.period_size() == b.period_size())
    for (int i = 0; i < a.period_size(); ++i) {
      vp_check(a.period(i).start_timestamp_sec() == b.period(i).start_timestamp_sec() && a.period(i).end_timestamp_sec() == b.period(i).end_timestamp_sec(), l);
      same_result(a.period(i).result(), b.period(i).result(), l);
      vp_same_f(a.period(i).final_gain(), b.period(i).final_gain(), l);
      vp_same_f(a.period(i).base_final_gain(), b.period(i).base_final_gain(), l);
    }
  vp_same_f(a.score(), b.score(), l);
  vp_same_f(a.avg_gain(), b.avg_gain(), l);
  vp_same_f(a.avg_base_gain(), b.avg_base_gain(), l);
  vp_same_f(a.avg_total_executed_orders(), b.avg_total_executed_orders(), l);
  vp_same_f(a.avg_total_fee(), b.avg_total_fee(), l);
}
namespace vpfut {
void preempt(int limit) __attribute__((weak));
int& calm() __attribute__((weak));
}
#ifndef N_PREEMPT
#define N_PREEMPT 1
#endif
// A trader whose orders depend on its own kind and on what it has seen.
class KindTrader : public Trader {
 public:
  explicit KindTrader(int kind) : kind_(kind) {}
  void Update(const OhlcTick& t, const std::vector<float>& s, float base, float quote, std::vector<Order>& orders) override {
    if (vpfut::preempt) vpfut::preempt(N_PREEMPT);      // the thread may lose the processor here
    if (!s.empty()) seen_ = s[0];
    Order o;
    o.set_type(Order::MARKET);
    o.set_side(kind_ % 2 ? Order::BUY : Order::SELL);
    o.set_base_amount(1.0f + kind_ + calls_++);
    o.set_price(t.close() + seen_);
    orders.push_back(o);
  }
  std::string GetInternalState() const override { return "k"; }

 private:
  int kind_, calls_ = 0;
  float seen_ = 0;
};
class KindEmitter : public TraderEmitter {
 public:
  explicit KindEmitter(int kind, bool named = true) : kind_(kind), named_(named) {}
  std::string GetName() const override { return named_ ? vp_name("kind", kind_) : "kind"; }
  std::unique_ptr<Trader> NewTrader() const override { return std::make_unique<KindTrader>(kind_); }

 private:
  int kind_;
  bool named_;
};
// replaces Account::ExecuteOrder: the account becomes a function of the order and the tick
extern "C" bool vp_exec_fun(Account* a, const AccountConfig& c, const Order& o, const OhlcTick& t) {
  if (vpfut::preempt) vpfut::preempt(N_PREEMPT);
  a->base_balance = a->base_balance + o.base_amount();
  a->quote_balance = a->quote_balance + (o.side() == Order::BUY ? 0.5f : 0.25f);
  a->total_fee = o.price();
  return true;
}
VP_ENTRY(c19_batch) {
  const int n = static_cast<int>(vp_choice("traders", N_BATCH + 1));
  const int months = static_cast<int>(vp_choice("months", 2));
  AccountConfig c;
  c.set_start_base_balance(vp_f32("start_base", 1.0f, 10.0f));
  c.set_start_quote_balance(vp_f32("start_quote", 1.0f, 10.0f));
  EvaluationConfig ec;
  const Ymd& s = kStarts[0];
  ec.set_start_timestamp_sec(month(s, 0));
  ec.set_end_timestamp_sec(month(s, 2));
  ec.set_evaluation_period_months(months);
  ec.set_fast_eval(true);
  OhlcHistory h;
  for (int i = 0; i < 4; ++i) {
    OhlcTick t = in_tick(i, month(s, i / 2) + 86400 * (i % 2));
    t.set_volume(1);
    h.push_back(t);
  }
  SideHistory side(1);
  side[0].set_timestamp_sec(month(s, 0) + 10);
  side[0].add_signal(vp_f32("signal", -1.0f, 1.0f));
  const SideInput input(side);
  const bool with_side = vp_choice("side", 2);
  std::vector<std::unique_ptr<TraderEmitter>> batch;
  const int alike = n > 1 ? static_cast<int>(vp_choice("alike", 3)) : 0;   // 1: equal emitters, 2: different ones with the same name
  for (int i = 0; i < n; ++i) batch.push_back(std::make_unique<KindEmitter>(alike == 1 ? 0 : i, alike != 2));
  const std::vector<EvaluationResult> r = EvaluateBatchOfTraders(c, ec, h, with_side ? &input : nullptr, batch);
  vp_observe_i("results", static_cast<int64_t>(r.size()));
  vp_check(static_cast<int>(r.size()) == n, "one result per trader");
  if (static_cast<int>(r.size()) != n) return;
  for (int i = 0; i < n; ++i)
    same_eval(r[i], EvaluateTrader(c, ec, h, with_side ? &input : nullptr, *batch[i], nullptr), "a result equals that of evaluating the trader alone");
}

// many traders, in the two plainest schedules
VP_ENTRY(c19_many) {
  const int n = 17 + 24 * static_cast<int>(vp_choice("traders", 2));
  if (vpfut::calm) vpfut::calm() = 1 + static_cast<int>(vp_choice("schedule", 2));
  AccountConfig c;
  c.set_start_base_balance(vp_f32("start_base", 1.0f, 10.0f));
  c.set_start_quote_balance(vp_f32("start_quote", 1.0f, 10.0f));
  EvaluationConfig ec;
  const Ymd& s = kStarts[0];
  ec.set_start_timestamp_sec(month(s, 0));
  ec.set_end_timestamp_sec(month(s, 2));
  ec.set_fast_eval(true);
  OhlcHistory h;
  for (int i = 0; i < 2; ++i) {
    OhlcTick t = in_tick(i, month(s, 0) + 86400 * i);
    t.set_volume(1);
    h.push_back(t);
  }
  std::vector<std::unique_ptr<TraderEmitter>> batch;
  for (int i = 0; i < n; ++i) batch.push_back(std::make_unique<KindEmitter>((i * 7) % n));
  const std::vector<EvaluationResult> r = EvaluateBatchOfTraders(c, ec, h, nullptr, batch);
  vp_check(static_cast<int>(r.size()) == n, "one result per trader");
  if (static_cast<int>(r.size()) != n) return;
  for (int i = 0; i < n; ++i) {
    vp_check(r[i].name() == batch[i]->GetName(), "the results are in the order of the traders");
    same_eval(r[i], EvaluateTrader(c, ec, h, nullptr, *batch[i], nullptr), "a result equals that of evaluating the trader alone");
  }
}

// ------------------------------------------------------------- termination
static int windows = 0, window_limit = 0;
extern "C" int64_t vp_add_months(int64_t ts, int months) {
  if (++windows > window_limit) {
    vp_check(false, "the evaluation terminates after the windows between start and end");
    vp_end();
  }
  return absl::ToUnixSeconds(AddMonthsToTime(absl::FromUnixSeconds(ts), months));
}
static void ends(int len, int max_ticks, bool sides) {
  World w;
  world = &w;
  w.max_orders = 0;
  const Ymd& s = kStarts[vp_choice("start", 3)];
  const int n = static_cast<int>(vp_choice("n", max_ticks + 1));
  const int64_t start = month(s, 0), end = vp_i64("end", month(s, -2), month(s, 4));
  windows = 0;
  window_limit = 40;
  AccountConfig c;
  c.set_start_quote_balance(100.0f);
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(end);
  ec.set_evaluation_period_months(len);
  ec.set_fast_eval(true);
  OhlcHistory h;
  int64_t prev = 0;
  for (int i = 0; i < n; ++i) {
    const int64_t ts = vp_i64(vp_name("ts", i), 1, month(s, 6));
    vp_assume(ts >= prev);
    prev = ts;
    OhlcTick t;
    t.set_timestamp_sec(ts);
    t.set_open(1);
    t.set_high(1);
    t.set_low(1);
    t.set_close(1.0f + i);
    t.set_volume(vp_choice(vp_name("volume", i), 2) ? 1.0f : 0.0f);
    h.push_back(t);
  }
  ScriptEmitter em;
  SideHistory sh;
  if (sides && vp_choice("side", 2)) {
    SideInputRecord rec;
    rec.set_timestamp_sec(vp_i64("side_ts", 1, month(s, 4)));
    rec.add_signal(1);
    sh.push_back(rec);
  }
  const SideInput side(sh);
  const EvaluationResult r = EvaluateTrader(c, ec, h, sh.empty() ? nullptr : &side, em, nullptr);
  vp_observe_i("periods", r.period_size());
  if (r.period_size() == 0) vp_cover("no period");
  for (const Event& e : w.log) {
    vp_check(e.kind == kCall, "only the history is executed");
    bool in = false;
    for (const OhlcTick& t : h) in = vp_or(in, t.timestamp_sec() == e.tick.timestamp_sec());
    vp_check(in, "only ticks of the history are executed");
    vp_check(vp_and(e.tick.timestamp_sec() >= start, e.tick.timestamp_sec() < end), "only ticks of the evaluation interval are executed");
  }
}
VP_ENTRY(c20_end) { ends(static_cast<int>(vp_choice("months", 4)), 2, true); }
// lengths that make no sense still end
VP_ENTRY(c20_negative) { ends(-1 - static_cast<int>(vp_choice("months", 2)) * 11, 2, false); }
