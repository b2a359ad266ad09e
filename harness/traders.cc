// The built-in traders: the orders they emit for arbitrary balances, prices and configurations.
#include <cmath>
#include <memory>
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "base/base.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"
#include "vp.h"
using namespace trader;
#ifndef N_STOP
#define N_STOP 3
#endif
#ifndef N_LIST
#define N_LIST 2
#endif

static OhlcTick tick(int64_t ts, float close) {
  OhlcTick t;
  t.set_timestamp_sec(ts);
  t.set_open(close);
  t.set_high(close);
  t.set_low(close);
  t.set_close(close);
  t.set_volume(1);
  return t;
}
static bool is(const Order& o, Order::Type type, Order::Side side) { return o.type() == type && o.side() == side; }
static void eqf_or_close(float got, float ref, double tol, const char* l) {
  if (vp_fork(vp_eqf(got, ref))) vp_check(true, l);
  else vp_close(got, ref, tol, l);
}

// ------------------------------------------------------- rebalancing trader
struct Reb {
  float base = 0, quote = 0, price, alpha, eps, up, down, value, share;
  std::vector<Order> orders;
  int state;                        // reference: 1 above, 2 below, 0 inside the band
  int got;                          // 1 market sell, 2 market buy, 0 neither
  Reb(bool holds_base, bool holds_quote) {
    if (holds_base) base = vp_f32("base", 1.0e-5f, 1.0e6f);
    if (holds_quote) quote = vp_f32("quote", 1.0e-5f, 1.0e8f);
    price = vp_f32("price", 0.01f, 1.0e6f);
    alpha = vp_f32("alpha", 0.01f, 1.0f);
    eps = vp_f32("eps", 1.0e-3f, 0.9f);
    value = base * price + quote;
    up = alpha * (1 + eps);
    down = alpha * (1 - eps);
    share = base * price / value;
  }
  void run(Trader& t) { t.Update(tick(vp_i64("t0", 1, 8000000000LL), price), {}, base, quote, orders); }
  void run() {
    RebalancingTraderConfig c;
    c.set_alpha(alpha);
    c.set_epsilon(eps);
    RebalancingTrader t(c);
    run(t);
    state = vp_fork(share > up) ? 1 : vp_fork(share < down) ? 2 : 0;
    got = 0;
    int market = 0;
    for (const Order& o : orders)
      if (o.type() == Order::MARKET) {
        ++market;
        got = o.side() == Order::SELL ? 1 : 2;
      }
    vp_observe_i("orders", static_cast<int64_t>(orders.size()));
    if (market) vp_check(orders.size() == 1, "a market order is the only order");
    // at the edge of the band, either reading is fine
    if (got != state) {
      const bool at_up = vp_and(share >= up * 0.9999f, share <= up * 1.0001f), at_down = vp_and(share >= down * 0.9999f, share <= down * 1.0001f);
      if (got != 2 && state != 2) vp_check(at_up, "a market sell exactly when the base share is above the band");
      else if (got != 1 && state != 1) vp_check(at_down, "a market buy exactly when the base share is below the band");
      else vp_check(false, "a market sell above the band, a market buy below it");
    }
  }
};
VP_ENTRY(c37_market) {
  const int holds = static_cast<int>(vp_choice("holds", 3));
  Reb r(holds != 1, holds != 0);
  r.run();
  if (r.got == 0 || r.got != r.state) return;
  const Order& o = r.orders[0];
  vp_check(o.has_base_amount(), "the market order is for a base amount");
  const double tol = 1.0e-4 * r.value / r.price;
  if (r.got == 1) {
    vp_cover("market sell");
    eqf_or_close(o.base_amount(), ((1 - r.alpha) * r.value - r.quote) / r.price, tol, "the market sell restores the target share");
  } else {
    vp_cover("market buy");
    eqf_or_close(o.base_amount(), (r.quote - (1 - r.alpha) * r.value) / r.price, tol, "the market buy restores the target share");
  }
  vp_observe_f("amount", o.base_amount());
}
// the reference amounts restore the target share
VP_ENTRY(c37_core) {
  const int sell = static_cast<int>(vp_choice("sell", 2));
  Reb r(true, true);
  const float x = sell ? ((1 - r.alpha) * r.value - r.quote) / r.price : (r.quote - (1 - r.alpha) * r.value) / r.price;
  const double left = static_cast<double>(r.base) * r.price + (sell ? -1.0 : 1.0) * static_cast<double>(x) * r.price;   // base currency after the trade, at the price
  vp_close(left, static_cast<double>(r.alpha) * r.value, 1.0e-5 * r.value, "the traded amount brings the share to alpha");
}

// prices at which the share reaches the band's edges
static float edge(const Reb& r, float share) { return share * r.quote / ((1 - share) * r.base); }
VP_ENTRY(c38_limit) {
  const int holds = static_cast<int>(vp_choice("holds", 3));
  Reb r(holds != 1, holds != 0);
  vp_assume(vp_or(r.up <= 0.999f, r.up >= 1.001f));
  r.run();
  if (r.state != 0 || r.got != 0) return;
  const Order *sell = nullptr, *buy = nullptr;
  for (const Order& o : r.orders) {
    vp_check(o.type() == Order::LIMIT, "only limit orders inside the band");
    if (o.side() == Order::SELL) {
      vp_check(sell == nullptr, "at most one limit sell");
      sell = &o;
    } else {
      vp_check(buy == nullptr, "at most one limit buy");
      buy = &o;
    }
  }
  if (holds != 2) {
    vp_check(r.orders.empty(), "no limit order without both balances");
    return;
  }
  const float sp = edge(r, r.up), bp = edge(r, r.down);
  const bool want_sell = vp_fork(r.up < 1) && vp_fork(sp > r.price) && vp_fork(sp < 100.0f * r.price);
  const bool want_buy = vp_fork(bp < r.price) && vp_fork(bp > r.price / 100.0f);
  if (want_sell != (sell != nullptr))
    vp_check(vp_or(vp_and(sp >= 0.999f * r.price, sp <= 1.001f * r.price), vp_and(sp >= 99.9f * r.price, sp <= 100.1f * r.price)), "a limit sell exactly if its price lies above the current one");
  if (want_buy != (buy != nullptr))
    vp_check(vp_or(vp_and(bp >= 0.999f * r.price, bp <= 1.001f * r.price), vp_and(bp >= 0.00999f * r.price, bp <= 0.01001f * r.price)), "a limit buy exactly if its price lies below the current one");
  if (sell != nullptr && want_sell) {
    vp_cover("limit sell");
    vp_check(sell->has_base_amount(), "a limit sell of a base amount");
    eqf_or_close(sell->price(), sp, 1.0e-3 * sp, "the limit sell price is the one at which the share reaches the upper edge");
    const float x = r.base * r.eps / (1 + r.eps);
    eqf_or_close(sell->base_amount(), x, 1.0e-3 * x, "the limit sell amount restores the target share");
    vp_check(sell->price() > r.price, "the limit sell lies above the price");
    vp_check(sell->price() < 100.1f * r.price, "the limit sell lies within a factor of 100");
    vp_observe_f("sell_price", sell->price());
  }
  if (buy != nullptr && want_buy) {
    vp_cover("limit buy");
    vp_check(buy->has_base_amount(), "a limit buy of a base amount");
    eqf_or_close(buy->price(), bp, 1.0e-3 * bp, "the limit buy price is the one at which the share reaches the lower edge");
    const float x = r.base * r.eps / (1 - r.eps);
    eqf_or_close(buy->base_amount(), x, 1.0e-3 * x, "the limit buy amount restores the target share");
    vp_check(buy->price() < r.price, "the limit buy lies below the price");
    vp_check(buy->price() > 0.00999f * r.price, "the limit buy lies within a factor of 100");
    vp_observe_f("buy_price", buy->price());
  }
}
// the reference prices and amounts: at the edge price the share is at the edge, and the trade restores alpha
VP_ENTRY(c38_core) {
  const float share = vp_f32("share", 1.0e-3f, 0.999f), base = vp_f32("base", 1.0e-5f, 1.0e6f), quote = vp_f32("quote", 1.0e-5f, 1.0e8f);
  // B p = s (B p + Q), that is (1 - s) B p = s Q
  const float other = (1 - share) * base, rest = share * quote, p = share * quote / ((1 - share) * base);
  vp_close(other * p, rest, 1.0e-5f * rest, "at the limit price the share is at the edge of the band");
  // (B - x) p = alpha (B p + Q) = B p / (1 + eps), that is x (1 + eps) = B eps, and likewise with 1 - eps
  const float eps = vp_f32("eps", 1.0e-3f, 0.9f), scale = vp_choice("sell", 2) ? 1 + eps : 1 - eps, part = base * eps, x = base * eps / scale;
  vp_close(x * scale, part, 1.0e-5f * part, "the limit amount restores the target share");
}

// --------------------------------------------------------------- valid orders
static void valid(const Order& o, float base, float quote, float price, double slack_base, double slack_quote, bool covered = false) {
  vp_check(o.has_type() && o.has_side(), "an order has a type and a side");
  vp_check(o.has_base_amount() != o.has_quote_amount(), "an order has one amount");
  const float amount = o.has_base_amount() ? o.base_amount() : o.quote_amount();
  vp_check(amount > 0, "an order has a positive amount");
  vp_check(amount < 1.0e30f, "an order has a finite amount");
  float at = price;
  if (o.type() != Order::MARKET) {
    vp_check(o.has_price(), "a limit or stop order has a price");
    vp_check(o.price() > 0, "a limit or stop order has a positive price");
    vp_check(o.price() < 1.0e30f, "a limit or stop order has a finite price");
    at = o.price();
  }
  if (o.side() == Order::SELL) {
    if (o.has_base_amount()) vp_check(amount <= base + slack_base, "a sell order is covered by the base balance");
    else vp_check(amount <= static_cast<double>(base) * at + slack_quote, "a sell order is covered by the base balance");
  } else {
    if (o.has_quote_amount()) vp_check(amount <= quote + slack_quote, "a buy order is covered by the quote balance");
    else if (!covered) vp_check(static_cast<double>(amount) * at <= quote + slack_quote, "a buy order is covered by the quote balance");
  }
}
// a limit buy at the lower edge is covered: x p = eps alpha Q / (1 - alpha (1 - eps)) <= Q
VP_ENTRY(c39_core) {
  const float base = vp_f32("base", 1.0e-5f, 1.0e6f), quote = vp_f32("quote", 1.0e-5f, 1.0e8f), eps = vp_f32("eps", 1.0e-3f, 0.9f), alpha = vp_f32("alpha", 0.01f, 1.0f);
  const float keep = 1 - eps, down = alpha * keep, rest = 1 - down;
  // per unit of base and quote currency
  const float x = eps / keep, p = down / rest;
  vp_check(x * p <= 1.001f, "a limit buy is covered by the quote balance");
}
VP_ENTRY(c39_rebalancing) {
  const int holds = static_cast<int>(vp_choice("holds", 3));
  Reb r(holds != 1, holds != 0);
  RebalancingTraderConfig c;
  c.set_alpha(r.alpha);
  c.set_epsilon(r.eps);
  RebalancingTrader t(c);
  r.run(t);
  for (const Order& o : r.orders) {
    vp_cover("order");
    // the reference limit buy is covered: c39_core
    const bool core = holds == 2 && is(o, Order::LIMIT, Order::BUY) && o.has_base_amount() &&
                      vp_fork(vp_and(vp_eqf(o.base_amount(), r.base * r.eps / (1 - r.eps)), vp_eqf(o.price(), edge(r, r.down))));
    valid(o, r.base, r.quote, r.price, 1.0e-3 * r.value / r.price, 1.0e-3 * r.value, core);
  }
}

// ---------------------------------------------------------------- stop trader
struct StopIn {
  StopTraderConfig c;
  float margin, move, inc, dec;
  StopIn() {
    margin = vp_f32("margin", 1.0e-3f, 0.9f);
    move = vp_f32("move", 1.0e-3f, 0.9f);
    inc = vp_f32("increase", 0.0f, 1.0f);
    dec = vp_f32("decrease", 0.0f, 0.9f);
    c.set_stop_order_margin(margin);
    c.set_stop_order_move_margin(move);
    c.set_stop_order_increase_per_day(inc);
    c.set_stop_order_decrease_per_day(dec);
  }
};
VP_ENTRY(c39_stop) {
  StopIn in;
  StopTrader t(in.c);
  int64_t ts = 0;
  for (int u = 0; u < 2; ++u) {
    ts += vp_i64(vp_name("dt", u), 1, 1000000);
    const int holds = static_cast<int>(vp_choice(vp_name("holds", u), 3));
    const float base = holds != 1 ? vp_f32(vp_name("base", u), 1.0e-5f, 1.0e6f) : 0, quote = holds != 0 ? vp_f32(vp_name("quote", u), 1.0e-5f, 1.0e8f) : 0,
                price = vp_f32(vp_name("price", u), 0.01f, 1.0e6f);
    std::vector<Order> orders;
    t.Update(tick(ts, price), {}, base, quote, orders);
    for (const Order& o : orders) {
      vp_cover("order");
      valid(o, base, quote, price, 0, 0);
    }
  }
}
VP_ENTRY(c40_stop) {
  StopIn in;
  StopTrader t(in.c);
  int64_t ts = 0;
  int mode = -1;                      // 0 holds mostly base, 1 mostly quote
  for (int u = 0; u < N_STOP; ++u) {
    const int64_t dt = vp_i64(vp_name("dt", u), 1, 1000000);
    ts += dt;
    const int holds = static_cast<int>(vp_choice(vp_name("holds", u), 3));
    const float base = holds != 1 ? vp_f32(vp_name("base", u), 1.0e-5f, 1.0e6f) : 0, quote = holds != 0 ? vp_f32(vp_name("quote", u), 1.0e-5f, 1.0e8f) : 0,
                price = vp_f32(vp_name("price", u), 0.01f, 1.0e6f);
    std::vector<Order> orders;
    t.Update(tick(ts, price), {}, base, quote, orders);
    vp_check(orders.size() == 1, "exactly one order per tick");
    if (orders.size() != 1) return;
    const Order& o = orders[0];
    vp_check(o.type() == Order::STOP, "the order is a stop order");
    const int want = vp_fork(base * price >= quote) ? 0 : 1;
    const int got = o.side() == Order::SELL ? 0 : 1;
    if (got != want)
      vp_check(vp_and(base * price >= 0.9999f * quote, base * price <= 1.0001f * quote), "a stop sell while at least half of the value is in base currency, a stop buy otherwise");
    if (got == 0) {
      vp_check(o.has_base_amount(), "a stop sell is for a base amount");
      vp_same_f(o.base_amount(), base, "a stop sell is for the entire base balance");
    } else {
      vp_check(o.has_quote_amount(), "a stop buy is for a quote amount");
      vp_same_f(o.quote_amount(), quote, "a stop buy is for the entire quote balance");
    }
    if (got != want) return;
    vp_check(o.has_price(), "the stop order has a price");
    if (got != mode || vp_fork(dt >= 3600)) {
      vp_cover("reset");
      const float ref = got == 0 ? (1 - in.margin) * price : (1 + in.margin) * price;
      eqf_or_close(o.price(), ref, 1.0e-5 * price, "the stop price starts at the margin from the closing price");
    } else {
      vp_cover("kept");
    }
    vp_observe_f("price", o.price());
    mode = got;
  }
}
// exactly half of the value in base currency, with values that are exact in float
VP_ENTRY(c40_half) {
  StopIn in;
  StopTrader t(in.c);
  const bool before = vp_choice("before", 2);
  std::vector<Order> orders;
  if (before) t.Update(tick(1000, 1.0f), {}, 0.0f, 1.0f, orders);      // was in cash
  orders.clear();
  const float base = static_cast<float>(vp_i64("base", 1, 1000)), price = static_cast<float>(vp_i64("price", 1, 1000));
  const float quote = base * price;
  t.Update(tick(1300, price), {}, base, quote, orders);
  vp_check(orders.size() == 1, "exactly one order per tick");
  if (orders.size() != 1) return;
  vp_check(orders[0].side() == Order::SELL, "a stop sell also while exactly half of the value is in base currency");
  eqf_or_close(orders[0].price(), (1 - in.margin) * price, 1.0e-5 * price, "its price is at the margin from the closing price");
  vp_observe_f("price", orders[0].price());
}
VP_ENTRY(c41_trail) {
  StopIn in;
  StopTrader t(in.c);
  const int mode = static_cast<int>(vp_choice("mode", 2));
  int64_t ts = vp_i64("t0", 1, 8000000000LL);
  float prev = 0;
  for (int u = 0; u < N_STOP; ++u) {
    const int64_t dt = u ? vp_i64(vp_name("dt", u), 1, 3599) : 0;
    ts += dt;
    const float amount = vp_f32(vp_name("amount", u), 1.0e-5f, 1.0e6f), price = vp_f32(vp_name("price", u), 0.01f, 1.0e6f);
    std::vector<Order> orders;
    t.Update(tick(ts, price), {}, mode == 0 ? amount : 0.0f, mode == 0 ? 0.0f : amount, orders);
    if (orders.size() != 1) return;                  // the property on the single stop order
    const float got = orders[0].price();
    vp_observe_f("price", got);
    if (u) {
      const float days = 86400 / static_cast<float>(dt);
      if (mode == 0) {
        const float edge = (1 - in.move) * price, rate = std::exp(std::log(1 + in.inc) / days) - 1, most = (1 + rate) * prev;
        vp_check(got >= prev, "a stop sell price never decreases");
        if (vp_fork(prev > edge)) {
          vp_check(vp_or(vp_eqf(got, prev), prev <= edge * 1.00001f), "the stop moves only when it is farther from the price than the move margin");
        } else {
          vp_cover("raised");
          vp_check(vp_or(got <= prev, got <= edge * 1.00001f), "the stop never moves past the move margin");
          vp_check(vp_or(got <= prev, static_cast<double>(got) <= most * 1.00001), "the stop rises by at most the configured rate");
          vp_check(vp_or(got >= edge * 0.99999f, static_cast<double>(got) >= most * 0.99999), "the stop rises as far as its limits allow");
        }
      } else {
        const float edge = (1 + in.move) * price, rate = 1 - std::exp(std::log(1 - in.dec) / days), most = (1 - rate) * prev;
        vp_check(got <= prev, "a stop buy price never increases");
        if (vp_fork(prev < edge)) {
          vp_check(vp_or(vp_eqf(got, prev), prev >= edge * 0.99999f), "the stop moves only when it is farther from the price than the move margin");
        } else {
          vp_cover("lowered");
          vp_check(vp_or(got >= prev, got >= edge * 0.99999f), "the stop never moves past the move margin");
          vp_check(vp_or(got >= prev, static_cast<double>(got) >= most * 0.99999), "the stop falls by at most the configured rate");
          vp_check(vp_or(got <= edge * 1.00001f, static_cast<double>(got) <= most * 1.00001), "the stop falls as far as its limits allow");
        }
      }
    }
    prev = got;
  }
}

// ------------------------------------------------------------------- batches
static bool same_orders(const std::vector<Order>& a, const std::vector<Order>& b) {
  if (a.size() != b.size()) return false;
  bool same = true;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].type() != b[i].type() || a[i].side() != b[i].side() || a[i].oneof_amount_case() != b[i].oneof_amount_case() || a[i].has_price() != b[i].has_price()) return false;
    same = vp_and(same, a[i].has_base_amount() ? vp_eqf(a[i].base_amount(), b[i].base_amount()) : vp_eqf(a[i].quote_amount(), b[i].quote_amount()));
    if (a[i].has_price()) same = vp_and(same, vp_eqf(a[i].price(), b[i].price()));
  }
  return same;
}
// what the trader does on a fixed sequence of ticks that reveals its configuration
static std::vector<Order> probe(Trader& t) {
  std::vector<Order> all, now;
  struct { int64_t ts; float price, base, quote; } const steps[] = {{1000, 1.0f, 1.0f, 0.0f}, {1300, 1.0f, 0.5f, 0.55f}, {3000, 1.5f, 1.0f, 0.0f},
                                                                    {4000, 2.0f, 0.0f, 1.0f}, {7000, 1.0f, 0.0f, 1.0f}};
  for (const auto& s : steps) {
    now.clear();
    t.Update(tick(s.ts, s.price), {}, s.base, s.quote, now);
    for (const Order& o : now) all.push_back(o);
  }
  return all;
}
// every expected trader is found, in place or anywhere in the batch
static void same_batch(const std::vector<std::unique_ptr<TraderEmitter>>& batch, const std::vector<std::unique_ptr<TraderEmitter>>& want) {
  vp_check(batch.size() == want.size(), "one trader for every combination of values");
  if (batch.size() != want.size()) return;
  std::vector<std::vector<Order>> got;
  for (const auto& e : batch) {
    const std::unique_ptr<Trader> t = e->NewTrader();
    got.push_back(probe(*t));
  }
  for (size_t k = 0; k < want.size(); ++k) {
    const std::unique_ptr<Trader> t = want[k]->NewTrader();
    const std::vector<Order> x = probe(*t);
    bool found = same_orders(got[k], x);
    if (!vp_fork(found)) {
      for (size_t j = 0; j < want.size(); ++j) found = vp_or(found, same_orders(got[j], x));
      vp_check(found, "every combination of values is in the batch");
    } else {
      vp_cover("combination");
      vp_same_text(batch[k]->GetName(), want[k]->GetName(), "a trader is named after its configuration");
    }
    // a second trader of the same emitter starts afresh
    const std::unique_ptr<Trader> t2 = batch[k]->NewTrader();
    vp_check(same_orders(probe(*t2), got[k]), "each trader is independent of those created before");
  }
}
static RebalancingTraderEmitter* reb(float alpha, float eps) {
  RebalancingTraderConfig c;
  c.set_alpha(alpha);
  c.set_epsilon(eps);
  return new RebalancingTraderEmitter(c);
}
static StopTraderEmitter* stop(float margin, float move, float inc, float dec) {
  StopTraderConfig c;
  c.set_stop_order_margin(margin);
  c.set_stop_order_move_margin(move);
  c.set_stop_order_increase_per_day(inc);
  c.set_stop_order_decrease_per_day(dec);
  return new StopTraderEmitter(c);
}
typedef std::vector<std::unique_ptr<TraderEmitter>> Batch;
static std::vector<float> values(const char* name, int limit, float lo, float hi) {
  const int n = static_cast<int>(vp_choice(vp_name(name, 0), limit + 1));
  std::vector<float> r;
  for (int i = 0; i < n; ++i) r.push_back(vp_f32(vp_name(name, i + 1), lo, hi));
  return r;
}
VP_ENTRY(c42_rebalancing) {
  const std::vector<float> as = values("alpha", N_LIST, 0.45f, 0.5f), es = values("eps", N_LIST, 0.2f, 0.3f);
  Batch want;
  for (float a : as)
    for (float e : es) want.emplace_back(reb(a, e));
  same_batch(RebalancingTraderEmitter::GetBatchOfTraders(as, es), want);
}
VP_ENTRY(c42_stop) {
  const std::vector<float> ms = values("margin", N_LIST, 0.2f, 0.3f), mv = values("move", N_LIST, 0.05f, 0.1f), is = values("inc", N_LIST, 0.1f, 0.9f),
                           ds = values("dec", N_LIST, 0.1f, 0.9f);
  Batch want;
  for (float m : ms)
    for (float v : mv)
      for (float i : is)
        for (float d : ds) want.emplace_back(stop(m, v, i, d));
  same_batch(StopTraderEmitter::GetBatchOfTraders(ms, mv, is, ds), want);
}
VP_ENTRY(c42_factory) {
  const int which = static_cast<int>(vp_choice("which", 4));
  Batch got, want;
  if (which == 0) {
    got.push_back(GetTrader("rebalancing"));
    want.emplace_back(reb(0.7f, 0.05f));
  } else if (which == 1) {
    got.push_back(GetTrader("stop"));
    want.emplace_back(stop(0.1f, 0.1f, 0.01f, 0.1f));
  } else if (which == 2) {
    got = GetBatchOfTraders("rebalancing");
    for (float a : {0.1f, 0.3f, 0.5f, 0.7f, 0.9f})
      for (float e : {0.01f, 0.05f, 0.1f, 0.2f}) want.emplace_back(reb(a, e));
  } else {
    got = GetBatchOfTraders("stop");
    for (float m : {0.05f, 0.1f, 0.15f, 0.2f})
      for (float v : {0.05f, 0.1f, 0.15f, 0.2f})
        for (float i : {0.01f, 0.05f, 0.1f})
          for (float d : {0.01f, 0.05f, 0.1f}) want.emplace_back(stop(m, v, i, d));
  }
  same_batch(got, want);
}

// c54: the line for the trader log
template <class F> static void state_line(Trader& t, F want) {
  int64_t ts = 0;
  for (int u = 0; u < 2; ++u) {
    ts += vp_i64(vp_name("dt", u), 1, 1000000);
    const int holds = static_cast<int>(vp_choice(vp_name("holds", u), 3));
    const float base = holds != 1 ? vp_f32(vp_name("base", u), 1.0e-5f, 1.0e6f) : 0, quote = holds != 0 ? vp_f32(vp_name("quote", u), 1.0e-5f, 1.0e8f) : 0,
                price = vp_f32(vp_name("price", u), 0.01f, 1.0e6f);
    OhlcTick k = tick(ts, price);
    k.set_open(price);
    k.set_low(price * 0.5f);
    std::vector<Order> orders;
    t.Update(k, {}, base, quote, orders);
    vp_same_text(t.GetInternalState(), want(ts, base, quote, price, orders), "the state line shows the latest tick, holdings and stop");
    vp_cover("line");
  }
}
VP_ENTRY(c54_rebalancing) {
  RebalancingTraderConfig c;
  c.set_alpha(vp_f32("alpha", 0.05f, 0.9f));
  c.set_epsilon(vp_f32("epsilon", 0.01f, 0.5f));
  RebalancingTrader t(c);
  state_line(t, [](int64_t ts, float base, float quote, float price, const std::vector<Order>&) { return absl::StrFormat("%d,%.3f,%.3f,%.3f", ts, base, quote, price); });
}
VP_ENTRY(c54_stop) {
  StopIn in;
  StopTrader t(in.c);
  state_line(t, [](int64_t ts, float base, float quote, float price, const std::vector<Order>& o) {
    vp_check(o.size() == 1, "one stop order");
    if (o.size() != 1) return std::string();
    return absl::StrFormat("%d,%.3f,%.3f,%.3f,%s,%.3f", ts, base, quote, price, o[0].side() == Order::SELL ? "LONG" : "CASH", o[0].price());
  });
}
