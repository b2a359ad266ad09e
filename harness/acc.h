// Symbolic exchange inputs and an independent reference exchange.
#ifndef ACC_H
#define ACC_H
#include <cmath>
#include "base/account.h"
#include "vp.h"
using namespace trader;

#ifndef PMAX
#define PMAX 1.0e6f
#endif

static float in_unit(const char* name, float lo, float hi) {
  return vp_choice(std::string("has_") + name, 2) ? vp_f32(name, lo, hi) : 0.0f;
}
static FeeConfig in_fee(const char* p) {
  std::string s(p);
  FeeConfig f;
  f.set_relative_fee(vp_f32(s + "_rel", 0.0f, 0.1f));
  f.set_fixed_fee(vp_f32(s + "_fixed", 0.0f, 100.0f));
  f.set_minimum_fee(vp_f32(s + "_min", 0.0f, 100.0f));
  return f;
}
static OhlcTick in_tick(const std::string& p, int64_t ts) {
  OhlcTick t;
  const float lo = vp_f32(p + "low", 0.01f, PMAX), op = vp_f32(p + "open", 0.01f, PMAX), hi = vp_f32(p + "high", 0.01f, PMAX),
              cl = vp_f32(p + "close", 0.01f, PMAX);
  vp_assume(lo <= op);
  vp_assume(op <= hi);
  vp_assume(lo <= cl);
  vp_assume(cl <= hi);
  t.set_timestamp_sec(ts);
  t.set_open(op);
  t.set_high(hi);
  t.set_low(lo);
  t.set_close(cl);
  t.set_volume(vp_f32(p + "vol", 0.0f, 1.0e6f));
  return t;
}
static Account in_account() {
  Account a;
  a.base_unit = in_unit("base_unit", 1.0e-6f, 10.0f);
  a.quote_unit = in_unit("quote_unit", 1.0e-4f, 10.0f);
  a.base_balance = vp_f32("base_balance", 0.0f, 1.0e6f);
  a.quote_balance = vp_f32("quote_balance", 0.0f, 1.0e8f);
  a.total_fee = vp_f32("total_fee", 0.0f, 1.0e6f);
  a.market_liquidity = vp_f32("liquidity", 0.0f, 1.0f);
  a.max_volume_ratio = vp_choice("has_ratio", 2) ? vp_f32("ratio", 1.0e-3f, 1.0f) : 0.0f;
  return a;
}
static AccountConfig in_config() {
  AccountConfig c;
  *c.mutable_market_order_fee_config() = in_fee("market");
  *c.mutable_stop_order_fee_config() = in_fee("stop");
  *c.mutable_limit_order_fee_config() = in_fee("limit");
  return c;
}
static Order in_order(const std::string& p, int type, int side, int kind) {
  Order o;
  o.set_type(static_cast<Order::Type>(type));
  o.set_side(static_cast<Order::Side>(side));
  if (kind == 0) o.set_base_amount(vp_f32(p + "base_amount", 1.0e-6f, 1.0e6f));
  else o.set_quote_amount(vp_f32(p + "quote_amount", 1.0e-4f, 1.0e8f));
  if (type != Order::MARKET) o.set_price(vp_f32(p + "order_price", 0.01f, PMAX));
  return o;
}

// ---------------------------------------------------------------- reference
struct Ref {
  float base = 0, quote = 0, fee = 0;   // balances
  bool ok = false;
  float amount = 0, value = 0, charged = 0, price = 0;
};
static float up(float x, float u) { return u > 0 ? u * std::ceil(x / u) : x; }
static float down(float x, float u) { return u > 0 ? u * std::floor(x / u) : x; }
static float near(float x, float u) { return u > 0 ? u * std::round(x / u) : x; }
static float ref_fee(const FeeConfig& f, float value, float unit) {
  return up(std::max(f.minimum_fee(), f.fixed_fee() + f.relative_fee() * value), unit);
}
static Ref ref_none(const Account& a) {
  Ref r;
  r.base = a.base_balance;
  r.quote = a.quote_balance;
  r.fee = a.total_fee;
  return r;
}
static Ref ref_buy(const Account& a, const FeeConfig& f, float amount, float price) {
  Ref r = ref_none(a);
  const float n = near(amount, a.base_unit);
  if (n < a.base_unit) return r;
  const float value = up(n * price, a.quote_unit);
  const float fee = ref_fee(f, value, a.quote_unit);
  if (value + fee > a.quote_balance) return r;
  r.ok = true;
  r.amount = n; r.value = value; r.charged = fee; r.price = price;
  r.base = near(a.base_balance + n, a.base_unit);
  r.quote = near(a.quote_balance - (value + fee), a.quote_unit);
  r.fee = near(a.total_fee + fee, a.quote_unit);
  return r;
}
static Ref ref_sell(const Account& a, const FeeConfig& f, float amount, float price) {
  Ref r = ref_none(a);
  const float n = near(amount, a.base_unit);
  if (n < a.base_unit || n > a.base_balance) return r;
  const float value = down(n * price, a.quote_unit);
  const float fee = ref_fee(f, value, a.quote_unit);
  if (value - fee < a.quote_unit) return r;
  r.ok = true;
  r.amount = n; r.value = value; r.charged = fee; r.price = price;
  r.base = near(a.base_balance - n, a.base_unit);
  r.quote = near(a.quote_balance + (value - fee), a.quote_unit);
  r.fee = near(a.total_fee + fee, a.quote_unit);
  return r;
}
static const float kNoCap = 3.40282346638528859811704183484516925440e+38f;
static float ref_cap(const Account& a, const OhlcTick& t) {
  return a.max_volume_ratio > 0 ? down(a.max_volume_ratio * t.volume(), a.base_unit) : kNoCap;
}
static Ref ref_buy_quote(const Account& a, const FeeConfig& f, float quote, float price, float cap) {
  const float q = near(quote, a.quote_unit);
  if (q < a.quote_unit || q > a.quote_balance) return ref_none(a);
  const float fee = ref_fee(f, q, a.quote_unit);
  if (q <= fee) return ref_none(a);
  const float n = down(std::min((q - fee) / price, cap), a.base_unit);
  if (n < a.base_unit) return ref_none(a);
  return ref_buy(a, f, n, price);
}
static Ref ref_sell_quote(const Account& a, const FeeConfig& f, float quote, float price, float cap) {
  const float q = near(quote, a.quote_unit);
  if (q < a.quote_unit) return ref_none(a);
  const float fee = ref_fee(f, q, a.quote_unit);
  const float n = down(std::min((q + fee) / price, cap), a.base_unit);
  if (n < a.base_unit) return ref_none(a);
  return ref_sell(a, f, n, price);
}
// best price weighted with the liquidity, worst price with the rest
static float ref_price(const Account& a, const Order& o, const OhlcTick& t) {
  if (o.type() == Order::LIMIT) return o.price();
  const bool buy = o.side() == Order::BUY;
  const float best = o.type() == Order::MARKET ? t.open() : buy ? std::max(o.price(), t.open()) : std::min(o.price(), t.open());
  const float worst = buy ? t.high() : t.low();
  return a.market_liquidity * best + (1.0f - a.market_liquidity) * worst;
}
static bool ref_reached(const Order& o, const OhlcTick& t) {
  if (o.type() == Order::MARKET) return true;
  const bool above = (o.type() == Order::STOP) == (o.side() == Order::BUY);
  return above ? !(t.high() < o.price()) : !(t.low() > o.price());
}
static const FeeConfig& ref_schedule(const AccountConfig& c, const Order& o) {
  return o.type() == Order::MARKET ? c.market_order_fee_config() : o.type() == Order::STOP ? c.stop_order_fee_config() : c.limit_order_fee_config();
}
static Ref ref_execute(const Account& a, const AccountConfig& c, const Order& o, const OhlcTick& t) {
  if (!ref_reached(o, t)) return ref_none(a);
  const float price = ref_price(a, o, t);
  const FeeConfig& f = ref_schedule(c, o);
  const float cap = o.type() == Order::LIMIT ? ref_cap(a, t) : kNoCap;
  const bool buy = o.side() == Order::BUY;
  if (o.oneof_amount_case() == Order::kBaseAmount) {
    const float n = o.type() == Order::LIMIT ? std::min(o.base_amount(), cap) : o.base_amount();
    return buy ? ref_buy(a, f, n, price) : ref_sell(a, f, n, price);
  }
  return buy ? ref_buy_quote(a, f, o.quote_amount(), price, cap) : ref_sell_quote(a, f, o.quote_amount(), price, cap);
}
static void check_ref(const Account& got, const Ref& r, const char* lb, const char* lq, const char* lf) {
  vp_same_f(got.base_balance, r.base, lb);
  vp_same_f(got.quote_balance, r.quote, lq);
  vp_same_f(got.total_fee, r.fee, lf);
}
static void observe(const Account& a, bool ok) {
  vp_observe_b("ok", ok);
  vp_observe_f("base", a.base_balance);
  vp_observe_f("quote", a.quote_balance);
  vp_observe_f("fee", a.total_fee);
}
#endif
