#include "acc.h"

struct Case {
  Account a, before;
  AccountConfig c;
  Order o;
  OhlcTick t;
  bool ok;
};
static Case setup(int ntypes = 3) {
  Case x;
  const int k = static_cast<int>(vp_choice("order_kind", 12));
  x.a = in_account();
  x.c = in_config();
  x.o = in_order("", k / 4, (k / 2) % 2, k % 2);
  x.t = in_tick("", 1000);
  x.before = x.a;
  return x;
}
static void exec(Case& x) {
  x.ok = x.a.ExecuteOrder(x.c, x.o, x.t);
  vp_cover(x.ok ? "executed" : "rejected");
  observe(x.a, x.ok);
}

VP_ENTRY(c01_reject) {
  Case x = setup();
  exec(x);
  if (!x.ok) {
    vp_same_f(x.a.base_balance, x.before.base_balance, "rejected order keeps the base balance");
    vp_same_f(x.a.quote_balance, x.before.quote_balance, "rejected order keeps the quote balance");
    vp_same_f(x.a.total_fee, x.before.total_fee, "rejected order keeps the accumulated fee");
  }
  vp_same_f(x.a.base_unit, x.before.base_unit, "base unit is never changed");
  vp_same_f(x.a.quote_unit, x.before.quote_unit, "quote unit is never changed");
  vp_same_f(x.a.market_liquidity, x.before.market_liquidity, "market liquidity is never changed");
  vp_same_f(x.a.max_volume_ratio, x.before.max_volume_ratio, "volume ratio is never changed");
}
// the individual order methods, which the execution result also relies on
VP_ENTRY(c01_methods) {
  Account a = in_account();
  const Account b = a;
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.01f, PMAX);
  const float amount = vp_f32("amount", 0.0f, 1.0e8f);
  bool ok = false;
  switch (vp_choice("method", 4)) {
    case 0: ok = a.BuyBase(f, amount, price); break;
    case 1: ok = a.SellBase(f, amount, price); break;
    case 2: ok = a.BuyAtQuote(f, amount, price, vp_f32("cap", 0.0f, 1.0e6f)); break;
    default: ok = a.SellAtQuote(f, amount, price, vp_f32("cap", 0.0f, 1.0e6f)); break;
  }
  vp_cover(ok ? "executed" : "rejected");
  observe(a, ok);
  if (!ok) {
    vp_same_f(a.base_balance, b.base_balance, "rejected order keeps the base balance");
    vp_same_f(a.quote_balance, b.quote_balance, "rejected order keeps the quote balance");
    vp_same_f(a.total_fee, b.total_fee, "rejected order keeps the accumulated fee");
  }
}

VP_ENTRY(c02_nonneg) {
  Case x = setup();
  // reachable accumulated fees lie on the quote grid
  if (x.a.quote_unit > 0) vp_assume(near(x.a.total_fee, x.a.quote_unit) == x.a.total_fee);
  exec(x);
  // whatever settles exactly like the reference cannot go negative (c02_core)
  const Ref r = ref_execute(x.before, x.c, x.o, x.t);
  vp_check(vp_or(vp_eqf(x.a.base_balance, r.base), x.a.base_balance >= 0), "base balance is never negative");
  vp_check(vp_or(vp_eqf(x.a.quote_balance, r.quote), x.a.quote_balance >= 0), "quote balance is never negative");
  vp_check(vp_or(vp_eqf(x.a.total_fee, r.fee), x.a.total_fee >= x.before.total_fee), "accumulated fee never decreases");
}
// one settlement by the reference, and by the real code, of any amount at any price
static void core_check(const Account& b, float base, float quote, float fee) {
  vp_check(base >= 0, "a settlement leaves the base balance non-negative");
  vp_check(quote >= 0, "a settlement leaves the quote balance non-negative");
  vp_check(fee >= b.total_fee, "a settlement never lowers the accumulated fee");
}
VP_ENTRY(c02_core) {
  Account a = in_account();
  const Account b = a;
  if (a.quote_unit > 0) vp_assume(near(a.total_fee, a.quote_unit) == a.total_fee);
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.001f, 1.0e7f);
  const float amount = vp_f32("amount", 0.0f, 1.0e7f);
  const int k = static_cast<int>(vp_choice("what", 4));
  if (k == 0 || k == 1) {
    const Ref r = k == 0 ? ref_buy(b, f, amount, price) : ref_sell(b, f, amount, price);
    core_check(b, r.base, r.quote, r.fee);
  } else {
    const bool ok = k == 2 ? a.BuyBase(f, amount, price) : a.SellBase(f, amount, price);
    observe(a, ok);
    core_check(b, a.base_balance, a.quote_balance, a.total_fee);
  }
}

VP_ENTRY(c03_buy) {
  Account a = in_account();
  const Account b = a;
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.01f, PMAX);
  const float amount = vp_f32("amount", 0.0f, 1.0e6f);
  const bool ok = a.BuyBase(f, amount, price);
  observe(a, ok);
  const Ref r = ref_buy(b, f, amount, price);
  vp_cover(ok ? "executed" : "rejected");
  vp_check(ok == r.ok, "a buy succeeds iff it is at least one unit and affordable");
  check_ref(a, r, "buy: base balance rises by the amount", "buy: quote balance falls by rounded-up value plus fee", "buy: accumulated fee rises by the fee");
}
VP_ENTRY(c03_sell) {
  Account a = in_account();
  const Account b = a;
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.01f, PMAX);
  const float amount = vp_f32("amount", 0.0f, 1.0e6f);
  const bool ok = a.SellBase(f, amount, price);
  observe(a, ok);
  const Ref r = ref_sell(b, f, amount, price);
  vp_cover(ok ? "executed" : "rejected");
  vp_check(ok == r.ok, "a sell succeeds iff amount is held and proceeds reach one unit");
  check_ref(a, r, "sell: base balance falls by the amount", "sell: quote balance rises by rounded-down value minus fee", "sell: accumulated fee rises by the fee");
}

VP_ENTRY(c04_fee) {
  Account a = in_account();
  const FeeConfig f = in_fee("fee");
  const float value = vp_f32("value", 0.0f, 1.0e8f);
  const float fee = a.GetFee(f, value);
  vp_observe_f("fee", fee);
  vp_same_f(fee, ref_fee(f, value, a.quote_unit), "fee = max(minimum, fixed + relative * value) rounded up");
  vp_check(fee >= 0, "fee is not negative");
  if (a.quote_unit == 0) {
    vp_check(fee >= f.minimum_fee(), "fee is at least the minimum");
    vp_check(fee >= f.fixed_fee(), "fee is at least the fixed fee");
  }
}
// every order type is charged by its own schedule: the accumulated fee equals
// the fee of the traded value under that schedule
VP_ENTRY(c04_schedule) {
  Case x = setup();
  exec(x);
  const Ref r = ref_execute(x.before, x.c, x.o, x.t);
  if (x.ok && r.ok) {
    vp_same_f(x.a.total_fee, near(x.before.total_fee + ref_fee(ref_schedule(x.c, x.o), r.value, x.before.quote_unit), x.before.quote_unit),
              "the order type's own fee schedule is charged");
  }
  vp_check(x.ok == r.ok, "fees decide affordability by the order type's own schedule");
}

VP_ENTRY(c05_price) {
  Account a = in_account();
  const OhlcTick t = in_tick("", 1000);
  const int k = static_cast<int>(vp_choice("kind", 4));
  Order o = in_order("", k / 2, k % 2, 0);
  float p = 0;
  if (k == 0) p = a.GetMarketBuyPrice(t);
  else if (k == 1) p = a.GetMarketSellPrice(t);
  else if (k == 2) p = a.GetStopBuyPrice(t, o.price());
  else p = a.GetStopSellPrice(t, o.price());
  vp_observe_f("price", p);
  vp_same_f(p, ref_price(a, o, t), "fill price interpolates best and worst price by the liquidity");
  if (ref_reached(o, t)) {
    const float tol = 4.0e-7f;
    vp_check(p <= t.high() + tol * t.high(), "fill price is not above the tick's high");
    vp_check(p >= t.low() - tol * t.low(), "fill price is not below the tick's low");
  }
}
VP_ENTRY(c05_fill) {
  Case x;
  const int k = static_cast<int>(vp_choice("order_kind", 8));
  x.a = in_account();
  x.c = in_config();
  x.o = in_order("", k / 4, (k / 2) % 2, k % 2);
  x.t = in_tick("", 1000);
  x.before = x.a;
  exec(x);
  const Ref r = ref_execute(x.before, x.c, x.o, x.t);
  vp_check(x.ok == r.ok, "market/stop order succeeds iff it would at the interpolated price");
  vp_same_f(x.a.quote_balance, r.quote, "market/stop order is settled at the interpolated price");
  vp_same_f(x.a.base_balance, r.base, "market/stop order trades the amount the interpolated price allows");
}

VP_ENTRY(c06_trigger) {
  Case x;
  const int k = static_cast<int>(vp_choice("order_kind", 8));
  x.a = in_account();
  x.c = in_config();
  x.o = in_order("", 1 + k / 4, (k / 2) % 2, k % 2);
  x.t = in_tick("", 1000);
  x.before = x.a;
  exec(x);
  const bool above = (x.o.type() == Order::STOP) == (x.o.side() == Order::BUY);
  if (x.ok) {
    if (above) vp_check(x.t.high() >= x.o.price(), "stop buy / limit sell fills only if the high reaches its price");
    else vp_check(x.t.low() <= x.o.price(), "stop sell / limit buy fills only if the low reaches its price");
  } else if (above ? x.t.high() >= x.o.price() : x.t.low() <= x.o.price()) {
    // reached: the only reasons left are the amount, the funds and the proceeds
    vp_cover("reached but rejected");
    Ref r;
    const float price = ref_price(x.before, x.o, x.t);
    const FeeConfig& f = ref_schedule(x.c, x.o);
    const float cap = x.o.type() == Order::LIMIT ? ref_cap(x.before, x.t) : kNoCap;
    const bool buy = x.o.side() == Order::BUY;
    if (x.o.has_base_amount()) {
      const float n = std::min(x.o.base_amount(), cap);
      r = buy ? ref_buy(x.before, f, n, price) : ref_sell(x.before, f, n, price);
    } else {
      r = buy ? ref_buy_quote(x.before, f, x.o.quote_amount(), price, cap) : ref_sell_quote(x.before, f, x.o.quote_amount(), price, cap);
    }
    vp_check(!r.ok, "a reached order is rejected only for amount, funds or proceeds");
  }
}

VP_ENTRY(c07_limit) {
  Case x;
  const int k = static_cast<int>(vp_choice("order_kind", 4));
  x.a = in_account();
  x.c = in_config();
  x.o = in_order("", Order::LIMIT, k / 2, k % 2);
  x.t = in_tick("", 1000);
  x.before = x.a;
  exec(x);
  const Ref r = ref_execute(x.before, x.c, x.o, x.t);
  vp_check(x.ok == r.ok, "limit order succeeds iff it would at its price within the volume cap");
  vp_same_f(x.a.base_balance, r.base, "limit order trades the smaller of the cap and the requested amount");
  vp_same_f(x.a.quote_balance, r.quote, "limit order is settled at its limit price");
  vp_same_f(x.before.GetMaxBaseAmount(x.t), ref_cap(x.before, x.t), "volume cap = ratio * volume rounded down");
}
// the traded amount never exceeds the cap
VP_ENTRY(c07_cap) {
  Account a = in_account();
  a.max_volume_ratio = vp_f32("ratio", 1.0e-3f, 1.0f);
  const float cap = ref_cap(a, in_tick("", 1000));
  const float want = vp_f32("want", 0.0f, 1.0e8f);
  const bool quote = vp_choice("quote", 2);
  // above 2^22 units the float spacing approaches the unit: outside the claim
  if (quote && a.base_unit > 0) vp_assume(cap / a.base_unit <= 4.0e6f);
  const float n = near(quote ? down(std::min(want, cap), a.base_unit) : std::min(want, cap), a.base_unit);
  vp_check(n <= near(cap, a.base_unit), "traded amount is within the volume cap");
}

VP_ENTRY(c08_formula) {
  Case x;
  const int k = static_cast<int>(vp_choice("order_kind", 6));
  x.a = in_account();
  x.c = in_config();
  x.o = in_order("", k / 2, k % 2, 1);
  x.t = in_tick("", 1000);
  x.before = x.a;
  exec(x);
  const Ref r = ref_execute(x.before, x.c, x.o, x.t);
  vp_check(x.ok == r.ok, "quote order succeeds iff the affordable amount can be traded");
  vp_same_f(x.a.base_balance, r.base, "quote order trades the largest affordable amount");
  vp_same_f(x.a.quote_balance, r.quote, "quote order is settled for that amount");
}
// what a quote order spends or pays out, for accounts without rounding units
// and with them (one unit of slack for the value's rounding)
VP_ENTRY(c08_spend) {
  Account a = in_account();
  const Account b = a;
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.01f, PMAX);
  const float q = vp_f32("quote_amount", 1.0e-4f, 1.0e8f);
  const bool ok = a.BuyAtQuote(f, q, price);
  observe(a, ok);
  if (ok) {
    vp_cover("executed");
    const double spent = static_cast<double>(b.quote_balance) - static_cast<double>(a.quote_balance);
    vp_check(spent <= q + 2.0 * b.quote_unit + 1.0e-6 * (static_cast<double>(b.quote_balance) + ref_fee(f, q, b.quote_unit)), "a quote buy spends at most the requested amount");
  }
}
VP_ENTRY(c08_receive) {
  Account a = in_account();
  const Account b = a;
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.01f, PMAX);
  const float q = vp_f32("quote_amount", 1.0e-4f, 1.0e8f);
  const bool ok = a.SellAtQuote(f, q, price);
  observe(a, ok);
  if (ok) {
    vp_cover("executed");
    const double got = static_cast<double>(a.quote_balance) - static_cast<double>(b.quote_balance);
    vp_check(got <= q + 2.0 * b.quote_unit + 1.0e-6 * (static_cast<double>(b.quote_balance) + q + ref_fee(f, q, b.quote_unit)), "a quote sell pays out at most the requested amount");
  }
}

VP_ENTRY(c09_kind) {
  Case x = setup();
  exec(x);
  const Ref r = ref_execute(x.before, x.c, x.o, x.t);
  vp_check(x.ok == r.ok, "success agrees with the reference exchange");
  check_ref(x.a, r, "base balance agrees with the reference exchange", "quote balance agrees with the reference exchange",
            "accumulated fee agrees with the reference exchange");
}
VP_ENTRY(c09_init) {
  AccountConfig c = in_config();
  c.set_start_base_balance(vp_f32("sb", 0.0f, 1.0e6f));
  c.set_start_quote_balance(vp_f32("sq", 0.0f, 1.0e8f));
  c.set_base_unit(vp_f32("bu", 0.0f, 10.0f));
  c.set_quote_unit(vp_f32("qu", 0.0f, 10.0f));
  c.set_market_liquidity(vp_f32("ml", 0.0f, 1.0f));
  c.set_max_volume_ratio(vp_f32("vr", 0.0f, 1.0f));
  Account a = in_account();
  a.InitAccount(c);
  vp_same_f(a.base_balance, c.start_base_balance(), "initial base balance");
  vp_same_f(a.quote_balance, c.start_quote_balance(), "initial quote balance");
  vp_same_f(a.total_fee, 0.0f, "initial accumulated fee is zero");
  vp_same_f(a.base_unit, c.base_unit(), "initial base unit");
  vp_same_f(a.quote_unit, c.quote_unit(), "initial quote unit");
  vp_same_f(a.market_liquidity, c.market_liquidity(), "initial market liquidity");
  vp_same_f(a.max_volume_ratio, c.max_volume_ratio(), "initial volume ratio");
}

// a balance is on the grid if rounding it to the grid leaves it where it is;
// what settles exactly like the reference is on the grid by c10_core
static void on_grid(float v, float ref, float u, const char* label) {
  // above 2^22 units the float spacing approaches the unit: outside the claim
  vp_check(vp_or(vp_eqf(v, ref), vp_or(v / u > 4.0e6f, near(v, u) == v)), label);
}
VP_ENTRY(c10_grid) {
  Case x = setup();
  exec(x);
  if (x.ok) {
    const Ref r = ref_execute(x.before, x.c, x.o, x.t);
    if (x.before.base_unit > 0) on_grid(x.a.base_balance, r.base, x.before.base_unit, "base balance is a whole number of base units");
    if (x.before.quote_unit > 0) {
      on_grid(x.a.quote_balance, r.quote, x.before.quote_unit, "quote balance is a whole number of quote units");
      on_grid(x.a.total_fee, r.fee, x.before.quote_unit, "accumulated fee is a whole number of quote units");
    }
  }
}
// every balance of the reference is near(something, unit): rounding is idempotent
VP_ENTRY(c10_core) {
  const float u = vp_f32("unit", 1.0e-6f, 10.0f);
  const float v = near(vp_f32("x", 0.0f, 3.0e8f), u);
  vp_check(vp_or(v / u > 4.0e6f, near(v, u) == v), "a rounded balance is a whole number of units");
}
VP_ENTRY(c10_nounit) {
  Account a = in_account();
  a.base_unit = 0;
  a.quote_unit = 0;
  const Account b = a;
  const FeeConfig f = in_fee("fee");
  const float price = vp_f32("price", 0.01f, PMAX);
  const float amount = vp_f32("amount", 1.0e-6f, 1.0e6f);
  const bool buy = vp_choice("buy", 2);
  const bool ok = buy ? a.BuyBase(f, amount, price) : a.SellBase(f, amount, price);
  observe(a, ok);
  if (ok) {
    const float fee = ref_fee(f, amount * price, 0.0f);
    vp_same_f(a.base_balance, buy ? b.base_balance + amount : b.base_balance - amount, "no unit: base amount is not rounded");
    vp_same_f(a.quote_balance, buy ? b.quote_balance - (amount * price + fee) : b.quote_balance + (amount * price - fee), "no unit: value and fee are not rounded");
    vp_same_f(a.total_fee, b.total_fee + fee, "no unit: accumulated fee is not rounded");
  }
}
