#include <cmath>
#include "base/base.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/util.h"
#include "indicators/volatility.h"
#include "vp.h"
using namespace trader;
#ifndef N_UPD
#define N_UPD 3
#endif
#ifndef GAP
#define GAP 2
#endif
#ifndef N_OPS
#define N_OPS 5
#endif
#ifndef N_VAR
#define N_VAR 4
#endif
#ifndef REL_TOL
#define REL_TOL 0   // 0: tolerance for the largest values; 1: relative to the values
#endif
#ifndef N_WIN
#define N_WIN 3
#endif
#ifndef N_SPLIT
#define N_SPLIT 3
#endif
static const int64_t TMAX = 8000000000LL;
static const int kPeriods[] = {300, 86400, 7};

static OhlcTick in_tick(int i, int64_t ts, float pmax = 1.0e6f) {
  OhlcTick t;
  const float lo = vp_f32(vp_name("low", i), 0.01f, pmax), op = vp_f32(vp_name("open", i), 0.01f, pmax), hi = vp_f32(vp_name("high", i), 0.01f, pmax),
              cl = vp_f32(vp_name("close", i), 0.01f, pmax);
  vp_assume(lo <= op);
  vp_assume(op <= hi);
  vp_assume(lo <= cl);
  vp_assume(cl <= hi);
  t.set_timestamp_sec(ts);
  t.set_open(op);
  t.set_high(hi);
  t.set_low(lo);
  t.set_close(cl);
  t.set_volume(vp_f32(vp_name("vol", i), 0.0f, 1.0e6f));
  return t;
}
static OhlcTick flat(int64_t ts, float price) {
  OhlcTick t;
  t.set_timestamp_sec(ts);
  t.set_open(price);
  t.set_high(price);
  t.set_low(price);
  t.set_close(price);
  t.set_volume(0);
  return t;
}
// Reference resampling: all periods seen so far.
struct Bars {
  int period;
  std::vector<OhlcTick> all;
  int added = 0;           // periods added by the last update
  bool merged = false;
  OhlcTick before;         // the last period before it was merged into
  explicit Bars(int p) : period(p) {}
  void feed(const OhlcTick& t) {
    added = 0;
    merged = false;
    const int64_t start = t.timestamp_sec() / period * period;
    if (all.empty()) {
      all.push_back(t);
      all.back().set_timestamp_sec(start);
      added = 1;
      return;
    }
    const int64_t d = vp_concrete((start - all.back().timestamp_sec()) / period);
    if (d == 0) {
      before = all.back();
      merged = true;
      OhlcTick& b = all.back();
      b.set_high(std::max(b.high(), t.high()));
      b.set_low(std::min(b.low(), t.low()));
      b.set_close(t.close());
      b.set_volume(b.volume() + t.volume());
      return;
    }
    for (int64_t k = 1; k < d; ++k) all.push_back(flat(all.back().timestamp_sec() + period, all.back().close()));
    all.push_back(t);
    all.back().set_timestamp_sec(start);
    added = static_cast<int>(d);
  }
  int n() const { return static_cast<int>(all.size()); }
};
// a stream of ordered ticks
struct Stream {
  int period, i = 0;
  int64_t ts = 0;
  Stream() : period(kPeriods[vp_choice("period", 3)]) {}
  OhlcTick next(float pmax = 1.0e6f) {
    if (i == 0) ts = vp_i64("t0", 0, TMAX);
    else ts = ts + vp_i64(vp_name("dt", i), 0, static_cast<int64_t>(GAP) * period);
    return in_tick(i++, ts, pmax);
  }
};
static void same_tick(const OhlcTick& a, const OhlcTick& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.open(), b.open(), l);
  vp_same_f(a.high(), b.high(), l);
  vp_same_f(a.low(), b.low(), l);
  vp_same_f(a.close(), b.close(), l);
  vp_close(a.volume(), b.volume(), 1.0e-6 * b.volume(), l);
}

struct Event {
  int kind;                // 0 updated, 1 added, 2 added and oldest removed
  OhlcTick other, tick;
};
VP_ENTRY(c28_window) {
  Stream s;
  const int n = 1 + static_cast<int>(vp_choice("n", N_WIN));
  const bool callbacks = vp_choice("callbacks", 2);
  LastNOhlcTicks w(n, s.period);
  std::vector<Event> ev;
  if (callbacks) {
    w.RegisterLastTickUpdatedCallback([&ev](const OhlcTick& o, const OhlcTick& t) { ev.push_back({0, o, t}); });
    w.RegisterNewTickAddedCallback([&ev](const OhlcTick& t) { ev.push_back({1, OhlcTick(), t}); });
    w.RegisterNewTickAddedAndOldestTickRemovedCallback([&ev](const OhlcTick& o, const OhlcTick& t) { ev.push_back({2, o, t}); });
  }
  Bars b(s.period);
  vp_check(w.GetLastNOhlcTicks().empty(), "the window starts empty");
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next();
    ev.clear();
    const int had = b.n();
    b.feed(t);
    w.Update(t);
    const auto& d = w.GetLastNOhlcTicks();
    vp_observe_i("size", static_cast<int64_t>(d.size()));
    const int want = std::min(n, b.n());
    vp_check(static_cast<int>(d.size()) == want, "the window holds the last N periods");
    if (static_cast<int>(d.size()) == want)
      for (int k = 0; k < want; ++k) same_tick(d[k], b.all[b.n() - want + k], "the window equals the resampled history");
    if (!callbacks) continue;
    if (b.merged) {
      vp_cover("merged");
      vp_check(ev.size() == 1 && ev[0].kind == 0, "an in-period update delivers exactly one update notification");
      if (ev.size() == 1 && ev[0].kind == 0) {
        same_tick(ev[0].other, b.before, "the update notification carries the old tick");
        same_tick(ev[0].tick, b.all.back(), "the update notification carries the new tick");
      }
    } else {
      vp_check(static_cast<int>(ev.size()) == b.added, "exactly one notification per added period");
      if (b.added > 1) vp_cover("backfilled");
      if (static_cast<int>(ev.size()) == b.added)
        for (int k = 0; k < b.added; ++k) {
          const int idx = had + k;
          vp_check(ev[k].kind == (idx < n ? 1 : 2), "the notification tells whether the oldest period was removed");
          same_tick(ev[k].tick, b.all[idx], "the notification carries the added period");
          if (idx >= n && ev[k].kind == 2) {
            vp_cover("removed");
            same_tick(ev[k].other, b.all[idx - n], "the notification carries the removed period");
          }
        }
    }
  }
}

// larger windows and longer gaps
VP_ENTRY(c28_long) {
  const int ns[] = {1, 4, 9}, gaps[] = {1, 7, 30};
  const int n = ns[vp_choice("n", 3)], period = kPeriods[vp_choice("period", 2)];
  LastNOhlcTicks w(n, period);
  int added = 0, removed = 0, updated = 0;
  w.RegisterLastTickUpdatedCallback([&updated](const OhlcTick&, const OhlcTick&) { ++updated; });
  w.RegisterNewTickAddedCallback([&added](const OhlcTick&) { ++added; });
  w.RegisterNewTickAddedAndOldestTickRemovedCallback([&removed](const OhlcTick&, const OhlcTick&) { ++removed; });
  Bars b(period);
  int64_t start = vp_i64("p0", 0, TMAX / 86400) * period;
  int merged = 0;
  for (int u = 0; u < 4; ++u) {
    if (u % 2) { start += gaps[vp_choice(vp_name("gap", u), 3)] * period; }
    else if (u) ++merged;
    const OhlcTick t = in_tick(u, start + (u ? period / 2 + u % 2 * (period / 4 - period / 2) : 0));
    b.feed(t);
    w.Update(t);
    const auto& d = w.GetLastNOhlcTicks();
    const int want = std::min(n, b.n());
    vp_check(static_cast<int>(d.size()) == want, "the window holds the last N periods");
    if (static_cast<int>(d.size()) == want)
      for (int k = 0; k < want; ++k) same_tick(d[k], b.all[b.n() - want + k], "the window equals the resampled history");
    vp_check(added == want && removed == b.n() - want && updated == merged, "one notification per added or updated period");
  }
}
// a larger window, wrapped once
VP_ENTRY(c29_long) {
  const int n = 5 + 3 * static_cast<int>(vp_choice("n", 2));
  const int period = kPeriods[vp_choice("period", 2)];
  SimpleMovingAverage a(n, period);
  Bars b(period);
  int64_t ts = vp_i64("p0", 0, TMAX / 86400) * period;
  const int again = static_cast<int>(vp_choice("again", 3)) * 5 + 1;    // 1, 6, 11: this period is updated twice
  int i = 0;
  for (int u = 0; u < 12; ++u) {
    for (int k = 0; k < (u == again ? 2 : 1); ++k) {
      OhlcTick t;
      if (u == 0 || u == again || u == 7) t = in_tick(i++, ts + k, 1.0e4f);      // the others are fixed
      else { t = flat(ts + k, 100.0f + 37 * u); }
      b.feed(t);
      a.Update(t);
    }
    ts += period;
    if (u != 4 && u != 8 && u != 11) continue;
    const int m = std::min(n, b.n());
    double sum = 0;
    for (int k = b.n() - m; k < b.n(); ++k) sum += b.all[k].close();
    vp_check(a.GetNumOhlcTicks() == m, "the number of averaged closes");
    vp_close(a.GetSimpleMovingAverage(), sum / m, 0.5, "the average is the mean of the last N closes");
  }
}

VP_ENTRY(c29_sma) {
  Stream s;
  const int n = 1 + static_cast<int>(vp_choice("n", N_WIN));
  SimpleMovingAverage a(n, s.period);
  Bars b(s.period);
  vp_same_f(a.GetSimpleMovingAverage(), 0.0f, "zero before the first tick");
  vp_check(a.GetNumOhlcTicks() == 0, "no ticks before the first one");
  double seen = 0;       // bounds the float rounding of the running sum
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next();
    b.feed(t);
    a.Update(t);
    vp_observe_f("sma", a.GetSimpleMovingAverage());
    const int m = std::min(n, b.n());
    double sum = 0;
    for (int k = b.n() - m; k < b.n(); ++k) sum += b.all[k].close();
    seen += (b.added > 0 ? b.added : 1) * static_cast<double>(t.close()) + (u ? static_cast<double>(b.n() > b.added ? b.all[b.n() - b.added - 1].close() : 0) * (b.added + 1) : 0);
    if (b.merged) seen += b.before.close();
    vp_check(a.GetNumOhlcTicks() == m, "the number of averaged closes");
    vp_close(a.GetSimpleMovingAverage(), sum / m, 1.0e-6 * seen, "the average is the mean of the last N closes");
  }
}

static double ema(const std::vector<OhlcTick>& v, double w) {
  double e = v[0].close();
  for (size_t i = 1; i < v.size(); ++i) e = w * v[i].close() + (1.0 - w) * e;
  return e;
}
// the recurrence in float, as documented
struct FEma {
  float cur = 0, prev = 0;
  int n = 0;
  void add(float v, float w) {
    prev = cur;
    ++n;
    update(v, w);
  }
  void update(float v, float w) { cur = n == 1 ? v : w * v + (1.0f - w) * prev; }
};
VP_ENTRY(c30_ema) {
  Stream s;
  const float smoothing = vp_f32("smoothing", 0.5f, 3.0f);
  const int len = vp_choice("len", 2) ? 10 : 1;
  ExponentialMovingAverage a(smoothing, len, s.period);
  const float w = smoothing / (1.0f + len);
  Bars b(s.period);
  vp_check(a.GetNumOhlcTicks() == 0, "no periods before the first tick");
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next();
    b.feed(t);
    a.Update(t);
    float e = b.all[0].close();
    for (int i = 1; i < b.n(); ++i) e = w * b.all[i].close() + (1.0f - w) * e;
    double mx = 1.0e6;
    vp_observe_f("ema", a.GetExponentialMovingAverage());
    vp_check(a.GetNumOhlcTicks() == b.n(), "the number of periods seen");
    vp_close(a.GetExponentialMovingAverage(), e, 2.0e-6 * mx, "the average follows weight * close + (1 - weight) * previous average");
  }
}
VP_ENTRY(c30_macd) {
  Stream s;
  const int k = static_cast<int>(vp_choice("lengths", 2));
  const int fast = k ? 12 : 1, slow = k ? 26 : 3, sig = k ? 9 : 2;
  MovingAverageConvergenceDivergence a(fast, slow, sig, s.period);
  const float wf = 2.0f / (1.0f + fast), ws = 2.0f / (1.0f + slow), wg = 2.0f / (1.0f + sig);
  Bars b(s.period);
  vp_check(a.GetNumOhlcTicks() == 0, "no periods before the first tick");
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next();
    b.feed(t);
    a.Update(t);
    FEma f, l, g;
    for (const OhlcTick& c : b.all) {
      f.add(c.close(), wf);
      l.add(c.close(), ws);
      g.add(f.cur - l.cur, wg);
    }
    const double tol = 4.0e-6 * 1.0e6;
    vp_observe_f("signal", a.GetMACDSignal());
    vp_check(a.GetNumOhlcTicks() == b.n(), "the number of periods seen");
    vp_close(a.GetFastExponentialMovingAverage(), f.cur, tol, "fast average");
    vp_close(a.GetSlowExponentialMovingAverage(), l.cur, tol, "slow average");
    vp_close(a.GetMACDSeries(), f.cur - l.cur, tol, "series = fast - slow");
    vp_close(a.GetMACDSignal(), g.cur, tol, "signal is the average of the series");
    vp_close(a.GetDivergence(), (f.cur - l.cur) - g.cur, tol, "divergence = series - signal");
  }
}

static float ref_rsi(float up, float dn) {
  if (vp_fork(vp_and(up < 1.0e-6f, dn < 1.0e-6f))) return 50.0f;
  if (vp_fork(dn < up * 1.0e-6f)) return 100.0f;
  return 100.0f - 100.0f / (1.0f + up / dn);
}
static bool near(double a, double b, double tol) { return vp_and(a - b <= tol, b - a <= tol); }
// the index itself, for any pair of averages
VP_ENTRY(c31_core) {
  const float up = vp_f32("up", 0.0f, 1.0e6f), dn = vp_f32("dn", 0.0f, 1.0e6f);
  const float r = ref_rsi(up, dn);
  vp_check(r >= 0, "an index computed from non-negative averages is at least 0");
  vp_check(r <= 100, "an index computed from non-negative averages is at most 100");
}
VP_ENTRY(c31_rsi) {
  Stream s;
  const int n = 1 + static_cast<int>(vp_choice("n", N_WIN));
  RelativeStrengthIndex a(n, s.period);
  Bars b(s.period);
  vp_check(a.GetNumOhlcTicks() == 0, "no periods before the first tick");
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next(1.0e5f);
    b.feed(t);
    a.Update(t);
    FEma up, dn;
    bool gain = false, loss = false;
    for (int i = 0; i < b.n(); ++i) {
      const float was = i ? b.all[i - 1].close() : b.all[0].open();
      const float w = 1.0f / std::min(i + 1, n);
      const float c = b.all[i].close();
      const bool rise = vp_fork(c >= was);
      up.add(rise ? c - was : 0.0f, w);
      dn.add(rise ? 0.0f : was - c, w);
      if (rise ? vp_fork(c > was) : true) (rise ? gain : loss) = true;
    }
    const double tol = 4.0e-6 * 1.0e5;
    const float up_got = a.GetUpwardChangeModifiedMovingAverage(), dn_got = a.GetDownwardChangeModifiedMovingAverage();
    vp_check(a.GetNumOhlcTicks() == b.n(), "the number of periods seen");
    vp_close(up_got, up.cur, tol, "upward average");
    vp_close(dn_got, dn.cur, tol, "downward average");
    const float r = a.GetRelativeStrengthIndex();
    vp_observe_f("rsi", r);
    const bool same = vp_eqf(r, ref_rsi(up_got, dn_got));   // then c31_core bounds it
    vp_check(vp_or(same, r >= 0), "the index is at least 0");
    vp_check(vp_or(same, r <= 100), "the index is at most 100");
    vp_check(up_got >= 0 && dn_got >= 0, "the averages are not negative");
    if (!gain && !loss) vp_same_f(r, 50.0f, "50 without any movement");
    if (gain && !loss) vp_check(vp_or(r == 100, up_got < 1.0e-6f), "100 if there were only gains");
    if (loss && !gain) vp_check(vp_or(r == 0, dn_got < 1.0e-6f), "0 if there were only losses");
    if (same) continue;
    // another way of computing it: away from the limits (no movement, only gains) the formula holds
    if (vp_fork(vp_and(up_got < 2.0e-6f, dn_got < 2.0e-6f))) continue;
    if (vp_fork(dn_got < up_got * 1.0e-5f)) vp_check(r >= 99.99f, "the index is 100 if there are (almost) only gains");
    else vp_close(r, 100.0f - 100.0f / (1.0f + up_got / dn_got), 1.0e-3, "the index is 100 - 100 / (1 + up / down)");
  }
}

static float mean3(const std::vector<float>& v, int i) {
  double d = 0;
  int m = 0;
  for (int j = std::max(0, i - 2); j <= i; ++j, ++m) d += v[j];
  return static_cast<float>(d / m);
}
// %K for any range and any close inside it
VP_ENTRY(c32_core) {
  const float lo = vp_f32("lo", 0.01f, 1.0e6f), hi = vp_f32("hi", 0.01f, 1.0e6f), cl = vp_f32("cl", 0.01f, 1.0e6f);
  vp_assume(lo <= cl);
  vp_assume(cl <= hi);
  const float span = hi - lo;
  vp_assume(span >= 1.0e-6f);
  const float k = 100.0f * (cl - lo) / span;
  vp_check(k >= 0, "%K of a close inside the range is at least 0");
  vp_check(k <= 100.001f, "%K of a close inside the range is at most 100");
}
VP_ENTRY(c32_so) {
  Stream s;
  const int n = 1 + static_cast<int>(vp_choice("n", N_WIN));
  StochasticOscillator a(n, s.period);
  Bars b(s.period);
  std::vector<float> ks, ds;      // per period: the values decided so far
  vp_check(a.GetNumOhlcTicks() == 0, "no periods before the first tick");
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next();
    b.feed(t);
    a.Update(t);
    float lo = 0, hi = 0;
    for (int i = b.n() - (b.merged ? 1 : b.added); i < b.n(); ++i) {
      const int from = i + 1 < n ? 0 : i + 1 - n;
      lo = b.all[from].low();
      hi = b.all[from].high();
      for (int j = from + 1; j <= i; ++j) {
        lo = std::min(lo, b.all[j].low());
        hi = std::max(hi, b.all[j].high());
      }
      if (i == b.n() - 1) {       // the same numbers, named as the code names them
        vp_same_f(a.GetLow(), lo, "the lowest low of the last N periods");
        vp_same_f(a.GetHigh(), hi, "the highest high of the last N periods");
        lo = a.GetLow();
        hi = a.GetHigh();
      }
      const float span = hi - lo;
      const float k = vp_fork(span < 1.0e-6f) ? 50.0f : 100.0f * (b.all[i].close() - lo) / span;
      if (i < static_cast<int>(ks.size())) ks[i] = k;
      else ks.push_back(k);
      if (i < b.n() - 1) {
        vp_assume(k >= 0);          // c32_core: not observable from outside
        vp_assume(k <= 100.001f);
      }
      const float d = mean3(ks, i);
      if (i < static_cast<int>(ds.size())) ds[i] = d;
      else ds.push_back(d);
    }
    vp_observe_f("k", a.GetK());
    vp_observe_f("slow", a.GetSlowD());
    vp_check(a.GetNumOhlcTicks() == b.n(), "the number of periods seen");
    vp_close(a.GetK(), ks.back(), 1.0e-3, "%K is the position of the close in the range");
    const bool same = vp_eqf(a.GetK(), ks.back());         // then c32_core bounds it
    vp_check(vp_or(same, a.GetK() >= -1.0e-3f), "%K is at least 0");
    vp_check(vp_or(same, a.GetK() <= 100.001f), "%K is at most 100");
    if (same) {
      vp_assume(a.GetK() >= 0);
      vp_assume(a.GetK() <= 100.001f);
    }
    ks.back() = a.GetK();
    vp_close(a.GetFastD(), mean3(ks, b.n() - 1), 1.0e-2, "fast %D is the mean of the last three %K");
    ds.back() = a.GetFastD();
    vp_close(a.GetSlowD(), mean3(ds, b.n() - 1), 1.0e-2, "slow %D is the mean of the last three fast %D");
  }
}

VP_ENTRY(c33_minmax) {
  const int n = 1 + static_cast<int>(vp_choice("n", N_WIN));
  SlidingWindowMinimum lo(n);
  SlidingWindowMaximum hi(n);
  std::vector<float> all;
  for (int u = 0; u < N_OPS; ++u) {
    const float v = vp_f32(vp_name("v", u), -1.0e30f, 1.0e30f);
    if (u && vp_choice(vp_name("update", u), 2)) {
      lo.UpdateCurrentValue(v);
      hi.UpdateCurrentValue(v);
      all.back() = v;
    } else {
      lo.AddNewValue(v);
      hi.AddNewValue(v);
      all.push_back(v);
    }
    const int m = std::min(n, static_cast<int>(all.size()));
    float a = all.back(), b = all.back();
    for (size_t k = all.size() - m; k < all.size(); ++k) {
      a = vp_ite_f(all[k] < a, all[k], a);
      b = vp_ite_f(all[k] > b, all[k], b);
    }
    vp_observe_f("min", lo.GetSlidingWindowMinimum());
    vp_observe_f("max", hi.GetSlidingWindowMaximum());
    vp_check(lo.GetSlidingWindowMinimum() == a, "the sliding minimum is the smallest of the last N values");
    vp_check(hi.GetSlidingWindowMaximum() == b, "the sliding maximum is the largest of the last N values");
    vp_check(lo.GetNumValues() == static_cast<int>(all.size()) && hi.GetNumValues() == static_cast<int>(all.size()), "the number of added values");
    vp_check(lo.GetWindowSize() == m && hi.GetWindowSize() == m, "the number of values in the window");
  }
}

// a larger window, one side
VP_ENTRY(c33_long) {
  const int n = 5;
  const bool low = vp_choice("low", 2);
  SlidingWindowMinimum lo(n);
  SlidingWindowMaximum hi(n);
  std::vector<float> all;
  for (int u = 0; u < 7; ++u) {
    const float v = vp_f32(vp_name("v", u), -1.0e30f, 1.0e30f);
    if (low) lo.AddNewValue(v); else hi.AddNewValue(v);
    all.push_back(v);
  }
  float a = all.back();
  for (size_t k = all.size() - n; k < all.size(); ++k) a = low ? vp_ite_f(all[k] < a, all[k], a) : vp_ite_f(all[k] > a, all[k], a);
  if (low) vp_check(lo.GetSlidingWindowMinimum() == a, "the sliding minimum is the smallest of the last N values");
  else vp_check(hi.GetSlidingWindowMaximum() == a, "the sliding maximum is the largest of the last N values");
}

VP_ENTRY(c34_meanvar) {
  const int n = static_cast<int>(vp_choice("n", N_WIN + 1));   // 0: no window
  SlidingWindowMeanAndVariance w(n);
  std::vector<float> all;
  double sum_abs = 0, sum_sq = 0;   // over every value ever added: scale of the rounding
  vp_same_f(w.GetMean(), 0.0f, "mean of nothing is 0");
  vp_same_f(w.GetVariance(), 0.0f, "variance of nothing is 0");
  for (int u = 0; u < N_VAR; ++u) {
    const float v = vp_f32(vp_name("v", u), -1.0e5f, 1.0e5f);
    if (u && vp_choice(vp_name("update", u), 2)) {
      w.UpdateCurrentValue(v);
      all.back() = v;
    } else {
      w.AddNewValue(v);
      all.push_back(v);
    }
    const int m = n == 0 ? static_cast<int>(all.size()) : std::min(n, static_cast<int>(all.size()));
    double s1 = 0, s2 = 0;
    for (size_t k = all.size() - m; k < all.size(); ++k) {
      s1 += all[k];
      s2 += static_cast<double>(all[k]) * all[k];
    }
    sum_abs += std::fabs(static_cast<double>(v));
    sum_sq += static_cast<double>(v) * v;
    vp_check(w.GetNumValues() == static_cast<int>(all.size()), "the number of added values");
    vp_check(w.GetWindowSize() == m, "the number of values in the window");
    const float mean = w.GetMean(), var = w.GetVariance();
    vp_observe_f("mean", mean);
    vp_observe_f("var", var);
    vp_close(mean, s1 / m, REL_TOL ? 2.0e-6 * sum_abs + 1.0e-30 : 0.5, "the mean is that of the last N values");
    const double exact = s2 / m - static_cast<double>(mean) * mean;
    vp_close(var, vp_ite_d(exact > 0, exact, 0.0), REL_TOL ? 4.0e-6 * sum_sq + 1.0e-30 : 1.0e5, "the variance is that of the last N values");
    vp_check(var >= 0, "the variance is never negative");
    const float sd = w.GetStandardDeviation();
    vp_check(sd >= 0, "the standard deviation is a non-negative number");
    vp_close(sd, std::sqrt(var), 1.0e-5, "the standard deviation is the root of the variance");
  }
}

VP_ENTRY(c35_volatility) {
  Stream s;
  const int n = static_cast<int>(vp_choice("n", N_WIN + 1));
  Volatility a(n, s.period);
  Bars b(s.period);
  SlidingWindowMeanAndVariance ref(n);    // decided by the property on sliding variance
  float prev = 0, cur = 0;
  vp_check(a.GetNumOhlcTicks() == 0, "no periods before the first tick");
  for (int u = 0; u < N_UPD; ++u) {
    const OhlcTick t = s.next();
    const float base = vp_f32(vp_name("base", u), 0.0f, 1.0e3f), quote = vp_f32(vp_name("quote", u), 1.0f, 1.0e6f);
    const int had = b.n();
    b.feed(t);
    a.Update(t, base, quote);
    if (b.merged) {
      vp_cover("merged");
      cur = base * b.all.back().close() + quote;
      ref.UpdateCurrentValue(std::log(prev / cur));
    }
    for (int k = 0; k < b.added; ++k) {
      prev = had + k == 0 ? base * b.all[0].open() + quote : cur;
      cur = base * b.all[had + k].close() + quote;
      ref.AddNewValue(std::log(prev / cur));
    }
    vp_observe_f("volatility", a.GetVolatility());
    vp_check(a.GetNumOhlcTicks() == b.n(), "the number of periods seen");
    vp_close(a.GetVolatility(), ref.GetStandardDeviation(), 1.0e-3, "the volatility is the deviation of the per-period log returns");
    vp_check(a.GetVolatility() >= 0, "the volatility is a non-negative number");
  }
}

// ------------------------------------------------- independence of the split
VP_ENTRY(c36_split) {
  const int period = kPeriods[vp_choice("period", 2)];
  const int n = 1 + static_cast<int>(vp_choice("n", 2));
  const int what = static_cast<int>(vp_choice("indicator", 6));
  LastNOhlcTicks w1(n, period), w2(n, period);
  SimpleMovingAverage s1(n, period), s2(n, period);
  ExponentialMovingAverage e1(2.0f, n, period), e2(2.0f, n, period);
  MovingAverageConvergenceDivergence m1(n, n + 2, n, period), m2(n, n + 2, n, period);
  RelativeStrengthIndex r1(n, period), r2(n, period);
  StochasticOscillator o1(n, period), o2(n, period);
  int64_t start = vp_i64("p0", 0, TMAX / 86400) * period;
  const int half = period / 2;
  int i = 0;
  double seen = 0;
  for (int u = 0; u < N_SPLIT; ++u) {
    if (u) start += vp_i64(vp_name("dp", u), 1, 2) * period;
    Bars b(period);
    const int parts = 1 + static_cast<int>(vp_choice(vp_name("parts", u), 2));
    for (int k = 0; k < parts; ++k) {
      const OhlcTick t = in_tick(i++, start + (k ? half : 0), 1.0e5f);
      b.feed(t);
      seen += 4.0 * t.close();
      switch (what) {
        case 0: w1.Update(t); break;
        case 1: s1.Update(t); break;
        case 2: e1.Update(t); break;
        case 3: m1.Update(t); break;
        case 4: r1.Update(t); break;
        default: o1.Update(t); break;
      }
    }
    const OhlcTick& t = b.all[0];
    const double tol = 4.0e-6 * 1.0e5;
    switch (what) {
      case 0: {
        w2.Update(t);
        const auto &a = w1.GetLastNOhlcTicks(), &c = w2.GetLastNOhlcTicks();
        vp_check(a.size() == c.size(), "window: same number of periods");
        if (a.size() == c.size())
          for (size_t k = 0; k < a.size(); ++k) same_tick(a[k], c[k], "window: same periods");
        break;
      }
      case 1:
        s2.Update(t);
        vp_check(s1.GetNumOhlcTicks() == s2.GetNumOhlcTicks(), "SMA: same number of periods");
        vp_close(s1.GetSimpleMovingAverage(), s2.GetSimpleMovingAverage(), 0.5, "SMA: same average");
        break;
      case 2:
        e2.Update(t);
        vp_check(e1.GetNumOhlcTicks() == e2.GetNumOhlcTicks(), "EMA: same number of periods");
        vp_close(e1.GetExponentialMovingAverage(), e2.GetExponentialMovingAverage(), tol, "EMA: same average");
        break;
      case 3:
        m2.Update(t);
        vp_check(m1.GetNumOhlcTicks() == m2.GetNumOhlcTicks(), "MACD: same number of periods");
        vp_close(m1.GetFastExponentialMovingAverage(), m2.GetFastExponentialMovingAverage(), tol, "MACD: same fast average");
        vp_close(m1.GetSlowExponentialMovingAverage(), m2.GetSlowExponentialMovingAverage(), tol, "MACD: same slow average");
        vp_close(m1.GetMACDSignal(), m2.GetMACDSignal(), tol, "MACD: same signal");
        break;
      case 4:
        r2.Update(t);
        vp_check(r1.GetNumOhlcTicks() == r2.GetNumOhlcTicks(), "RSI: same number of periods");
        vp_close(r1.GetUpwardChangeModifiedMovingAverage(), r2.GetUpwardChangeModifiedMovingAverage(), tol, "RSI: same upward average");
        vp_close(r1.GetDownwardChangeModifiedMovingAverage(), r2.GetDownwardChangeModifiedMovingAverage(), tol, "RSI: same downward average");
        vp_close(r1.GetRelativeStrengthIndex(), r2.GetRelativeStrengthIndex(), 1.0e-3, "RSI: same index");
        break;
      default:
        o2.Update(t);
        vp_check(o1.GetNumOhlcTicks() == o2.GetNumOhlcTicks(), "SO: same number of periods");
        vp_close(o1.GetLow(), o2.GetLow(), 0.0, "SO: same low");
        vp_close(o1.GetHigh(), o2.GetHigh(), 0.0, "SO: same high");
        vp_close(o1.GetK(), o2.GetK(), 1.0e-3, "SO: same %K");
        vp_close(o1.GetFastD(), o2.GetFastD(), 1.0e-2, "SO: same fast %D");
        vp_close(o1.GetSlowD(), o2.GetSlowD(), 1.0e-2, "SO: same slow %D");
        break;
    }
  }
}
