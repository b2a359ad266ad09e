#include "base/base.h"
#include "base/history.h"
#include "base/side_input.h"
#include "vp.h"
using namespace trader;
#ifndef N_SUB
#define N_SUB 4
#endif
#ifndef N_RES
#define N_RES 3
#endif
#ifndef LONG_GAP
#define LONG_GAP 16
#endif
#ifndef GAP
#define GAP 3
#endif
#ifndef N_OUT
#define N_OUT 4
#endif
#ifndef N_LOOK
#define N_LOOK 3
#endif
#ifndef N_GAPS
#define N_GAPS 4
#endif
#ifndef N_SIDE
#define N_SIDE 5
#endif
static const int64_t TMAX = 8000000000LL;

static float get_mark(const PriceRecord& r) { return r.price(); }
static float get_mark(const OhlcTick& r) { return r.close(); }
static float get_mark(const SideInputRecord& r) { return r.signal(0); }
static void set_mark(PriceRecord& r, float m) { r.set_price(m); r.set_volume(m); }
static void set_mark(OhlcTick& r, float m) { r.set_open(m); r.set_high(m); r.set_low(m); r.set_close(m); r.set_volume(m); }
static void set_mark(SideInputRecord& r, float m) { r.add_signal(m); }
static void same_rec(const PriceRecord& a, const PriceRecord& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.price(), b.price(), l);
  vp_same_f(a.volume(), b.volume(), l);
}
static void same_rec(const OhlcTick& a, const OhlcTick& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.open(), b.open(), l);
  vp_same_f(a.high(), b.high(), l);
  vp_same_f(a.low(), b.low(), l);
  vp_same_f(a.close(), b.close(), l);
  vp_same_f(a.volume(), b.volume(), l);
}
static void same_rec(const SideInputRecord& a, const SideInputRecord& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_check(a.signal_size() == b.signal_size(), l);
  vp_same_f(a.signal(0), b.signal(0), l);
}

template <class T> static void subset() {
  const int n = static_cast<int>(vp_choice("n", N_SUB + 1));
  std::vector<T> h;
  int64_t prev = -3;
  for (int i = 0; i < n; ++i) {
    T r;
    const int64_t ts = vp_i64(vp_name("ts", i), -3, TMAX);
    vp_assume(ts >= prev);
    prev = ts;
    r.set_timestamp_sec(ts);
    set_mark(r, vp_f32(vp_name("m", i), 0.5f, 1.0e6f));
    h.push_back(r);
  }
  const int64_t start = vp_i64("start", -3, TMAX), end = vp_i64("end", -3, TMAX);
  int64_t below = 0, upto = 0;      // records before the start, records before the end
  bool in[N_SUB + 1];
  int64_t count = 0;
  for (int i = 0; i < n; ++i) {
    const int64_t ts = h[i].timestamp_sec();
    in[i] = vp_and(vp_or(start <= 0, ts >= start), vp_or(end <= 0, ts < end));
    count += vp_ite_i(in[i], 1, 0);
  }
  const auto s = HistorySubset(h, start, end);
  const int64_t b = vp_concrete(s.first - h.begin()), e = vp_concrete(s.second - h.begin());
  vp_observe_i("begin", b);
  vp_observe_i("end", e);
  vp_check(b >= 0 && b <= e && e <= n, "the selected range is a valid range of the history");
  if (b >= 0 && b <= e && e <= n) {
    for (int i = 0; i < n; ++i) {
      if (i >= b && i < e) vp_check(in[i], "every selected record lies inside the window");
      else vp_check(!in[i], "every record inside the window is selected");
    }
    vp_cover(b < e ? "some" : "none");
  }
  const std::vector<T> c = HistorySubsetCopy(h, start, end);
  vp_check(static_cast<int64_t>(c.size()) == count, "the copy has exactly the records of the window");
  if (static_cast<int64_t>(c.size()) == e - b) {
    for (size_t i = 0; i < c.size(); ++i) same_rec(c[i], h[b + i], "copied records are unchanged and in order");
  }
}
VP_ENTRY(c22_price) { subset<PriceRecord>(); }
VP_ENTRY(c22_ohlc) { subset<OhlcTick>(); }
VP_ENTRY(c22_side) { subset<SideInputRecord>(); }

// ------------------------------------------------------------- resampling
static const int kRates[] = {60, 300, 1, 7, 3600, 86400};
struct Res {
  PriceHistory h;
  OhlcHistory r;
  int rate;
  int64_t first = 0, last = 0;         // periods
};
static Res do_resample(int nmin, int nmax) {
  Res x;
  const int n = nmin + static_cast<int>(vp_choice("n", nmax - nmin + 1));
  x.rate = kRates[vp_choice("rate", 6)];
  int64_t prev = 0;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    int64_t ts;
    if (i == 0) {
      ts = vp_i64("t0", 1, TMAX);
    } else {
      ts = prev + vp_i64(vp_name("dt", i), 0, static_cast<int64_t>(GAP) * x.rate);
    }
    prev = ts;
    r.set_timestamp_sec(ts);
    r.set_price(vp_f32(vp_name("p", i), 0.01f, 1.0e6f));
    r.set_volume(vp_f32(vp_name("v", i), 0.0f, 1.0e6f));
    x.h.push_back(r);
  }
  x.r = Resample(x.h.begin(), x.h.end(), x.rate);
  vp_observe_i("size", static_cast<int64_t>(x.r.size()));
  for (size_t i = 0; i < x.r.size(); ++i) {
    vp_observe_i(vp_name("ts", i), x.r[i].timestamp_sec());
    vp_observe_f(vp_name("vol", i), x.r[i].volume());
  }
  return x;
}
// a long gap between two records: every period of it is filled
VP_ENTRY(c23_long) {
  static const int rates[] = {1, 60, 3600, 86400, 604800, 2592000};
  const int rate = rates[vp_choice("rate", 6)];
  PriceHistory h(2);
  const int64_t t0 = vp_i64("t0", 1, TMAX), dt = vp_i64("dt", 0, static_cast<int64_t>(LONG_GAP) * rate);
  h[0].set_timestamp_sec(t0);
  h[1].set_timestamp_sec(t0 + dt);
  h[0].set_price(vp_f32("p0", 0.01f, 1.0e6f));
  h[1].set_price(vp_f32("p1", 0.01f, 1.0e6f));
  h[0].set_volume(1);
  h[1].set_volume(vp_f32("v1", 0.0f, 1.0e6f));
  const OhlcHistory r = Resample(h.begin(), h.end(), rate);
  const int64_t first = t0 / rate, n = static_cast<int64_t>(r.size());
  vp_check(n == (t0 + dt) / rate - first + 1, "one tick for every period from the first to the last record");
  for (int64_t k = 0; k < n; ++k) {
    vp_check(r[k].timestamp_sec() == (first + k) * rate, "tick timestamps are aligned and one period apart");
    if (k == 0 || k == n - 1) continue;
    vp_same_f(r[k].open(), h[0].price(), "an empty period opens at the previous close");
    vp_same_f(r[k].high(), h[0].price(), "an empty period's high is the previous close");
    vp_same_f(r[k].low(), h[0].price(), "an empty period's low is the previous close");
    vp_same_f(r[k].close(), h[0].price(), "an empty period closes at the previous close");
    vp_same_f(r[k].volume(), 0.0f, "an empty period has no volume");
  }
  if (n > 10) vp_cover("long gap");
}
VP_ENTRY(c23_grid) {
  Res x = do_resample(0, N_RES);
  if (x.h.empty()) {
    vp_check(x.r.empty(), "no records, no ticks");
    return;
  }
  const int64_t first = x.h.front().timestamp_sec() / x.rate, last = x.h.back().timestamp_sec() / x.rate;
  const int64_t n = static_cast<int64_t>(x.r.size());
  vp_check(n == last - first + 1, "one tick for every period from the first to the last record");
  for (int64_t k = 0; k < n; ++k) {
    const OhlcTick& t = x.r[k];
    vp_check(t.timestamp_sec() == (first + k) * x.rate, "tick timestamps are aligned and one period apart");
    bool any = false;
    for (const PriceRecord& p : x.h) any = vp_or(any, p.timestamp_sec() / x.rate == first + k);
    if (!vp_fork(any)) {
      vp_cover("empty period");
      vp_check(k > 0, "the first period has a record");
      if (k > 0) {
        const float c = x.r[k - 1].close();
        vp_same_f(t.open(), c, "an empty period opens at the previous close");
        vp_same_f(t.high(), c, "an empty period's high is the previous close");
        vp_same_f(t.low(), c, "an empty period's low is the previous close");
        vp_same_f(t.close(), c, "an empty period closes at the previous close");
        vp_same_f(t.volume(), 0.0f, "an empty period has no volume");
      }
    }
  }
}
VP_ENTRY(c24_summary) {
  Res x = do_resample(1, N_RES);
  const int64_t first = x.h.front().timestamp_sec() / x.rate;
  const int64_t n = static_cast<int64_t>(x.r.size());
  int64_t seen = 0;
  for (int64_t k = 0; k < n; ++k) {
    const OhlcTick& t = x.r[k];
    float op = 0, hi = 0, lo = 0, cl = 0;
    double vol = 0;
    int m = 0;
    for (const PriceRecord& p : x.h) {
      // records are matched by the tick's own interval
      if (!vp_fork(vp_and(p.timestamp_sec() >= t.timestamp_sec(), p.timestamp_sec() < t.timestamp_sec() + x.rate))) continue;
      if (m == 0) op = hi = lo = p.price();
      hi = std::max(hi, p.price());
      lo = std::min(lo, p.price());
      cl = p.price();
      vol += p.volume();
      ++m;
    }
    seen += m;
    if (m > 0) {
      vp_cover("period with records");
      vp_same_f(t.open(), op, "open is the first price of the period");
      vp_same_f(t.close(), cl, "close is the last price of the period");
      vp_same_f(t.high(), hi, "high is the highest price of the period");
      vp_same_f(t.low(), lo, "low is the lowest price of the period");
      if (m == 1) vp_same_f(t.volume(), static_cast<float>(vol), "volume is the record's volume");
      else vp_close(t.volume(), vol, 1.0e-6 * vol + 1e-30, "volume is the sum of the period's volumes");
    } else {
      vp_same_f(t.volume(), 0.0f, "no record, no volume");
    }
    vp_check(vp_and(t.low() <= t.open(), vp_and(t.open() <= t.high(), vp_and(t.low() <= t.close(), t.close() <= t.high()))), "low <= open, close <= high");
  }
  (void)first;
  vp_check(seen == static_cast<int64_t>(x.h.size()), "every record belongs to exactly one tick");
}

// ---------------------------------------------------------------- outliers
static bool valid(const PriceRecord& r) { return !(r.price() <= 0) && !(r.volume() < 0); }
static void check_outliers(const PriceHistory& h, float dev) {
  std::vector<size_t> idx;
  const PriceHistory clean = RemoveOutliers(h.begin(), h.end(), dev, &idx);
  const PriceHistory clean2 = RemoveOutliers(h.begin(), h.end(), dev, nullptr);
  vp_observe_i("kept", static_cast<int64_t>(clean.size()));
  std::vector<size_t> kept, dropped;
  for (size_t i = 0; i < h.size(); ++i) {
    bool drop = !valid(h[i]);
    if (!drop && !kept.empty()) {
      const PriceRecord& last = h[kept.back()];
      const float minutes = std::max(1.0f, static_cast<float>(h[i].timestamp_sec() - last.timestamp_sec()) / 60.0f);
      const float factor = (1.0f + dev) * std::sqrt(minutes);
      const float up = last.price() * factor, down = last.price() / factor;
      const bool above = h[i].price() > up, below = h[i].price() < down;
      if (above || below) {
        int look = 0, persistent = 0;
        for (size_t j = i + 1; j < h.size() && look < 10; ++j) {
          if (!valid(h[j])) continue;
          ++look;
          if ((above && h[j].price() > 0.8f * up + 0.2f * last.price()) || (below && h[j].price() < 0.8f * down + 0.2f * last.price())) ++persistent;
        }
        drop = persistent < 3;
        vp_cover(drop ? "jump dropped" : "jump kept");
      }
    }
    (drop ? dropped : kept).push_back(i);
  }
  vp_check(clean.size() == kept.size(), "exactly the outliers are dropped");
  vp_check(idx.size() == dropped.size(), "exactly the dropped records are reported");
  vp_check(clean2.size() == clean.size(), "the index list does not change the returned history");
  if (clean.size() == kept.size())
    for (size_t i = 0; i < kept.size(); ++i) same_rec(clean[i], h[kept[i]], "kept records are unchanged and in order");
  if (idx.size() == dropped.size())
    for (size_t i = 0; i < idx.size(); ++i) vp_check(idx[i] == dropped[i], "outlier indices are the positions of the dropped records");
  if (clean2.size() == clean.size())
    for (size_t i = 0; i < clean.size(); ++i) same_rec(clean2[i], clean[i], "the index list does not change the returned history");
}
VP_ENTRY(c25_any) {
  const int n = static_cast<int>(vp_choice("n", N_OUT + 1));
  const float dev = vp_f32("dev", 0.0f, 1.0f);
  PriceHistory h;
  int64_t ts = vp_i64("t0", 1, TMAX);
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    if (i) ts = ts + vp_i64(vp_name("dt", i), 0, 100000);
    r.set_timestamp_sec(ts);
    r.set_price(vp_f32(vp_name("p", i), -10.0f, 1.0e5f));
    r.set_volume(vp_f32(vp_name("v", i), -10.0f, 1.0e5f));
    h.push_back(r);
  }
  check_outliers(h, dev);
}
// a jump followed by a long look-ahead: the limit of 10 valid records and the threshold of 3
VP_ENTRY(c25_lookahead) {
  PriceHistory h;
  const float dev = vp_f32("dev", 0.0f, 1.0f);
  const bool upward = vp_choice("upward", 2);
  const int len = 9 + static_cast<int>(vp_choice("len", 5));
  const int bad = static_cast<int>(vp_choice("bad", 3)) * 6;   // 0: none, 6, 12
  for (int i = 0; i < 2; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(1000 + 60 * i);
    r.set_price(vp_f32(vp_name("p", i), 1.0f, 1.0e5f));
    r.set_volume(1.0f);
    h.push_back(r);
  }
  const float f = 1.0f + dev;
  const float up = h[0].price() * f, down = h[0].price() / f;
  vp_assume(upward ? h[1].price() > up : h[1].price() < down);
  const float mu = 0.8f * up + 0.2f * h[0].price(), md = 0.8f * down + 0.2f * h[0].price();
  const int first_free = len - N_LOOK;
  for (int i = 2; i < len; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(1000 + 60 * i);
    if (i == bad) {
      r.set_price(-1.0f);
    } else if (i < first_free) {
      // back at the reference price
      r.set_price(h[0].price());
    } else {
      r.set_price(vp_f32(vp_name("p", i), 0.5f, 2.0e5f));
      // either clearly kept at the reference price or beyond the middle
      if (!vp_fork(upward ? r.price() > mu : r.price() < md)) r.set_price(h[0].price());
    }
    r.set_volume(vp_f32(vp_name("v", i), 0.0f, 1.0e6f));
    h.push_back(r);
  }
  check_outliers(h, dev);
}

// -------------------------------------------------------------------- gaps
VP_ENTRY(c26_gaps) {
  const int n = static_cast<int>(vp_choice("n", N_GAPS + 1));
  const int64_t T = 4000000000LL;
  PriceHistory h;
  int64_t prev = 1000;
  int64_t fst = 0;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    const int64_t ts = vp_i64(vp_name("t", i), 1000, T);
    vp_assume(ts >= prev);
    if (i == 0) fst = ts;
    prev = ts;
    r.set_timestamp_sec(ts);
    r.set_price(1.0f);
    r.set_volume(1.0f);
    h.push_back(r);
  }
  std::vector<std::pair<int64_t, int64_t>> g;
  int64_t start = 0, end = 0;
  if (vp_choice("has_start", 2)) {
    start = vp_i64("start", 1, T);
    if (n) vp_assume(start <= fst);
    if (n) g.push_back({start, fst});
  }
  for (int i = 1; i < n; ++i) g.push_back({h[i - 1].timestamp_sec(), h[i].timestamp_sec()});
  if (vp_choice("has_end", 2)) {
    end = vp_i64("end", 1, 2 * T);
    if (n) vp_assume(end >= prev);
    if (n) g.push_back({prev, end});
  }
  const size_t top = static_cast<size_t>(vp_choice("top_n", N_GAPS + 3));
  const std::vector<HistoryGap> r = GetPriceHistoryGaps(h.begin(), h.end(), start, end, top);
  vp_observe_i("gaps", static_cast<int64_t>(r.size()));
  vp_check(r.size() == std::min(top, g.size()), "the report has the requested number of gaps, or all if there are fewer");
  for (size_t i = 0; i < r.size(); ++i) {
    vp_observe_i(vp_name("a", i), r[i].first);
    vp_observe_i(vp_name("b", i), r[i].second);
    if (i) vp_check(r[i - 1].first <= r[i].first, "the report is chronological");
    int64_t in_g = 0, in_r = 0;
    for (const auto& x : g) in_g += vp_ite_i(vp_and(x.first == r[i].first, x.second == r[i].second), 1, 0);
    for (const auto& x : r) in_r += vp_ite_i(vp_and(x.first == r[i].first, x.second == r[i].second), 1, 0);
    vp_check(in_r <= in_g, "every reported gap exists");
  }
  if (r.size() < g.size())
    for (const auto& x : g) {
      int64_t in_g = 0, in_r = 0;
      for (const auto& y : g) in_g += vp_ite_i(vp_and(x.first == y.first, x.second == y.second), 1, 0);
      for (const auto& y : r) in_r += vp_ite_i(vp_and(x.first == y.first, x.second == y.second), 1, 0);
      for (const auto& y : r)
        vp_check(vp_or(in_r >= in_g, x.second - x.first <= y.second - y.first), "no omitted gap is longer than a reported one");
    }
}

// ----------------------------------------------------------------- context
VP_ENTRY(c27_context) {
  const int size = 1 + static_cast<int>(vp_choice("size", 6));
  const int m = static_cast<int>(vp_choice("m", 4));
  const bool sorted = m <= 2 && size <= 5 ? vp_choice("sorted", 2) : true;   // any list of positions is allowed
  if (sorted && m > size) return;
  std::vector<size_t> idx;
  int64_t prev = -1;
  for (int i = 0; i < m; ++i) {
    const int64_t j = vp_i64(vp_name("j", i), 0, size - 1);
    if (sorted) vp_assume(j > prev);
    prev = j;
    idx.push_back(static_cast<size_t>(vp_concrete(j)));
  }
  const int64_t left = vp_i64("left", 0, 1LL << 40), right = vp_i64("right", 0, 1LL << 40);
  const int64_t last = vp_choice("last_n", 5);
  const std::map<size_t, bool> c = GetOutlierIndicesWithContext(idx, size, left, right, last);
  vp_observe_i("listed", static_cast<int64_t>(c.size()));
  int64_t expected = 0;
  for (int k = 0; k < size; ++k) {
    bool want = false, mark = false;
    for (int i = (last == 0 || m <= last) ? 0 : m - static_cast<int>(last); i < m; ++i) {
      const int64_t j = static_cast<int64_t>(idx[i]);
      want = vp_or(want, k <= j ? j - k <= left : k - j <= right);
      mark = mark || j == k;
    }
    const auto it = c.find(static_cast<size_t>(k));
    vp_check((it != c.end()) == want, "a position is listed iff it is within the distance of a chosen outlier");
    if (it != c.end()) vp_check(it->second == mark, "a position is marked iff it is a chosen outlier");
    expected += vp_ite_i(want, 1, 0);
  }
  vp_check(static_cast<int64_t>(c.size()) == expected, "nothing outside the history is listed");
}

// -------------------------------------------------------------- side input
VP_ENTRY(c21_lookup) {
  const int n = static_cast<int>(vp_choice("n", N_SIDE + 1));
  const int k = n ? static_cast<int>(vp_choice("signals", 3)) : 0;
  SideHistory h;
  int64_t prev = 0;
  for (int i = 0; i < n; ++i) {
    SideInputRecord r;
    const int64_t ts = vp_i64(vp_name("ts", i), 1, TMAX);
    vp_assume(ts > prev);
    prev = ts;
    r.set_timestamp_sec(ts);
    for (int j = 0; j < k; ++j) r.add_signal(vp_f32(vp_name(j ? "y" : "x", i), -1.0e6f, 1.0e6f));
    h.push_back(r);
  }
  const SideInput s(h);
  vp_check(s.GetNumberOfRecords() == n, "number of records");
  vp_check(s.GetNumberOfSignals() == k, "number of signals");
  const int64_t t = vp_i64("t", -5, TMAX);
  int64_t want = -1;
  for (int i = 0; i < n; ++i) want += vp_ite_i(h[i].timestamp_sec() <= t, 1, 0);
  const int got = s.GetSideInputIndex(t);
  vp_observe_i("index", got);
  vp_check(got == want, "the lookup returns the last record not after the time");
  const int hint = static_cast<int>(vp_choice("hint", n + 1)) - 1;
  if (hint < 0 || vp_fork(h[hint].timestamp_sec() <= t)) {
    const int g2 = s.GetSideInputIndex(t, hint);
    vp_observe_i("index_hint", g2);
    vp_check(g2 == want, "the lookup with a valid hint returns the same index");
    vp_cover(hint < 0 ? "no hint" : "hint");
  }
  for (int i = 0; i < n; ++i) {
    vp_check(s.GetSideInputTimestamp(i) == h[i].timestamp_sec(), "timestamps are read back");
    std::vector<float> out;
    out.push_back(7.0f);
    s.GetSideInputSignals(i, out);
    vp_check(static_cast<int>(out.size()) == k + 1, "all signals of the record are appended");
    vp_same_f(out[0], 7.0f, "existing signals are kept");
    for (int j = 0; j < k && j + 1 < static_cast<int>(out.size()); ++j) {
      vp_same_f(s.GetSideInputSignal(i, j), h[i].signal(j), "signals are read back");
      vp_same_f(out[j + 1], h[i].signal(j), "signals are read back in order");
    }
  }
}
