#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <limits>
#include <string>
#include <vector>
#define main vp_convert_main
#include "convert.cc"
#undef main
#include "vp.h"
#include "files.h"
#ifndef N_ROWS
#define N_ROWS 3
#endif
#ifndef N_LONG
#define N_LONG 4
#endif
static const int64_t TMAX = 8000000000LL;
static const float VMAX = 1e12f;

// number of value columns a row has beyond its timestamp
static bool same_rec(const PriceRecord& a, const PriceRecord& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.price(), b.price(), l);
  vp_same_f(a.volume(), b.volume(), l);
  return true;
}
static bool same_rec(const OhlcTick& a, const OhlcTick& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.open(), b.open(), l);
  vp_same_f(a.high(), b.high(), l);
  vp_same_f(a.low(), b.low(), l);
  vp_same_f(a.close(), b.close(), l);
  vp_same_f(a.volume(), b.volume(), l);
  return true;
}
static bool same_rec(const SideInputRecord& a, const SideInputRecord& b, const char* l) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_check(a.signal_size() == b.signal_size(), l);
  for (int i = 0; i < a.signal_size() && i < b.signal_size(); ++i) vp_same_f(a.signal(i), b.signal(i), l);
  return true;
}
static void make(PriceRecord& r, const std::vector<float>& v) { r.set_price(v[0]); r.set_volume(v[1]); }
static void make(OhlcTick& r, const std::vector<float>& v) {
  r.set_open(v[0]); r.set_high(v[1]); r.set_low(v[2]); r.set_close(v[3]); r.set_volume(v[4]);
}
static void unset(PriceRecord& r, int j) { if (j == 0) r.clear_price(); else r.clear_volume(); }
static void unset(OhlcTick& r, int j) {
  if (j == 0) r.clear_open(); else if (j == 1) r.clear_high(); else if (j == 2) r.clear_low(); else if (j == 3) r.clear_close(); else r.clear_volume();
}
static void make(SideInputRecord& r, const std::vector<float>& v) { for (float x : v) r.add_signal(x); }
// the documented conditions on the values of one record (no value is NaN here)
static bool valid(const PriceRecord& r) { return vp_and(r.price() > 0, r.volume() >= 0); }
static bool valid(const OhlcTick& r) {
  return vp_and(vp_and(vp_and(r.open() > 0, r.high() > 0), vp_and(r.low() > 0, r.close() > 0)),
                vp_and(vp_and(vp_and(r.low() <= r.open(), r.low() <= r.close()), vp_and(r.high() >= r.open(), r.high() >= r.close())),
                       vp_and(r.low() <= r.high(), r.volume() >= 0)));
}
static bool valid(const SideInputRecord&) { return true; }
template <class T> struct Kind;
template <> struct Kind<PriceRecord> {
  static const int cols = 2;
  static absl::StatusOr<PriceHistory> csv(const std::string& f, absl::Time a, absl::Time b) { return ReadPriceHistoryFromCsvFile(f, a, b); }
};
template <> struct Kind<OhlcTick> {
  static const int cols = 5;
  static absl::StatusOr<OhlcHistory> csv(const std::string& f, absl::Time a, absl::Time b) { return ReadOhlcHistoryFromCsvFile(f, a, b); }
};
template <> struct Kind<SideInputRecord> {
  static const int cols = 0;
  static absl::StatusOr<SideHistory> csv(const std::string& f, absl::Time a, absl::Time b) { return ReadSideHistoryFromCsvFile(f, a, b); }
};

template <class T> struct Row {
  bool has_ts = true;    // the row starts with a timestamp
  bool whole = true;     // every column is present and a number
  int64_t ts = 0;
  T rec;
};

// What the import is specified to return for these rows.
template <class T> static bool expect(const std::vector<Row<T>>& rows, int64_t start, int64_t end, bool strict, std::vector<T>* out) {
  int64_t prev = 0;
  int signals = -1;
  for (const Row<T>& r : rows) {
    if (!r.has_ts) return false;
    if (start && vp_fork(r.ts < start)) continue;
    if (end && vp_fork(r.ts >= end)) break;
    if (!r.whole) return false;
    if (vp_fork(r.ts <= 0)) return false;
    if (vp_fork(strict ? r.ts <= prev : r.ts < prev)) return false;
    if (!vp_fork(valid(r.rec))) return false;
    if constexpr (std::is_same_v<T, SideInputRecord>) {
      if (r.rec.signal_size() == 0 || (signals >= 0 && r.rec.signal_size() != signals)) return false;
      signals = r.rec.signal_size();
    }
    prev = r.ts;
    out->push_back(r.rec);
  }
  return true;
}

template <class T> static void compare(const absl::StatusOr<std::vector<T>>& got, bool ok, const std::vector<T>& want) {
  vp_observe_b("ok", got.ok());
  vp_check(got.ok() == ok, "loads exactly the well-formed files");
  if (!got.ok() || !ok) { vp_cover("rejected"); return; }
  const std::vector<T>& h = got.value();
  vp_observe_i("size", static_cast<int64_t>(h.size()));
  vp_check(h.size() == want.size(), "number of records");
  for (size_t i = 0; i < h.size() && i < want.size(); ++i) same_rec(h[i], want[i], "records in order and unchanged");
  if (!want.empty()) vp_cover("loaded");
}

template <class T> static void csv() {
  const int cols = Kind<T>::cols;
  const int n = static_cast<int>(vp_choice("n", N_ROWS + 1));
  // at most one malformed row, anywhere
  const int bad = n ? static_cast<int>(vp_choice("bad", n + 1)) - 1 : -1;
  const int how = bad >= 0 ? static_cast<int>(vp_choice("how", cols ? 7 : 5)) : -1;
  std::vector<Row<T>> rows(n);
  std::string text;
  for (int i = 0; i < n; ++i) {
    Row<T>& r = rows[i];
    const std::string p = vp_name("r", i) + "_";
    const int k = cols ? cols : 1 + static_cast<int>(vp_choice(p + "signals", i ? 2 : 3));
    r.ts = vp_i64(p + "ts", -3, TMAX);
    std::vector<float> v(k);
    for (int j = 0; j < k; ++j) v[j] = vp_f32(vp_name((p + "v").c_str(), j), -VMAX, VMAX);
    r.rec.set_timestamp_sec(r.ts);
    make(r.rec, v);
    const int h = i == bad ? how : -1;
    if (h == 0) { r.has_ts = false; }                                     // an empty row
    else if (h == 1) { r.has_ts = false; text += "abc"; if (cols) { text += ","; vpf::put_float(text, v[0]); } }
    else {
      vpf::put_int(text, r.ts);
      if (h == 2) { r.whole = false; }                                    // only the timestamp
      else {
        for (int j = 0; j < k; ++j) {
          if (h == 3 && j == k - 1) {                                     // the last column is no number
            r.whole = false;
            text += ",abc";
            break;
          }
          if (h == 4 && j == 0) { r.whole = false; text += ",nan"; continue; }
          if (h == 5 && j == k - 1) { r.whole = false; break; }           // the last column is missing
          if (h == 6 && j == k - 1) { r.whole = false; text += ",nan"; continue; }
          text += ",";
          vpf::put_float(text, v[j]);
        }
      }
    }
    if (i + 1 < n || h == 0 || vp_choice("newline", 2)) text += "\n";
  }
  const int64_t start = vp_i64("start", 1, TMAX), end = vp_i64("end", 1, TMAX);
  std::vector<T> want;
  const bool ok = expect(rows, start, end, cols == 0, &want);
  const std::string name = vpf::put_file(text);
  compare(Kind<T>::csv(name, absl::FromUnixSeconds(start), absl::FromUnixSeconds(end)), ok, want);
}
VP_ENTRY(c44_price) { csv<PriceRecord>(); }
VP_ENTRY(c44_ohlc) { csv<OhlcTick>(); }
VP_ENTRY(c44_side) { csv<SideInputRecord>(); }
// a file that cannot be opened is an error
VP_ENTRY(c44_missing) {
  const int k = static_cast<int>(vp_choice("kind", 5));
  const absl::Time a = absl::FromUnixSeconds(1), b = absl::FromUnixSeconds(TMAX);
  const std::string f = vpf::no_file();
  const bool ok = k == 0 ? ReadPriceHistoryFromCsvFile(f, a, b).ok()
                  : k == 1 ? ReadOhlcHistoryFromCsvFile(f, a, b).ok()
                  : k == 2 ? ReadSideHistoryFromCsvFile(f, a, b).ok()
                  : k == 3 ? ReadPriceHistoryFromDelimitedProtoFile(f, a, b).ok()
                           : ReadOhlcHistoryFromDelimitedProtoFile(f, a, b).ok();
  vp_check(!ok, "a missing file is an error");
}

// c45: binary histories
template <class T> static absl::StatusOr<std::vector<T>> read_binary(const std::string& f, absl::Time a, absl::Time b);
template <> absl::StatusOr<PriceHistory> read_binary(const std::string& f, absl::Time a, absl::Time b) { return ReadPriceHistoryFromDelimitedProtoFile(f, a, b); }
template <> absl::StatusOr<OhlcHistory> read_binary(const std::string& f, absl::Time a, absl::Time b) { return ReadOhlcHistoryFromDelimitedProtoFile(f, a, b); }
template <class T> static void binary() {
  const int n = static_cast<int>(vp_choice("n", N_ROWS + 1));
  // at most one value that is no number, or one field that is not set
  const int odd_at = n ? static_cast<int>(vp_choice("odd_at", n + 1)) - 1 : -1;
  const int odd_col = odd_at >= 0 ? static_cast<int>(vp_choice("odd_col", 1 + 2 * Kind<T>::cols)) : -1;
  std::vector<Row<T>> rows(n);
  std::vector<T> recs;
  for (int i = 0; i < n; ++i) {
    Row<T>& r = rows[i];
    const std::string p = vp_name("r", i) + "_";
    r.ts = vp_i64(p + "ts", -3, TMAX);
    std::vector<float> v(Kind<T>::cols);
    for (int j = 0; j < Kind<T>::cols; ++j) v[j] = vp_f32(vp_name((p + "v").c_str(), j), -VMAX, VMAX);
    const int odd = i == odd_at ? odd_col : -1;
    if (odd >= 1 && odd <= Kind<T>::cols) { r.whole = false; v[odd - 1] = std::numeric_limits<float>::quiet_NaN(); }
    if (odd > Kind<T>::cols) v[odd - 1 - Kind<T>::cols] = 0;     // an unset field reads as zero
    if (odd == 0) r.ts = 0;
    r.rec.set_timestamp_sec(r.ts);
    make(r.rec, v);
    if (odd == 0) r.rec.clear_timestamp_sec();
    if (odd > Kind<T>::cols) unset(r.rec, odd - 1 - Kind<T>::cols);
    recs.push_back(r.rec);
  }
  const int64_t start = vp_i64("start", 1, TMAX), end = vp_i64("end", 1, TMAX);
  std::vector<T> want;
  const bool ok = expect(rows, start, end, false, &want);
  const std::string name = vpf::new_file();
  const absl::Status w = WriteDelimitedMessagesToFile(recs.begin(), recs.end(), name, vp_choice("compress", 2) == 1);
  vp_check(w.ok(), "written");
  compare(read_binary<T>(name, absl::FromUnixSeconds(start), absl::FromUnixSeconds(end)), ok, want);
}
VP_ENTRY(c45_price) { binary<PriceRecord>(); }
VP_ENTRY(c45_ohlc) { binary<OhlcTick>(); }

// longer files, where only the times (and one bad record) are free, and the range may be open (0)
template <class T> static void far_rec(T& r, int i, bool bad);
template <> void far_rec(PriceRecord& r, int i, bool bad) { make(r, {bad ? -1.0f : 100.0f - i, i % 3 ? 2.0f * i : 0.0f}); }
template <> void far_rec(OhlcTick& r, int i, bool bad) { make(r, {10.0f - i, 20.0f - i, bad ? 15.0f : 1.0f, 10.0f + (i % 2), 0.5f * (i % 3)}); }
template <> void far_rec(SideInputRecord& r, int i, bool bad) { make(r, std::vector<float>(bad ? 3 : 2, 1.5f * i)); }
template <class T> static std::vector<float> values(const T& r);
template <> std::vector<float> values(const PriceRecord& r) { return {r.price(), r.volume()}; }
template <> std::vector<float> values(const OhlcTick& r) { return {r.open(), r.high(), r.low(), r.close(), r.volume()}; }
template <> std::vector<float> values(const SideInputRecord& r) { return std::vector<float>(r.signal().begin(), r.signal().end()); }
template <class T> static std::vector<Row<T>> far_rows(int n) {
  const int bad = static_cast<int>(vp_choice("bad", n)) - 1;
  std::vector<Row<T>> rows(n);
  for (int i = 0; i < n; ++i) {
    rows[i].ts = vp_i64(vp_name("ts", i), 1, TMAX);
    rows[i].rec.set_timestamp_sec(rows[i].ts);
    far_rec<T>(rows[i].rec, i, i == bad);
  }
  return rows;
}
static int64_t far_end(const char* name) { return vp_choice(std::string("has_") + name, 2) ? vp_i64(name, 1, TMAX) : 0; }
template <class T> static void far_csv() {
  const std::vector<Row<T>> rows = far_rows<T>(N_LONG);
  std::string text;
  for (const Row<T>& r : rows) {
    vpf::put_int(text, r.ts);
    for (float v : values<T>(r.rec)) { text += ","; vpf::put_float(text, v); }
    text += "\n";
  }
  const int64_t start = far_end("start"), end = far_end("end");
  std::vector<T> want;
  const bool ok = expect(rows, start, end, Kind<T>::cols == 0, &want);
  compare(Kind<T>::csv(vpf::put_file(text), absl::FromUnixSeconds(start), absl::FromUnixSeconds(end)), ok, want);
}
VP_ENTRY(c44_long) {
  switch (vp_choice("kind", 3)) {
    case 0: far_csv<PriceRecord>(); break;
    case 1: far_csv<OhlcTick>(); break;
    default: far_csv<SideInputRecord>(); break;
  }
}
template <class T> static void far_binary() {
  const std::vector<Row<T>> rows = far_rows<T>(N_LONG);
  std::vector<T> recs;
  for (const Row<T>& r : rows) recs.push_back(r.rec);
  const int64_t start = far_end("start"), end = far_end("end");
  std::vector<T> want;
  const bool ok = expect(rows, start, end, false, &want);
  const std::string name = vpf::new_file();
  vp_check(WriteDelimitedMessagesToFile(recs.begin(), recs.end(), name, true).ok(), "written");
  compare(read_binary<T>(name, absl::FromUnixSeconds(start), absl::FromUnixSeconds(end)), ok, want);
}
VP_ENTRY(c45_long) { if (vp_choice("kind", 2)) far_binary<OhlcTick>(); else far_binary<PriceRecord>(); }

// c52: the reports of the convert tool
VP_ENTRY(c52_gaps) {
  const int n = static_cast<int>(vp_choice("n", N_ROWS + 2));
  PriceHistory h;
  int64_t prev = 0;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(vp_i64(vp_name("ts", i), 1, TMAX));
    vp_assume(prev <= r.timestamp_sec());
    prev = r.timestamp_sec();
    r.set_price(1);
    r.set_volume(1);
    h.push_back(r);
  }
  const size_t top = vp_choice("top_n", 3);
  const std::vector<HistoryGap> gaps = GetPriceHistoryGaps(h.begin(), h.end(), 0, 0, top);
  std::string text;
  for (const HistoryGap& g : gaps) {
    const int64_t d = g.second - g.first;
    text += absl::StrFormat("%d [%s] - %d [%s]: %d:%02d:%02d\n", g.first, FormatTimeUTC(absl::FromUnixSeconds(g.first)), g.second,
                            FormatTimeUTC(absl::FromUnixSeconds(g.second)), d / 3600, (d % 3600) / 60, d % 60);
  }
  vpf::capture_begin();
  PrintPriceHistoryGaps(h, top);
  vp_same_text(vpf::capture_end(), text, "one line per gap, with its times and duration");
  if (!text.empty()) vp_cover("gaps");
}
VP_ENTRY(c52_outliers) {
  const int left = vp_choice("context", 2) ? 5 : 2, right = left == 5 ? 5 : 1;
  const int n = 4 + 4 * static_cast<int>(vp_choice("n", 4));
  std::vector<size_t> out;
  for (int i = 0; i < N_ROWS; ++i) {
    const size_t k = vp_choice(vp_name("outlier", i), n);
    if (k > (out.empty() ? 0 : out.back())) out.push_back(k);     // the first record is never an outlier
  }
  const size_t last = vp_choice("last_n", 3);
  PriceHistory h;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(vp_i64(vp_name("ts", i), 1, TMAX));
    r.set_price(vp_f32(vp_name("price", i), 0, VMAX));
    r.set_volume(vp_f32(vp_name("volume", i), 0, VMAX));
    h.push_back(r);
  }
  std::string text;
  int before = -1;
  for (int i = 0; i < n; ++i) {
    bool shown = false, hit = false;
    for (size_t k = last > 0 && out.size() > last ? out.size() - last : 0; k < out.size(); ++k) {   // 0: all
      const int o = static_cast<int>(out[k]);
      shown |= i >= o - left && i <= o + right;
      hit |= o == i;
    }
    if (!shown) continue;
    if (before >= 0 && i > before + 1) text += "   ...\n";
    before = i;
    text += absl::StrFormat("%s %d [%s]: %.2f [%.4f]\n", hit ? " x" : "  ", h[i].timestamp_sec(), FormatTimeUTC(absl::FromUnixSeconds(h[i].timestamp_sec())),
                            h[i].price(), h[i].volume());
  }
  vpf::capture_begin();
  PrintOutliersWithContext(h.begin(), h.end(), out, left, right, last);
  vp_same_text(vpf::capture_end(), text, "the last outliers with their context");
  if (!text.empty()) vp_cover("outliers");
}
