#include "tool.h"
#include "convert.cc"
#undef exit
#undef main
#undef ShutdownProtobufLibrary
#ifndef N_ROWS
#define N_ROWS 2
#endif
static void run_tool() {
  static char name[] = "convert";
  static char* argv[] = {name, nullptr};
  after_main(vp_tool_main(1, argv));
}
enum { PRICE_CSV, PRICE_BIN, OHLC_CSV, OHLC_BIN, SIDE_CSV, KINDS };
struct Case {
  bool fail = false;            // the program must report failure
  bool untouched = false;       // ... without writing any output
  bool price = false, ohlc = false, side = false;   // output written
  PriceHistory price_want;
  OhlcHistory ohlc_want;
  SideHistory side_want;
  std::string price_out, ohlc_out, side_out;
};
static Case* want = nullptr;

static bool same_rec(const PriceRecord& a, const PriceRecord& b) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), "timestamp of a price");
  vp_same_f(a.price(), b.price(), "price");
  vp_same_f(a.volume(), b.volume(), "volume");
  return true;
}
static bool same_rec(const OhlcTick& a, const OhlcTick& b) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), "timestamp of a tick");
  vp_same_f(a.open(), b.open(), "open");
  vp_same_f(a.high(), b.high(), "high");
  vp_same_f(a.low(), b.low(), "low");
  vp_same_f(a.close(), b.close(), "close");
  vp_same_f(a.volume(), b.volume(), "volume");
  return true;
}
static bool same_rec(const SideInputRecord& a, const SideInputRecord& b) {
  vp_check(a.timestamp_sec() == b.timestamp_sec(), "timestamp of a side input");
  vp_check(a.signal_size() == b.signal_size(), "number of signals");
  for (int i = 0; i < a.signal_size() && i < b.signal_size(); ++i) vp_same_f(a.signal(i), b.signal(i), "signal");
  return true;
}
template <class T> static void written(const std::string& file, bool yes, const std::vector<T>& w) {
  if (file.empty()) return;
  vp_check(vpf::exists(file) == yes, "an output is written exactly if there is something to write");
  if (!yes || !vpf::exists(file)) return;
  std::vector<T> got;
  vp_check(ReadDelimitedMessagesFromFile<T>(file, got).ok(), "the output can be read");
  vp_check(got.size() == w.size(), "number of records written");
  vp_observe_i("written", static_cast<int64_t>(got.size()));
  for (size_t i = 0; i < got.size() && i < w.size(); ++i) same_rec(got[i], w[i]);
  vp_cover("written");
}
static void after_main(int code) {
  vp_observe_i("code", code);
  vp_check((code != 0) == want->fail, "exit status");
  if (want->fail) {
    vp_cover("failed");
    if (!want->untouched) return;
    for (const std::string& f : {want->price_out, want->ohlc_out, want->side_out}) vp_check(f.empty() || !vpf::exists(f), "nothing is written on failure");
    return;
  }
  written(want->price_out, want->price, want->price_want);
  written(want->ohlc_out, want->ohlc, want->ohlc_want);
  written(want->side_out, want->side, want->side_want);
}

static void make(PriceRecord& r, const std::vector<float>& v) { r.set_price(v[0]); r.set_volume(v[1]); }
static void make(OhlcTick& r, const std::vector<float>& v) { r.set_open(v[0]); r.set_high(v[1]); r.set_low(v[2]); r.set_close(v[3]); r.set_volume(v[4]); }
// a history file with up to N_ROWS records, of the given kind
static std::string input(int kind) {
  const int n = static_cast<int>(vp_choice("n", N_ROWS + 1));
  const int cols = kind == PRICE_CSV || kind == PRICE_BIN ? 2 : kind == SIDE_CSV ? 1 : 5;
  std::string text;
  PriceHistory ph;
  OhlcHistory oh;
  int64_t prev = 300;
  for (int i = 0; i < n; ++i) {
    const std::string p = vp_name("r", i) + "_";
    const int64_t ts = vp_i64(p + "ts", 590, 1510);
    std::vector<float> v(cols);
    for (int j = 0; j < cols; ++j) v[j] = vp_f32(vp_name((p + "v").c_str(), j), j == 0 ? -1.0f : 0.0f, 1e6f);
    vpf::put_int(text, ts);
    for (int j = 0; j < cols; ++j) { text += ","; vpf::put_float(text, v[j]); }
    text += "\n";
    if (kind == PRICE_BIN) { PriceRecord r; r.set_timestamp_sec(ts); make(r, v); ph.push_back(r); }
    if (kind == OHLC_BIN) { OhlcTick r; r.set_timestamp_sec(ts); make(r, v); oh.push_back(r); }
  }
  if (kind != PRICE_BIN && kind != OHLC_BIN) return vpf::put_file(text);
  const std::string f = vpf::fresh_file(9);
  const absl::Status s = kind == PRICE_BIN ? WriteDelimitedMessagesToFile(ph.begin(), ph.end(), f, false) : WriteDelimitedMessagesToFile(oh.begin(), oh.end(), f, false);
  vp_check(s.ok(), "input written");
  return f;
}
static void set_input(int kind, const std::string& f) {
  if (kind == PRICE_CSV) absl::SetFlag(&FLAGS_input_price_history_csv_file, f);
  if (kind == PRICE_BIN) absl::SetFlag(&FLAGS_input_price_history_delimited_proto_file, f);
  if (kind == OHLC_CSV) absl::SetFlag(&FLAGS_input_ohlc_history_csv_file, f);
  if (kind == OHLC_BIN) absl::SetFlag(&FLAGS_input_ohlc_history_delimited_proto_file, f);
  if (kind == SIDE_CSV) absl::SetFlag(&FLAGS_input_side_history_csv_file, f);
}
static void set_outputs(int which) {
  if (which & 1) { want->price_out = vpf::fresh_file(0); absl::SetFlag(&FLAGS_output_price_history_delimited_proto_file, want->price_out); }
  if (which & 2) { want->ohlc_out = vpf::fresh_file(1); absl::SetFlag(&FLAGS_output_ohlc_history_delimited_proto_file, want->ohlc_out); }
  if (which & 4) { want->side_out = vpf::fresh_file(2); absl::SetFlag(&FLAGS_output_side_history_delimited_proto_file, want->side_out); }
}
static const char* const kStart = "1970-01-01 00:10:00";
static const char* const kEnd = "1970-01-01 00:25:00";
static void convert(int kind, int outputs) {
  want = new Case();
  const int rate = vp_choice("rate", 2) ? 450 : 300;
  const double dev = vp_choice("deviation", 2) ? 0.5 : 0.05;
  absl::SetFlag(&FLAGS_start_time, std::string(kStart));
  absl::SetFlag(&FLAGS_end_time, std::string(kEnd));
  absl::SetFlag(&FLAGS_sampling_rate_sec, rate);
  absl::SetFlag(&FLAGS_max_price_deviation_per_min, dev);
  absl::SetFlag(&FLAGS_compress, vp_choice("compress", 2) == 1);
  const std::string f = input(kind);
  set_input(kind, f);
  set_outputs(outputs);
  const absl::Time a = absl::FromUnixSeconds(600), b = absl::FromUnixSeconds(1500);
  want->untouched = true;
  if (kind == PRICE_CSV || kind == PRICE_BIN) {
    const absl::StatusOr<PriceHistory> h = kind == PRICE_CSV ? ReadPriceHistoryFromCsvFile(f, a, b) : ReadPriceHistoryFromDelimitedProtoFile(f, a, b);
    want->fail = !h.ok();
    if (h.ok()) {
      want->price_want = h.value();
      want->price = !want->price_want.empty();
      const PriceHistory clean = RemoveOutliers(want->price_want.begin(), want->price_want.end(), dev, nullptr);
      want->ohlc_want = Resample(clean.begin(), clean.end(), rate);
      want->ohlc = !want->ohlc_want.empty();
    }
  } else if (kind == SIDE_CSV) {
    const absl::StatusOr<SideHistory> h = ReadSideHistoryFromCsvFile(f, a, b);
    want->fail = !h.ok();
    if (h.ok()) { want->side_want = h.value(); want->side = !want->side_want.empty(); }
  } else {
    const absl::StatusOr<OhlcHistory> h = kind == OHLC_CSV ? ReadOhlcHistoryFromCsvFile(f, a, b) : ReadOhlcHistoryFromDelimitedProtoFile(f, a, b);
    want->fail = !h.ok();
    if (h.ok()) { want->ohlc_want = h.value(); want->ohlc = !want->ohlc_want.empty(); }
  }
  run_tool();
}
VP_ENTRY(c50_price) { convert(vp_choice("binary", 2) ? PRICE_BIN : PRICE_CSV, static_cast<int>(vp_choice("outputs", 4))); }
VP_ENTRY(c50_ohlc) { convert(vp_choice("binary", 2) ? OHLC_BIN : OHLC_CSV, vp_choice("outputs", 2) ? 7 : 2); }
VP_ENTRY(c50_side) { convert(SIDE_CSV, vp_choice("outputs", 2) ? 7 : 4); }
// anything but one readable input, a readable period and writable outputs is a failure
VP_ENTRY(c50_refuse) {
  want = new Case();
  const int how = static_cast<int>(vp_choice("how", 6));
  absl::SetFlag(&FLAGS_start_time, std::string(kStart));
  absl::SetFlag(&FLAGS_end_time, std::string(kEnd));
  std::string rows[KINDS] = {"900,1,1\n", "", "900,1,2,1,2,1\n", "", "900,1\n"};
  const int kinds[] = {PRICE_CSV, OHLC_CSV, SIDE_CSV};
  set_outputs(7);
  want->untouched = true;
  want->fail = true;
  if (how == 0) {                                          // two inputs, of any kinds
    const int a = static_cast<int>(vp_choice("first", KINDS - 1)), b = a + 1 + static_cast<int>(vp_choice("second", KINDS - 1 - a));
    const std::string f = vpf::put_file(rows[a].empty() ? rows[b] : rows[a]);
    set_input(a, f);
    set_input(b, f);
  } else if (how == 1) {                                   // no input
  } else if (how == 2) {                                   // an unreadable period
    const int k = kinds[vp_choice("kind", 3)];
    set_input(k, vpf::put_file(rows[k]));
    if (vp_choice("which", 2)) absl::SetFlag(&FLAGS_start_time, std::string("then"));
    else absl::SetFlag(&FLAGS_end_time, std::string("now"));
  } else if (how == 3) {                                   // a missing input
    set_input(static_cast<int>(vp_choice("kind", KINDS)), vpf::no_file());
  } else if (how == 4) {                                   // an output that cannot be written
    const int k = kinds[vp_choice("kind", 3)];
    set_input(k, vpf::put_file(rows[k]));
    want->untouched = false;
    const std::string bad = vpf::bad_file();
    if (k == PRICE_CSV && vp_choice("which", 2)) absl::SetFlag(&FLAGS_output_price_history_delimited_proto_file, bad);
    else if (k == SIDE_CSV) absl::SetFlag(&FLAGS_output_side_history_delimited_proto_file, bad);
    else absl::SetFlag(&FLAGS_output_ohlc_history_delimited_proto_file, bad);
  } else {                                                 // a malformed row
    const int k = kinds[vp_choice("kind", 3)];
    set_input(k, vpf::put_file(rows[k] + "901,\n"));
  }
  run_tool();
}

// c53: a file that cannot be written or read completely
template <class T> static void write_full(const std::vector<T>& h) {
  const bool full = vp_choice("full", 2) == 1;
  const absl::Status s = WriteDelimitedMessagesToFile(h.begin(), h.end(), full ? vpf::full_file() : vpf::fresh_file(0), vp_choice("compress", 2) == 1);
  vp_check(s.ok() == !full, "a file is written exactly if the device takes it");
  vp_cover(full ? "refused" : "written");
}
VP_ENTRY(c53_write) {
  const int kind = static_cast<int>(vp_choice("kind", 3)), n = static_cast<int>(vp_choice("n", N_ROWS + 1));
  PriceHistory p(n);
  OhlcHistory o(n);
  SideHistory d(n);
  for (int i = 0; i < n; ++i) {
    const int64_t ts = vp_i64(vp_name("ts", i), 1, 1000000);
    const float v = vp_f32(vp_name("v", i), 0, 1e6f);
    p[i].set_timestamp_sec(ts); p[i].set_price(v);
    o[i].set_timestamp_sec(ts); o[i].set_close(v);
    d[i].set_timestamp_sec(ts); d[i].add_signal(v);
  }
  if (kind == 0) write_full(p); else if (kind == 1) write_full(o); else write_full(d);
}
VP_ENTRY(c53_read) {
  const absl::Time a = absl::FromUnixSeconds(vp_i64("start", 0, 1000000)), b = absl::FromUnixSeconds(vp_i64("end", 0, 1000000));
  const std::string f = vpf::dir_file();
  std::vector<SideInputRecord> got;
  bool ok = false;
  switch (vp_choice("kind", 6)) {
    case 0: ok = ReadPriceHistoryFromCsvFile(f, a, b).ok(); break;
    case 1: ok = ReadOhlcHistoryFromCsvFile(f, a, b).ok(); break;
    case 2: ok = ReadSideHistoryFromCsvFile(f, a, b).ok(); break;
    case 3: ok = ReadPriceHistoryFromDelimitedProtoFile(f, a, b).ok(); break;
    case 4: ok = ReadOhlcHistoryFromDelimitedProtoFile(f, a, b).ok(); break;
    default: ok = ReadDelimitedMessagesFromFile<SideInputRecord>(f, got).ok();
  }
  vp_check(!ok, "a file that cannot be read is an error");
}
VP_ENTRY(c53_convert) {
  want = new Case();
  absl::SetFlag(&FLAGS_start_time, std::string(kStart));
  absl::SetFlag(&FLAGS_end_time, std::string(kEnd));
  want->fail = true;
  const std::string rows[KINDS] = {"900,1,1\n", "", "900,1,2,1,2,1\n", "", "900,1\n"};
  const int kinds[] = {PRICE_CSV, OHLC_CSV, SIDE_CSV};
  if (vp_choice("read", 2)) {
    set_input(static_cast<int>(vp_choice("kind", KINDS)), vpf::dir_file());
    set_outputs(7);
    want->untouched = true;
  } else {
    const int k = kinds[vp_choice("kind", 3)];
    set_input(k, vpf::put_file(rows[k]));
    set_outputs(7);
    const std::string full = vpf::full_file();
    if (k == PRICE_CSV && vp_choice("which", 2)) absl::SetFlag(&FLAGS_output_price_history_delimited_proto_file, full);
    else if (k == SIDE_CSV) absl::SetFlag(&FLAGS_output_side_history_delimited_proto_file, full);
    else absl::SetFlag(&FLAGS_output_ohlc_history_delimited_proto_file, full);
  }
  run_tool();
}
