#include <sstream>
#include <string>
#include <vector>
#include "base/base.h"
#include "util/proto.h"
#include "vp.h"
#include "files.h"
using namespace trader;
#ifndef N_MSG
#define N_MSG 3
#endif
static const int64_t TMAX = 8000000000LL;
static const float VMAX = 1e12f;

#ifdef VP_SYMBOLIC
static int& fails_at() { return google::protobuf::util::vp_serialize_fails_at; }
#else
static int g_fails_at = -1, g_count = 0;
static int& fails_at() { return g_fails_at; }
// Stands for the library's function (engine/checks.py: wrap), which cannot be made to fail.
extern "C" bool vp_serialize(const google::protobuf::MessageLite& m, google::protobuf::io::ZeroCopyOutputStream* out) {
  if (g_count++ == g_fails_at) return false;
  google::protobuf::io::CodedOutputStream c(out);
  c.WriteVarint32(static_cast<uint32_t>(m.ByteSizeLong()));
  return m.SerializeToCodedStream(&c);
}
#endif

// kSoon: corrupt data close behind the messages, seen by zlib before it hands them out;
// kLate: corrupt data seen after that.
enum End { kClean, kInside, kSoon, kLate, kCut };
// The bytes of a stream of these messages that ends in the given way.
template <class T> static std::string stream_of(const std::vector<T>& msgs, int end) {
#ifdef VP_SYMBOLIC
  std::string s;
  for (const T& m : msgs) {
    google::protobuf::util::VpMessages<T>().push_back(m);
    s.push_back('G');
    s.push_back(static_cast<char>('0' + google::protobuf::util::VpMessages<T>().size() - 1));
  }
  if (end == kInside) s += "G";
  if (end == kSoon) s += "z";
  if (end == kLate) s += "y";
  if (end == kClean) s += "E";
  return s;
#else
  namespace io = google::protobuf::io;
  std::string all, part;
  {
    io::StringOutputStream o(&all);
    io::GzipOutputStream g(&o);
    for (const T& m : msgs) vp_serialize(m, &g);
    if (end == kInside) { io::CodedOutputStream c(&g); c.WriteVarint32(40); c.WriteString("abc"); }
    g.Flush();
    part = all;
    g.Close();
  }
  if (end == kClean || end == kInside) return all;
  if (end == kCut) return part;
  if (end == kLate) for (int i = 0; i < 4000; ++i) part += std::string("\0\0\0\xff\xff", 5);   // empty blocks
  return part + std::string("\xff\xff\xff\xff\xff\xff\xff\xff", 8);
#endif
}
// Records of every shape: a value, no value, several values.
static SideInputRecord message(int i) {
  const std::string p = vp_name("m", i) + "_";
  SideInputRecord r;
  if (vp_choice(p + "has_ts", 2)) r.set_timestamp_sec(vp_i64(p + "ts", -TMAX, TMAX));
  const int k = static_cast<int>(vp_choice(p + "signals", 3));
  for (int j = 0; j < k; ++j) r.add_signal(vp_f32(vp_name((p + "s").c_str(), j), -VMAX, VMAX));
  return r;
}
static void same_rec(const SideInputRecord& a, const SideInputRecord& b, const char* l) {
  vp_check(a.has_timestamp_sec() == b.has_timestamp_sec(), l);
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_check(a.signal_size() == b.signal_size(), l);
  for (int i = 0; i < a.signal_size() && i < b.signal_size(); ++i) vp_same_f(a.signal(i), b.signal(i), l);
}
static std::vector<SideInputRecord> messages(int n) {
  std::vector<SideInputRecord> m;
  for (int i = 0; i < n; ++i) m.push_back(message(i));
  return m;
}

// c46: delivery to the consumer, one reaction per message
VP_ENTRY(c46_read) {
  const int n = static_cast<int>(vp_choice("n", N_MSG + 1));
  const std::vector<SideInputRecord> msgs = messages(n);
  const int end = static_cast<int>(vp_choice("end", 4));
  std::istringstream is(stream_of(msgs, end));
  std::vector<SideInputRecord> got;
  int stop = 0;      // 1 break, 2 error
  bool after = false;
  const absl::Status st = ReadDelimitedMessagesFromIStream<SideInputRecord>(is, [&](const SideInputRecord& m) -> ReaderStatus {
    if (stop) after = true;
    got.push_back(m);
    stop = static_cast<int>(vp_choice(vp_name("react", static_cast<int>(got.size()) - 1), 3));
    if (stop == 1) return ReaderSignal::kBreak;
    if (stop == 2) return absl::InvalidArgumentError("consumer says no");
    return ReaderSignal::kContinue;
  });
  vp_check(!after, "nothing is delivered after the consumer stopped");
  vp_check(got.size() <= msgs.size(), "no more messages than the stream has");
  for (size_t i = 0; i < got.size() && i < msgs.size(); ++i) same_rec(got[i], msgs[i], "messages in stream order");
  vp_observe_b("ok", st.ok());
  if (stop == 1) { vp_check(st.ok(), "a consumer that stops is no error"); vp_cover("stopped"); }
  else if (stop == 2) {
    vp_check(st.code() == absl::StatusCode::kAborted, "a consumer's error aborts");
    vp_check(std::string(st.message()) == "consumer says no", "the consumer's message is reported");
    vp_cover("aborted");
  } else {
    if (end != kSoon) vp_check(got.size() == msgs.size(), "every message is delivered");
    if (end == kClean) { vp_check(st.ok(), "a clean end is a success"); vp_cover("clean"); }
    else if (end == kInside) vp_check(!st.ok(), "a stream that ends inside a message is an error");
    else vp_check(!st.ok(), "corrupt data is an error");
  }
}
// the collecting overload
VP_ENTRY(c46_collect) {
  const int n = static_cast<int>(vp_choice("n", N_MSG + 1));
  const std::vector<SideInputRecord> msgs = messages(n);
  const int end = static_cast<int>(vp_choice("end", 4));
  const bool file = vp_choice("file", 2) == 1;
  const std::string data = stream_of(msgs, end);
  std::vector<SideInputRecord> got;
  absl::Status st;
  if (file) st = ReadDelimitedMessagesFromFile<SideInputRecord>(vpf::put_file(data), got);
  else { std::istringstream is(data); st = ReadDelimitedMessagesFromIStream<SideInputRecord>(is, got); }
  vp_check(st.ok() == (end == kClean), "success exactly at a clean end");
  vp_check(got.size() <= msgs.size(), "no more messages than the stream has");
  if (end != kSoon) vp_check(got.size() == msgs.size(), "every message is delivered");
  for (size_t i = 0; i < got.size() && i < msgs.size(); ++i) same_rec(got[i], msgs[i], "messages in stream order");
}
// more messages, one of which the consumer stops at
VP_ENTRY(c46_long) {
  const int n = 6;
  std::vector<SideInputRecord> msgs(n);
  for (int i = 0; i < n; ++i) {
    if (i != 2) msgs[i].set_timestamp_sec(vp_i64(vp_name("ts", i), -TMAX, TMAX));
    for (int j = 0; j < (i * 5) % 4 + (i == 4 ? 40 : 0); ++j) msgs[i].add_signal(0.5f * j);
  }
  const int end = static_cast<int>(vp_choice("end", 4));
  const int at = static_cast<int>(vp_choice("stop_at", n + 1)), how = at < n ? static_cast<int>(vp_choice("how", 2)) : 0;
  std::istringstream is(stream_of(msgs, end));
  std::vector<SideInputRecord> got;
  const absl::Status st = ReadDelimitedMessagesFromIStream<SideInputRecord>(is, [&](const SideInputRecord& m) -> ReaderStatus {
    got.push_back(m);
    if (static_cast<int>(got.size()) <= at) return ReaderSignal::kContinue;
    if (how) return absl::InvalidArgumentError("consumer says no");
    return ReaderSignal::kBreak;
  });
  const size_t most = at < n ? at + 1 : n;
  vp_check(got.size() <= most, "nothing is delivered after the consumer stopped");
  if (end != kSoon) vp_check(got.size() == most, "every message is delivered");
  for (size_t i = 0; i < got.size() && i < msgs.size(); ++i) same_rec(got[i], msgs[i], "messages in stream order");
  if (got.size() == most) vp_check(st.ok() == (at < n ? how == 0 : end == kClean), "success exactly at a clean end or a consumer's stop");
  vp_cover(st.ok() ? "read" : "refused");
}
// a stream that was cut between two messages, before its end
VP_ENTRY(c46_cut) {
  const std::vector<SideInputRecord> msgs = messages(static_cast<int>(vp_choice("n", N_MSG + 1)));
  std::istringstream is(stream_of(msgs, kCut));
  std::vector<SideInputRecord> got;
  const absl::Status st = ReadDelimitedMessagesFromIStream<SideInputRecord>(is, got);
  for (size_t i = 0; i < got.size() && i < msgs.size(); ++i) same_rec(got[i], msgs[i], "messages in stream order");
  vp_check(!st.ok(), "a stream cut between two messages is an error");
}
VP_ENTRY(c46_write) {
  const int n = static_cast<int>(vp_choice("n", N_MSG + 1));
  const std::vector<SideInputRecord> msgs = messages(n);
  const int fail = static_cast<int>(vp_choice("fail", n + 1));   // n: none fails
  const bool compress = vp_choice("compress", 2) == 1;
  fails_at() = fail < n ? fail : -1;
  std::ostringstream os;
  const absl::Status st = WriteDelimitedMessagesToOStream(msgs.begin(), msgs.end(), os, compress);
  vp_check(st.ok() == (fail == n), "fails exactly if a message cannot be serialized");
  if (!st.ok()) { vp_cover("failed"); return; }
  std::istringstream is(os.str());
  std::vector<SideInputRecord> got;
  vp_check(ReadDelimitedMessagesFromIStream<SideInputRecord>(is, got).ok(), "what was written can be read");
  vp_check(got.size() == msgs.size(), "every message is written");
  for (size_t i = 0; i < got.size() && i < msgs.size(); ++i) same_rec(got[i], msgs[i], "messages in order");
}
VP_ENTRY(c46_open) {
  std::vector<SideInputRecord> got, none;
  const bool in = vp_choice("in", 2) == 1;
  if (in) vp_check(!ReadDelimitedMessagesFromFile<SideInputRecord>(vpf::no_file(), got).ok(), "a missing file is an error");
  else vp_check(!WriteDelimitedMessagesToFile(none.begin(), none.end(), vpf::bad_file(), true).ok(), "a file that cannot be written is an error");
}

// c49: files
static void fill(PriceRecord& r, const std::string& p) {
  if (vp_choice(p + "has_ts", 2)) r.set_timestamp_sec(vp_i64(p + "ts", -TMAX, TMAX));
  if (vp_choice(p + "has_price", 2)) r.set_price(vp_f32(p + "price", -VMAX, VMAX));
  if (vp_choice(p + "has_volume", 2)) r.set_volume(vp_f32(p + "volume", -VMAX, VMAX));
}
static void fill(OhlcTick& r, const std::string& p) {
  const bool all = vp_choice(p + "all", 2) == 1;
  if (vp_choice(p + "has_ts", 2)) r.set_timestamp_sec(vp_i64(p + "ts", -TMAX, TMAX));
  if (all) {
    r.set_open(vp_f32(p + "open", -VMAX, VMAX)); r.set_high(vp_f32(p + "high", -VMAX, VMAX));
    r.set_low(vp_f32(p + "low", -VMAX, VMAX)); r.set_close(vp_f32(p + "close", -VMAX, VMAX));
  }
  if (vp_choice(p + "has_volume", 2)) r.set_volume(vp_f32(p + "volume", -VMAX, VMAX));
}
static void same_rec(const PriceRecord& a, const PriceRecord& b, const char* l) {
  vp_check(a.has_timestamp_sec() == b.has_timestamp_sec() && a.has_price() == b.has_price() && a.has_volume() == b.has_volume(), l);
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.price(), b.price(), l);
  vp_same_f(a.volume(), b.volume(), l);
}
static void same_rec(const OhlcTick& a, const OhlcTick& b, const char* l) {
  vp_check(a.has_timestamp_sec() == b.has_timestamp_sec() && a.has_open() == b.has_open() && a.has_volume() == b.has_volume(), l);
  vp_check(a.timestamp_sec() == b.timestamp_sec(), l);
  vp_same_f(a.open(), b.open(), l);
  vp_same_f(a.high(), b.high(), l);
  vp_same_f(a.low(), b.low(), l);
  vp_same_f(a.close(), b.close(), l);
  vp_same_f(a.volume(), b.volume(), l);
}
static void fill(SideInputRecord& r, const std::string& p) { r = message(p[1] - '0'); }
template <class T> static void round_trip() {
  const int n = static_cast<int>(vp_choice("n", N_MSG + 1));
  std::vector<T> h(n);
  for (int i = 0; i < n; ++i) fill(h[i], vp_name("r", i) + "_");
  // the file may hold something already
  const std::string name = vp_choice("old", 2) ? vpf::put_file(stream_of(std::vector<T>(2), kClean)) : vpf::new_file();
  vp_check(WriteDelimitedMessagesToFile(h.begin(), h.end(), name, vp_choice("compress", 2) == 1).ok(), "written");
  std::vector<T> got;
  vp_check(ReadDelimitedMessagesFromFile<T>(name, got).ok(), "read");
  vp_check(got.size() == h.size(), "the same number of records");
  for (size_t i = 0; i < got.size() && i < h.size(); ++i) same_rec(got[i], h[i], "the same records in the same order");
}
VP_ENTRY(c49_price) { round_trip<PriceRecord>(); }
VP_ENTRY(c49_ohlc) { round_trip<OhlcTick>(); }
// longer histories, where the values repeat or vanish from record to record
template <class T> static void long_trip(void (*set)(T&, int)) {
  std::vector<T> h(10);
  for (int i = 0; i < 10; ++i) {
    if (i % 4 != 3) h[i].set_timestamp_sec(vp_i64(vp_name("ts", i), -TMAX, TMAX));
    set(h[i], i);
  }
  const std::string name = vp_choice("old", 2) ? vpf::put_file(stream_of(std::vector<T>(20), kClean)) : vpf::new_file();
  vp_check(WriteDelimitedMessagesToFile(h.begin(), h.end(), name, vp_choice("compress", 2) == 1).ok(), "written");
  std::vector<T> got;
  vp_check(ReadDelimitedMessagesFromFile<T>(name, got).ok(), "read");
  vp_check(got.size() == h.size(), "the same number of records");
  for (size_t i = 0; i < got.size() && i < h.size(); ++i) same_rec(got[i], h[i], "the same records in the same order");
}
VP_ENTRY(c49_long) {
  switch (vp_choice("kind", 3)) {
    case 0: long_trip<PriceRecord>([](PriceRecord& r, int i) { if (i % 3) r.set_price(7.5f); if (i % 5) r.set_volume(0.0f); }); break;
    case 1: long_trip<OhlcTick>([](OhlcTick& r, int i) { if (i % 3) { r.set_open(1); r.set_high(2.5f); r.set_low(0.5f); r.set_close(1); } if (i % 5) r.set_volume(0.0f); }); break;
    default: long_trip<SideInputRecord>([](SideInputRecord& r, int i) { for (int j = 0; j < (i * 7) % 5 + (i == 6 ? 50 : 0); ++j) r.add_signal(0.25f * j); }); break;
  }
}
VP_ENTRY(c49_side) { round_trip<SideInputRecord>(); }
