// Definitions behind the shim headers and the few out-of-line library routines
// the repository's code reaches.
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <iostream>
#include "absl/time/time.h"
#include "google/protobuf/util/delimited_message_util.h"
#include "vp.h"

namespace google { namespace protobuf { namespace util {
int vp_serialize_fails_at = -1;
int vp_serialize_count = 0;
} } }

namespace std {
ostream cout, cerr, clog;
istream cin;

_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
// A plain (unbalanced) search tree: iteration order is all that is observable.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto put = [&](_Rb_tree_node_base* at, _Rb_tree_node_base* by) {
    if (h._M_parent == at) h._M_parent = by;
    else if (at->_M_parent->_M_left == at) at->_M_parent->_M_left = by;
    else at->_M_parent->_M_right = by;
    if (by) by->_M_parent = at->_M_parent;
  };
  _Rb_tree_node_base* nl = h._M_left == z ? _Rb_tree_increment(z) : h._M_left;
  _Rb_tree_node_base* nr = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right;
  if (!z->_M_left) put(z, z->_M_right);
  else if (!z->_M_right) put(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    put(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  h._M_left = nl; h._M_right = nr;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
}  // namespace std

namespace vpio {
static std::vector<File*>& files() { static std::vector<File*>* v = new std::vector<File*>(); return *v; }
File* find(const std::string& name) { for (File* f : files()) if (f->name == name) return f; return nullptr; }
File* create(const std::string& name) { File* f = new File(); f->name = name; files().push_back(f); return f; }
}

namespace absl {
std::string* vp_stdout = nullptr;
VpCivilEntry vp_civil[8];
int vp_civil_n = 0;
static bool same_cs(const CivilSecond& a, const CivilSecond& b) {
  return vp_and(vp_and(vp_and(a.year() == b.year(), a.month() == b.month()), vp_and(a.day() == b.day(), a.hour() == b.hour())),
                vp_and(a.minute() == b.minute(), a.second() == b.second()));
}
// The instant of a civil second is an arbitrary number, the same for equal civil
// seconds and ordered like them.
static bool known(const CivilSecond& c) {
  return vp_known_i(c.year()) && vp_known_i(c.month()) && vp_known_i(c.day()) && vp_known_i(c.hour()) && vp_known_i(c.minute()) && vp_known_i(c.second());
}
int64_t VpCivilToUnix(const CivilSecond& cs) {
  if (vp_civil_n == 0 && known(cs)) return cs - CivilSecond();
  for (int i = 0; i < vp_civil_n; ++i) if (same_cs(vp_civil[i].cs, cs)) return vp_civil[i].s;
  if (vp_civil_n >= 8) vp_unsupported("too many civil times");
  const int64_t s = vp_i64(vp_name("unix", vp_civil_n), -(int64_t(1) << 40), int64_t(1) << 40);
  for (int i = 0; i < vp_civil_n; ++i)
    if (vp_civil[i].cs < cs) vp_assume(vp_civil[i].s < s);
    else vp_assume(s < vp_civil[i].s);
  vp_civil[vp_civil_n].s = s;
  vp_civil[vp_civil_n].cs = cs;
  ++vp_civil_n;
  return s;
}
CivilSecond VpUnixToCivil(int64_t s) {
  if (vp_civil_n == 0 && vp_known_i(s)) return CivilSecond() + s;
  for (int i = 0; i < vp_civil_n; ++i) if (vp_civil[i].s == s) return vp_civil[i].cs;
  vp_unsupported("civil time of an unknown instant");
  return CivilSecond();
}
namespace {
// strptime and strftime over text whose numbers may be value tokens, after
// cctz's time_zone_format.cc: the directives a date format is made of.
struct Src {
  absl::string_view in;
  size_t i = 0;
  bool end() const { return i >= in.size(); }
  static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
  void skip() { while (!end() && space(in[i])) ++i; }
  // a run of at most `width` digits (0: any number) or one value token
  bool num(int width, int64_t lo, int64_t hi, int64_t* out) {
    if (end()) return false;
    int64_t v = 0;
    if (in[i] == '\x01') {
      if (i + 4 > in.size() || in[i + 1] != 'i') return false;
      v = vp_tok_i(vptok::idx(in.data() + i));
      i += 4;
      if (width > 0 && (v < 0 || v > 99)) vp_unsupported("a date field of more than two digits");
    } else if (in[i] == '\x02') {
      if (i + 2 > in.size()) return false;
      v = vptok::get_short(in.data() + i);
      i += 2;
    } else {
      bool neg = false;
      if (width == 0 && in[i] == '-') { neg = true; ++i; }
      int n = 0;
      while (!end() && in[i] >= '0' && in[i] <= '9' && (width == 0 || n < width) && n < 9) { v = 10 * v + (in[i] - '0'); ++i; ++n; }
      if (n == 0) return false;
      if (neg) v = -v;
    }
    if (v < lo || v > hi) return false;
    *out = v;
    return true;
  }
  bool offset(char sep, int64_t* out) {
    if (end()) return false;
    const char c = in[i++];
    if (c == 'Z' || c == 'z') { *out = 0; return true; }
    if (c != '+' && c != '-') return false;
    int64_t h = 0, m = 0;
    if (!num(2, 0, 23, &h)) return false;
    const size_t back = i;
    if (sep && !end() && in[i] == sep) ++i;
    if (!num(2, 0, 59, &m)) { i = back; m = 0; }
    *out = (60 * h + m) * 60;
    if (c == '-') *out = -*out;
    return true;
  }
};
}
bool ParseTime(absl::string_view format, absl::string_view input, TimeZone tz, Time* time, std::string* err) {
  (void)tz;
  Src s;
  s.in = input;
  s.skip();
  int64_t y = 1970, mo = 1, d = 1, h = 0, mi = 0, sec = 0, off = 0;
  bool has_off = false, ok = true;
  size_t f = 0;
  while (ok && f < format.size()) {
    const char c = format[f];
    if (Src::space(c)) { s.skip(); ++f; continue; }
    if (c != '%') {
      ok = !s.end() && s.in[s.i] == c;
      if (ok) ++s.i;
      ++f;
      continue;
    }
    ++f;
    const char k = f < format.size() ? format[f] : '\0';
    ++f;
    if (k == 'Y') ok = s.num(0, -9999999, 9999999, &y);
    else if (k == 'm') ok = s.num(2, 1, 12, &mo);
    else if (k == 'd' || k == 'e') ok = s.num(2, 1, 31, &d);
    else if (k == 'H') ok = s.num(2, 0, 23, &h);
    else if (k == 'M') ok = s.num(2, 0, 59, &mi);
    else if (k == 'S') ok = s.num(2, 0, 60, &sec);
    else if (k == 'F') vp_unsupported("date format directive");
    else if (k == 'T') {
      ok = s.num(2, 0, 23, &h) && !s.end() && s.in[s.i++] == ':' && s.num(2, 0, 59, &mi) && !s.end() && s.in[s.i++] == ':' && s.num(2, 0, 60, &sec);
    } else if (k == 'z') { ok = s.offset('\0', &off); has_off = true; }
    else if (k == '%') { ok = !s.end() && s.in[s.i] == '%'; ++s.i; }
    else if (k == ':' && f < format.size() && format[f] == 'z') { ++f; ok = s.offset(':', &off); has_off = true; }
    else if (k == 'E' && f < format.size() && format[f] == 'z') { ++f; ok = s.offset(':', &off); has_off = true; }
    else if (k == 'E' && f < format.size() && format[f] == 'T') { ++f; ok = !s.end() && (s.in[s.i] == 'T' || s.in[s.i] == 't'); ++s.i; }
    else if (k == 'E' && f + 1 < format.size() && format[f] == '4' && format[f + 1] == 'Y') { f += 2; ok = s.num(0, -999, 9999, &y); }
    else if (k == 'E' && f + 1 < format.size() && format[f] == '*' && format[f + 1] == 'z') { f += 2; ok = s.offset(':', &off); has_off = true; }
    else if (k == 'E' && f + 1 < format.size() && format[f] == '*' && format[f + 1] == 'S') {
      f += 2;
      ok = s.num(2, 0, 60, &sec);
      if (ok && !s.end() && s.in[s.i] == '.') vp_unsupported("fractions of a second");
    } else vp_unsupported("date format directive");
  }
  if (ok) { s.skip(); ok = s.end(); }
  if (ok) {
    const CivilDay day(y, static_cast<int>(mo), static_cast<int>(d));
    ok = day.month() == mo && day.day() == d;
  }
  if (!ok) {
    if (err) *err = "Failed to parse input";
    return false;
  }
  const Time t = FromCivil(CivilSecond(y, static_cast<int>(mo), static_cast<int>(d), static_cast<int>(h), static_cast<int>(mi), static_cast<int>(sec)), UTCTimeZone());
  *time = has_off ? FromUnixSeconds(ToUnixSeconds(t) - off) : t;
  return true;
}
bool ParseTime(absl::string_view format, absl::string_view input, Time* time, std::string* err) {
  return ParseTime(format, input, UTCTimeZone(), time, err);
}
std::string FormatTime(absl::string_view format, const Time& t, TimeZone tz) {
  std::string out;
  if (!t.has_cs && !vp_known_i(t.s) && vp_civil_n == 0) {     // no calendar known: opaque text
    out.assign(format.data(), format.size());
    vptok::put_int(out, "time", t.sec());
    return out;
  }
  const CivilSecond cs = ToCivilSecond(t, tz);
  for (size_t f = 0; f < format.size(); ++f) {
    if (format[f] != '%' || f + 1 >= format.size()) { out.push_back(format[f]); continue; }
    const char k = format[++f];
    if (k == 'Y') vptok::put_int(out, "d", cs.year());
    else if (k == 'm') vptok::put_int(out, "02d", cs.month());
    else if (k == 'd') vptok::put_int(out, "02d", cs.day());
    else if (k == 'H') vptok::put_int(out, "02d", cs.hour());
    else if (k == 'M') vptok::put_int(out, "02d", cs.minute());
    else if (k == 'S') vptok::put_int(out, "02d", cs.second());
    else if (k == '%') out.push_back('%');
    else if (k == 'E' && format[f + 1] == 'z') { out += "+00:00"; ++f; }
    else if (k == 'E' && format[f + 1] == 'T') { out += "T"; ++f; }
    else if (k == 'E' && format[f + 1] == '4') { vptok::put_int(out, "04d", cs.year()); f += 2; }
    else if (k == 'E' && format[f + 1] == '*' && format[f + 2] == 'S') { vptok::put_int(out, "02d", cs.second()); f += 2; }
    else if (k == 'z') out += "+0000";
    else vp_unsupported("date format directive");
  }
  return out;
}
}  // namespace absl
