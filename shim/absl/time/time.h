#ifndef VP_ABSL_TIME
#define VP_ABSL_TIME
// Instants are whole UNIX seconds. Civil time uses absl's own header-only
// calendar arithmetic (cctz civil_time_detail.h); only the conversions between
// instants and civil seconds are modelled here.
#include <cstdint>
#include <limits>
#include <string>
#include "absl/strings/string_view.h"
#include "/usr/include/absl/time/internal/cctz/include/cctz/civil_time_detail.h"
#include "vp_tok.h"
namespace absl {
namespace civ = time_internal::cctz::detail;
using CivilSecond = civ::civil_time<civ::second_tag>;
using CivilMinute = civ::civil_time<civ::minute_tag>;
using CivilHour = civ::civil_time<civ::hour_tag>;
using CivilDay = civ::civil_time<civ::day_tag>;
using CivilMonth = civ::civil_time<civ::month_tag>;
using CivilYear = civ::civil_time<civ::year_tag>;
using civil_year_t = int64_t;
using civil_diff_t = int64_t;
constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez";
constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
constexpr char RFC1123_full[] = "%a, %d %b %E4Y %H:%M:%S %z";
constexpr char RFC1123_no_wday[] = "%d %b %E4Y %H:%M:%S %z";
class Duration {
 public:
  int64_t s = 0;
  Duration() {}
  explicit Duration(int64_t x) : s(x) {}
};
class TimeZone { public: int id = 0; };
class Time;
struct VpCivilEntry { int64_t s; CivilSecond cs; };
// Pairs (unix seconds, civil second) known to the harness.
extern VpCivilEntry vp_civil[8];
extern int vp_civil_n;
int64_t VpCivilToUnix(const CivilSecond& cs);
CivilSecond VpUnixToCivil(int64_t s);
class Time {
 public:
  int64_t s = 0;
  bool has_s = true;
  bool has_cs = false;   // civil time this instant was made from, if any
  CivilSecond cs;
  Time() {}
  int64_t sec() const { return has_s ? s : VpCivilToUnix(cs); }
  friend bool operator<(const Time& a, const Time& b) { return a.sec() < b.sec(); }
  friend bool operator<=(const Time& a, const Time& b) { return a.sec() <= b.sec(); }
  friend bool operator>(const Time& a, const Time& b) { return a.sec() > b.sec(); }
  friend bool operator>=(const Time& a, const Time& b) { return a.sec() >= b.sec(); }
  friend bool operator==(const Time& a, const Time& b) { return a.sec() == b.sec(); }
  friend bool operator!=(const Time& a, const Time& b) { return a.sec() != b.sec(); }
  friend Duration operator-(const Time& a, const Time& b) { return Duration(a.sec() - b.sec()); }
  friend Time operator+(const Time& a, Duration d) { Time t; t.s = a.sec() + d.s; return t; }
  friend Time operator-(const Time& a, Duration d) { Time t; t.s = a.sec() - d.s; return t; }
};
inline double ToDoubleSeconds(Duration d) { return static_cast<double>(d.s); }
inline int64_t ToInt64Seconds(Duration d) { return d.s; }
inline Duration Seconds(int64_t n) { return Duration(n); }
inline Duration Minutes(int64_t n) { return Duration(60 * n); }
inline Duration Hours(int64_t n) { return Duration(3600 * n); }
inline TimeZone UTCTimeZone() { return TimeZone(); }
inline Time Now() { return Time(); }
inline Time UnixEpoch() { return Time(); }
inline Time FromUnixSeconds(int64_t s) {
  Time t;
  t.s = s;
  return t;
}
inline int64_t ToUnixSeconds(const Time& t) { return t.sec(); }
inline Time FromTimeT(int64_t s) { return FromUnixSeconds(s); }
inline CivilSecond ToCivilSecond(const Time& t, TimeZone) {
  return t.has_cs ? t.cs : VpUnixToCivil(t.s);
}
inline CivilDay ToCivilDay(const Time& t, TimeZone tz) { return CivilDay(ToCivilSecond(t, tz)); }
inline CivilMonth ToCivilMonth(const Time& t, TimeZone tz) { return CivilMonth(ToCivilSecond(t, tz)); }
inline Time FromCivil(CivilSecond cs, TimeZone) {
  Time t;
  t.has_s = false;
  t.has_cs = true;
  t.cs = cs;
  return t;
}
// Parsing and printing of date-times is a library stub: the outcome for each
// format string is chosen by the harness.
bool ParseTime(absl::string_view format, absl::string_view input, Time* time, std::string* err);
bool ParseTime(absl::string_view format, absl::string_view input, TimeZone tz, Time* time, std::string* err);
std::string FormatTime(absl::string_view format, const Time& t, TimeZone tz);
inline std::string FormatTime(const Time& t, TimeZone tz) { return FormatTime(RFC3339_full, t, tz); }
inline std::string FormatTime(const Time& t) { return FormatTime(RFC3339_full, t, UTCTimeZone()); }
inline std::string FormatDuration(Duration d) { std::string s; vptok::put_int(s, "dur", d.s); return s; }
}  // namespace absl
#endif
