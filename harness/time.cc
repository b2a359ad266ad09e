#include <string>
#include "absl/time/time.h"
#include "absl/time/civil_time.h"
#include "util/time.h"
#include "files.h"
#include "vp.h"
using namespace trader;

struct Civil { int64_t y; int mo, d, h, mi, s; };
static absl::CivilSecond cs_of(const Civil& c) { return absl::CivilSecond(c.y, c.mo, c.d, c.h, c.mi, c.s); }
static int64_t unix_of(const Civil& c) { return absl::ToUnixSeconds(absl::FromCivil(cs_of(c), absl::UTCTimeZone())); }
static Civil in_civil(const char* p, int dlo, int dhi) {
  Civil c;
  c.y = dhi > 28 ? 0 : vp_i64(std::string(p) + "year", 1970, 2100);
  c.mo = static_cast<int>(vp_concrete(vp_i64(std::string(p) + "month", 1, 12)));
  c.d = static_cast<int>(vp_i64(std::string(p) + "day", dlo, dhi));
  c.h = static_cast<int>(vp_i64(std::string(p) + "hour", 0, 23));
  c.mi = static_cast<int>(vp_i64(std::string(p) + "minute", 0, 59));
  c.s = static_cast<int>(vp_i64(std::string(p) + "second", 0, 59));
  return c;
}
// n = 12 * years + months, the months one path each
static int in_months(const char* p, int ymax) {
  const int q = static_cast<int>(vp_i64(std::string(p) + "years", -ymax, ymax - 1));
  const int r = static_cast<int>(vp_choice(std::string(p) + "months", 12));
  return 12 * q + r;
}
static Civil moved(const Civil& c, int64_t q, int r) {
  Civil w = c;
  w.mo = c.mo + r;
  w.y = c.y + q;
  if (w.mo > 12) { w.mo -= 12; w.y += 1; }
  return w;
}
static int days_in(int64_t y, int mo) {
  static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return mo == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : days[mo - 1];
}
static void check_civil(const absl::Time& t, const Civil& w, const char* label) {
  const absl::CivilSecond g = absl::ToCivilSecond(t, absl::UTCTimeZone());
  vp_check(vp_and(vp_and(vp_and(g.year() == w.y, g.month() == w.mo), vp_and(g.day() == w.d, g.hour() == w.h)),
                  vp_and(g.minute() == w.mi, g.second() == w.s)), label);
}
static absl::Time time_of(const Civil& c) { return absl::FromCivil(cs_of(c), absl::UTCTimeZone()); }
// c47: the calendar month moves by exactly n, the day and the time of day stay
VP_ENTRY(c47_month) {
  const Civil c = in_civil("t_", 1, 28);
  const int64_t q = vp_i64("n_years", -50, 49);
  const int r = static_cast<int>(vp_choice("n_months", 12));
  const absl::Time t = AddMonthsToTime(time_of(c), static_cast<int>(12 * q + r));
  check_civil(t, moved(c, q, r), "the month moves by n, day and time of day stay");
}
// adding in two steps is adding the sum; subtracting undoes it
VP_ENTRY(c47_steps) {
  const Civil c = in_civil("t_", 1, 28);
  const int64_t qa = vp_i64("a_years", -25, 24), qb = vp_i64("b_years", -25, 24);
  const int ra = static_cast<int>(vp_choice("a_months", 12));
  const int rb = static_cast<int>(vp_choice("b_months", 12));
  const absl::Time one = AddMonthsToTime(time_of(c), static_cast<int>(12 * qa + ra));
  const absl::Time two = AddMonthsToTime(one, static_cast<int>(12 * qb + rb));
  Civil w = moved(moved(c, qa, ra), qb, rb);
  check_civil(two, w, "two steps add up");
  check_civil(AddMonthsToTime(one, static_cast<int>(-12 * qa - ra)), c, "subtracting undoes adding");
}
// a day that the target month lacks carries over into the following month
VP_ENTRY(c47_carry) {
  static const int kYears[] = {2019, 2020, 2000, 2100};     // common, leap, leap century, common century
  Civil c = in_civil("t_", 29, 31);
  c.d = static_cast<int>(vp_concrete(c.d));
  c.y = kYears[vp_choice("year_kind", 4)];
  vp_assume(c.d <= days_in(c.y, c.mo));
  static const int kMoves[] = {-1, 0, 1, -49, -2, 2, 4, 49};
  const int64_t q = kMoves[vp_choice("n_years", 8)];
  const int r = static_cast<int>(vp_choice("n_months", 12));
  Civil w = moved(c, q, r);
  if (w.d > days_in(w.y, w.mo)) { w.d -= days_in(w.y, w.mo); w.mo += 1; vp_cover("carried"); }   // never December
  check_civil(AddMonthsToTime(time_of(c), static_cast<int>(12 * q + r)), w, "days carry over into the following month");
}
// the form on UNIX seconds is the same function
VP_ENTRY(c47_seconds) {
  Civil c = in_civil("t_", 1, 28);
  const int64_t q = vp_i64("n_years", -50, 49);
  const int r = static_cast<int>(vp_choice("n_months", 12));
  const int n = static_cast<int>(12 * q + r);
  const int64_t s = unix_of(c);
  const int64_t got = AddMonthsToTimestampSec(s, n);
  vp_check(got == unix_of(moved(c, q, r)), "the form on UNIX seconds moves the month, too");
}

// ---------------------------------------------------------------- C48
static std::string date_text(const Civil& c) {
  std::string t;
  vpf::put_digits(t, c.y, 4); t += "-"; vpf::put_digits(t, c.mo, 2); t += "-"; vpf::put_digits(t, c.d, 2);
  return t;
}
static std::string clock_text(const Civil& c) {
  std::string t;
  vpf::put_digits(t, c.h, 2); t += ":"; vpf::put_digits(t, c.mi, 2); t += ":"; vpf::put_digits(t, c.s, 2);
  return t;
}
static Civil in_date(bool late) {
  Civil c;
  if (late) {
    static const int kYears[] = {2019, 2020, 2000, 2100};
    c.y = kYears[vp_choice("year_kind", 4)];
    c.mo = static_cast<int>(vp_choice("month0", 12)) + 1;
    c.d = 29 + static_cast<int>(vp_choice("day29", 3));
  } else {
    c.y = vp_i64("year", 1000, 9999);
    c.mo = static_cast<int>(vp_i64("month", 1, 12));
    c.d = static_cast<int>(vp_i64("day", 1, 28));
  }
  c.h = static_cast<int>(vp_i64("hour", 0, 23));
  c.mi = static_cast<int>(vp_i64("minute", 0, 59));
  c.s = static_cast<int>(vp_i64("second", 0, 59));
  return c;
}
// every documented form is read as the instant it says (UTC unless it has an offset)
static void forms(bool late) {
  Civil c = in_date(late);
  const int form = static_cast<int>(vp_choice("form", 5));
  std::string t = date_text(c);
  if (form < 2) { c.h = 0; c.mi = 0; c.s = 0; }
  if (form == 2 || form == 3) t += " " + clock_text(c);
  if (form == 4) t += "T" + clock_text(c);
  int64_t off = 0;
  if (form == 1 || form == 3 || form == 4) {
    const int64_t oh = vp_i64("offset_hours", 0, 23), om = vp_i64("offset_minutes", 0, 59);
    const int sign = static_cast<int>(vp_choice("offset", 3));
    if (form != 4) t += " ";
    if (sign == 2) t += "Z";
    else {
      t += sign ? "-" : "+";
      vpf::put_digits(t, oh, 2); t += ":"; vpf::put_digits(t, om, 2);
      off = (oh * 60 + om) * 60;
      if (sign) off = -off;
    }
  }
  if (!late) t = std::string(vp_choice("blanks_before", 2), ' ') + t + std::string(vp_choice("blanks_after", 2), ' ');
  const absl::StatusOr<absl::Time> got = ParseTime(t);
  const bool real = !late || c.d <= days_in(c.y, c.mo);
  vp_check(got.ok() == real, "a documented form of an existing day is read, of another day refused");
  if (real && got.ok()) {
    vp_check(absl::ToUnixSeconds(got.value()) == unix_of(c) - off, "read as the instant it says");
    vp_cover("read");
  } else if (!got.ok()) {
    vp_check(got.status().code() == absl::StatusCode::kInvalidArgument, "refused as an invalid argument");
    vp_cover("refused");
  }
}
VP_ENTRY(c48_forms) { forms(false); }
VP_ENTRY(c48_days) { forms(true); }
// anything else is refused
VP_ENTRY(c48_refuse) {
  Civil c = in_date(false);
  std::string t;
  switch (vp_choice("kind", 16)) {
    case 0: c.mo = static_cast<int>(vp_i64("bad", 13, 99)); t = date_text(c); break;
    case 1: c.mo = 0; t = date_text(c); break;
    case 2: c.d = static_cast<int>(vp_i64("bad", 32, 99)); t = date_text(c); break;
    case 3: c.d = 0; t = date_text(c); break;
    case 4: c.h = static_cast<int>(vp_i64("bad", 24, 99)); t = date_text(c) + " " + clock_text(c); break;
    case 5: c.mi = static_cast<int>(vp_i64("bad", 60, 99)); t = date_text(c) + " " + clock_text(c); break;
    case 6: c.s = static_cast<int>(vp_i64("bad", 61, 99)); t = date_text(c) + " " + clock_text(c); break;
    case 7: t = date_text(c) + "T" + clock_text(c); break;                       // no offset
    case 8: vpf::put_digits(t, c.y, 4); t += "-"; vpf::put_digits(t, c.mo, 2); break;   // no day
    case 9: t = date_text(c) + " "; vpf::put_digits(t, c.h, 2); t += ":"; vpf::put_digits(t, c.mi, 2); break;   // no seconds
    case 10: t = date_text(c) + "x"; break;
    case 11: t = date_text(c) + " " + clock_text(c) + " x"; break;
    case 12: t = ""; break;
    case 13: t = "Hello"; break;
    case 14: vpf::put_digits(t, c.y, 4); t += "/"; vpf::put_digits(t, c.mo, 2); t += "/"; vpf::put_digits(t, c.d, 2); break;
    default: t = clock_text(c); break;
  }
  const absl::StatusOr<absl::Time> got = ParseTime(t);
  vp_check(!got.ok(), "refused");
  if (!got.ok()) {
    vp_check(got.status().code() == absl::StatusCode::kInvalidArgument, "refused as an invalid argument");
    vp_check(std::string(got.status().message()).find(t) != std::string::npos, "the error names the text");
  }
}
// printed in UTC as YYYY-MM-DD HH:MM:SS, which reads back as the same instant
VP_ENTRY(c48_print) {
  const Civil c = in_date(false);
  const int64_t s = unix_of(c);
  const std::string t = FormatTimeUTC(absl::FromUnixSeconds(s));
  std::string w;
#ifdef VP_SYMBOLIC
  vpf::put_int(w, c.y);
#else
  vpf::put_pad(w, c.y, 4);
#endif
  w += "-"; vpf::put_pad(w, c.mo, 2); w += "-"; vpf::put_pad(w, c.d, 2);
  w += " "; vpf::put_pad(w, c.h, 2); w += ":"; vpf::put_pad(w, c.mi, 2); w += ":"; vpf::put_pad(w, c.s, 2);
  vp_same_text(t, w, "printed as YYYY-MM-DD HH:MM:SS in UTC");
  const absl::StatusOr<absl::Time> back = ParseTime(t);
  vp_check(back.ok(), "reads back");
  if (back.ok()) vp_check(absl::ToUnixSeconds(back.value()) == s, "reads back as the same instant");
}
