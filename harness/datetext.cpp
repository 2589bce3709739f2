// C30, C31: dates, times and datetimes as text.
//! flags=-fno-inline-functions
#include "vf.h"
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include "datetime/date.h"
#include <chrono>
#include <stdexcept>
using namespace std::chrono;
using tdate = tc::sdk::date; using tc::sdk::datetime; using tc::sdk::timedelta; using tod = tc::sdk::time;

namespace {
constexpr int64_t DAY = 86400LL * 1000000000LL;
int64_t num(const std::string& s, size_t b, size_t n) { int64_t v = 0; for (size_t i = b; i < b + n; i++) { CHECK(vf::is_digit(s[i]), "a decimal digit"); v = v * 10 + (s[i] - '0'); } return v; }
constexpr bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int64_t month_len(int64_t y, int64_t m) { return m == 2 ? 28 + leap(y) : 30 + ((m + (m > 7)) & 1); }
constexpr int64_t P10[10] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
// intermediate facts, proven and then used by the engine: the civil date of a day number, the number spelt by digits
void facts(int64_t y, int64_t m, int64_t d) {
  const sys_days n{year_month_day(year((int)y), month((unsigned)m), day((unsigned)d))};              // what is formatted
  const ::date::year_month_day z{::date::sys_days(n)}; __tc_lemma((int)z.year(), y); __tc_lemma((unsigned)z.month(), m); __tc_lemma((unsigned)z.day(), d);
  const year_month_day q{sys_days(::date::sys_days(::date::year_month_day(::date::year((int)y), ::date::month((unsigned)m), ::date::day((unsigned)d))))}; __tc_lemma((int)q.year(), y); __tc_lemma((unsigned)q.month(), m); __tc_lemma((unsigned)q.day(), d);   // what is read
}
void same_number(const std::string& s, size_t b, size_t n, int64_t v) { unsigned x = 0; for (size_t i = b; i < b + n; i++) x = 10 * x + static_cast<unsigned>(s[i] - '0'); __tc_lemma(x, v); }
}

// ------------------------------------------------------------------ C30
//@ C30 H_date_text split=101:0..7 tsplit=101:8..107 t=150 tt=600 | every valid date of eight windows of 4 to 8 years of the years 0..9999 (the ends of the range, centuries, 1970, 2000, the end of the nanosecond clock); thorough: every year
ENTRY(H_date_text) {
  static const int W[8] = {0, 1582, 1896, 1967, 1998, 2098, 2260, 9996}; const int p = vf::param(0), lo = p < 8 ? W[p] : 100 * (p - 8); const int64_t y = vf::range(lo, lo + (p < 5 ? 7 : p < 8 ? 3 : 99), "y"), m = 1 + vf::choose(12, "m"), d = vf::range(1, 31, "d"); ASSUME(d <= month_len(y, m));
  const tdate v(year((int)y), month((unsigned)m), day((unsigned)d));
  facts(y, m, d);
  const std::string s = v.to_string();
  CHECK(s.size() == 10 && s[4] == '-' && s[7] == '-', "YYYY-MM-DD"); CHECK(num(s, 0, 4) == y && num(s, 5, 2) == m && num(s, 8, 2) == d, "the fields of the date");
  same_number(s, 0, 4, y); same_number(s, 5, 2, m); same_number(s, 8, 2, d);
  CHECK(tdate::from_string(s) == v, "reading the text gives the date back"); COVER("done");
}
namespace {
// the time of day that is printed: a = ((h * 60 + m) * 60 + s) * 10^9 + f
struct tm_ { int64_t h, m, s, f, u, a; };
tm_ a_time(int digits, bool dt = false) {
  static const int64_t T[3][3] = {{0, 0, 0}, {12, 34, 56}, {23, 59, 59}}; const bool all = (digits == 0 && !dt) || vf::thorough(); const int64_t* w = T[all ? 0 : vf::choose(3, "t")]; tm_ t;
  t.h = all ? vf::range(0, 23, "h") : w[0]; t.m = all ? vf::range(0, 59, "m") : w[1]; t.s = all || digits == 0 ? vf::range(0, 59, "s") : w[2]; t.u = P10[9 - digits];
  t.f = digits == 0 && !all ? vf::choose(2, "f") * 999999999 : all ? vf::range(0, 999999999, "ns") : (vf::choose(2, "base") * (P10[digits] - 100) + vf::range(0, 99, "f")) * t.u + (vf::choose(2, "r") ? t.u - 1 : 0);
  t.a = ((t.h * 60 + t.m) * 60 + t.s) * P10[9] + t.f; return t;
}
// HH:MM:SS[.fff] at position b
void check_time(const std::string& s, size_t b, const tm_& t, int digits) {
  const int64_t pf = t.f / t.u;
  CHECK(s.size() == b + 8u + (digits ? 1 + digits : 0), "HH:MM:SS and the fraction"); CHECK(s[b + 2] == ':' && s[b + 5] == ':', "separators"); if (digits) CHECK(s[b + 8] == '.', "decimal point");
  CHECK(num(s, b, 2) == t.h && num(s, b + 3, 2) == t.m && num(s, b + 6, 2) == t.s, "the fields of the time"); if (digits) CHECK(num(s, b + 9, digits) == pf, "the fraction, truncated to the printed precision");
  same_number(s, b, 2, t.h); same_number(s, b + 3, 2, t.m); same_number(s, b + 6, 2, t.s); if (digits) same_number(s, b + 9, digits, pf);
}
template <class D> void time_text(int digits) {
  const tm_ t = a_time(digits); const tod v{nanoseconds(t.a)}; const std::string s = v.to_string<D>(); check_time(s, 0, t, digits);
  CHECK(tod::from_string<D>(s).to_duration().count() == t.a - t.f % t.u, "reading the text gives the time back, truncated to the printed precision"); COVER("done");
}
template <class D> void datetime_text(int digits) {
  static const struct { int64_t day; const char* s; } DAYS[3] = {{-1, "1969-12-31T"}, {11016, "2000-02-29T"}, {47540, "2100-02-28T"}};
  const auto& dd = DAYS[vf::param(1)]; const tm_ t = a_time(digits, true); const datetime v{system_clock::time_point(nanoseconds(dd.day * DAY + t.a))};
  const std::string s = v.to_string<D>(); CHECK(s.size() > 11 && s.compare(0, 11, dd.s) == 0, "the date"); check_time(s, 11, t, digits);
  CHECK((datetime::from_string<D>(s) == datetime{system_clock::time_point(nanoseconds(dd.day * DAY + t.a - t.f % t.u))}), "reading the text gives the datetime back, truncated to the printed precision"); COVER("done");
}
}
//@ C30 H_time_text split=101:0..3 t=150 tt=800 | every time of day with seconds precision; with sub-second precision the first and last 100 printable fractions of a second (plus 0 or the largest hidden remainder) at 00:00:00, 12:34:56 and 23:59:59 (thorough: every time of day)
ENTRY(H_time_text) {
  switch (vf::param(0)) { case 0: time_text<seconds>(0); break; case 1: time_text<milliseconds>(3); break; case 2: time_text<microseconds>(6); break; default: time_text<nanoseconds>(9); }
}
//@ C30 H_datetime_text split=101:0..3;102:0..2 t=240 tt=800 | the days 1969-12-31, 2000-02-29 and 2100-02-28 with the times of H_time_text
ENTRY(H_datetime_text) {
  switch (vf::param(0)) { case 0: datetime_text<seconds>(0); break; case 1: datetime_text<milliseconds>(3); break; case 2: datetime_text<microseconds>(6); break; default: datetime_text<nanoseconds>(9); }
}

// ------------------------------------------------------------------ C31
namespace {
// a reader of the documented layouts: digits of a field, at least one and at most n
struct reader {
  const std::string& s; size_t i = 0; bool ok = true;
  int64_t field(int n) { int64_t v = 0; int k = 0; while (ok && k < n && i < s.size() && vf::is_digit(s[i])) { v = v * 10 + (s[i] - '0'); i++; k++; } if (!k) ok = false; return v; }
  int64_t year() { int n = 4; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; n--; } const int64_t v = field(n); return neg ? -v : v; }
  void sep(char c) { if (ok && i < s.size() && s[i] == c) i++; else ok = false; }
};
// the text with two neighbouring bytes replaced by arbitrary ones, or cut off there
std::string damaged(std::string s) {
  const size_t p = (size_t)vf::param(0); if (vf::choose(2, "cut")) { s.resize(p); return s; }
  if (s.size() < p + 2 && p + 2 - s.size() > 1) s.resize(p + 1); s[p] = vf::any<char>("c0"); if (p + 1 < s.size()) s[p + 1] = vf::any<char>("c1");
  if (vf::thorough() && p + 2 < s.size()) s[p + 2] = vf::any<char>("c2"); return s;
}
// HH:MM:SS[.fff] in units of the last printed digit: the exact value is num / den
struct clock_text { int64_t h, m, num, den; bool ok; };
clock_text read_clock(reader& r, int digits) {
  clock_text c{}; c.h = r.field(2); r.sep(':'); c.m = r.field(2); r.sep(':');
  int64_t i = 0, f = 0; int k = 0, fc = 0; bool point = false; const int w = digits ? 3 + digits : 2;
  while (r.ok && k < w && r.i < r.s.size()) { const char x = r.s[r.i]; if (x == '.' && !point) point = true; else if (!vf::is_digit(x)) break; else if (point) { f = f * 10 + (x - '0'); fc++; } else i = i * 10 + (x - '0'); r.i++; k++; }
  if (!k) r.ok = false; c.den = P10[fc]; c.num = (i * P10[fc] + f) * P10[digits]; c.ok = r.ok; return c;
}
// v units are the value of the text, rounded
bool denotes(int64_t v, const clock_text& c, int digits) { const int64_t rest = v - (c.h * 60 + c.m) * 60 * P10[digits], e = rest * c.den - c.num; return 2 * (e < 0 ? -e : e) <= c.den; }
template <class D> void time_reject(const char* base, int digits) {
  const std::string s = damaged(base); reader r{s}; const clock_text c = read_clock(r, digits);
  try { const tod v = tod::from_string<D>(s); CHECK(c.ok, "only a text that denotes a time is accepted"); const int64_t day = 86400 * P10[digits]; const int64_t n = v.to_duration().count() / P10[9 - digits];
    CHECK(n >= 0 && n < day, "a time of day"); const int64_t q = day * c.den, e = ((((c.h * 60 + c.m) * 60 * P10[digits] - n) * c.den + c.num) % q + q) % q; CHECK(2 * e <= c.den || 2 * (q - e) <= c.den, "the time the text denotes, modulo a day"); COVER("accepted"); }
  catch (const std::runtime_error&) { CHECK(!c.ok, "a text that denotes a time is accepted"); COVER("rejected"); }
}
template <class D> void datetime_reject(const char* base, int digits) {
  const std::string s = damaged(base); reader r{s}; const int64_t y = r.year(); r.sep('-'); const int64_t m = r.field(2); r.sep('-'); const int64_t d = r.field(2); r.sep('T');
  const clock_text c = read_clock(r, digits); const bool good = c.ok && m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m) && c.h < 24 && c.m < 60 && c.num < 60 * P10[digits] * c.den;
  ASSUME(!good || (y >= 1678 && y <= 2261));
  try { const datetime v = datetime::from_string<D>(s); CHECK(good, "only a text that denotes a datetime is accepted");
    const int64_t n = v.to_time_point().time_since_epoch().count() / P10[9 - digits]; const int64_t day = sys_days(year_month_day(year((int)y), month((unsigned)m), std::chrono::day((unsigned)d))).time_since_epoch().count();
    CHECK(denotes(n - day * 86400 * P10[digits], c, digits), "the datetime the text denotes"); COVER("accepted"); }
  catch (const std::runtime_error&) { CHECK(!good, "a text that denotes a datetime is accepted"); COVER("rejected"); }
}
}
//@ C31 H_time_reject split=101:0..8 t=100 | seconds: 12:34:56 with two (thorough: three) neighbouring bytes arbitrary, one byte appended, or cut off at any place
ENTRY(H_time_reject) { time_reject<seconds>("12:34:56", 0); }
//@ C31 H_time_ms_reject split=101:0..12 t=100 | milliseconds: 23:59:58.765 with two (thorough: three) neighbouring bytes arbitrary, one byte appended, or cut off at any place
ENTRY(H_time_ms_reject) { time_reject<milliseconds>("23:59:58.765", 3); }
//@ C31 H_datetime_reject split=101:0..23 t=100 | milliseconds: 2024-02-29T13:59:58.765 with two (thorough: three) neighbouring bytes arbitrary, one byte appended, or cut off at any place
ENTRY(H_datetime_reject) { datetime_reject<milliseconds>("2024-02-29T13:59:58.765", 3); }
//@ C31 H_date_reject split=101:0..10 t=100 | 2024-02-29 and 1999-12-01 with two (thorough: three) neighbouring bytes arbitrary, one byte appended, or cut off at any place
ENTRY(H_date_reject) {
  const std::string s = damaged(vf::choose(2, "base") ? "1999-12-01" : "2024-02-29");
  reader r{s}; const int64_t y = r.year(); r.sep('-'); const int64_t m = r.field(2); r.sep('-'); const int64_t d = r.field(2);
  const bool good = r.ok && m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m);
  try { const tdate v = tdate::from_string(s); CHECK(good, "only a text that denotes a date is accepted"); CHECK((int)v.year() == y && (unsigned)v.month() == m && (unsigned)v.day() == d, "the date the text denotes"); COVER("accepted"); }
  catch (const std::runtime_error&) { CHECK(!good, "a text that denotes a date is accepted"); COVER("rejected"); }
}
