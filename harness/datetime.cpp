// C26..C29, C32: calendar dates, datetimes, times of day, time spans.
#include "vf.h"
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <chrono>
#include <limits>
#include <sstream>
#include <stdexcept>
using namespace std::chrono;
using tc::sdk::date; using tc::sdk::datetime; using tc::sdk::timedelta; using tod = tc::sdk::time;

namespace {
constexpr int64_t DAY = 86400LL * 1000000000LL;
constexpr int64_t MAXD = 106750;                 // days either side of 1970 for which every instant fits in 64-bit nanoseconds
using tp_t = tc::sdk::sys_time_point;
tp_t at(int64_t ns) { return tp_t(nanoseconds(ns)); }
int64_t ns_of(tp_t t) { return t.time_since_epoch().count(); }
constexpr int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; return q * b > a ? q - 1 : q; }
constexpr bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int64_t month_len(int64_t y, int64_t m) { return m == 2 ? 28 + leap(y) : 30 + ((m + (m > 7)) & 1); }
// days from 1970-01-01 to y-m-d by counting days of whole years and months
constexpr int64_t civil_days(int64_t y, int64_t m, int64_t d) {
  const int64_t p = y - 1; int64_t n = 365 * (y - 1970) + (floordiv(p, 4) - 492) - (floordiv(p, 100) - 19) + (floordiv(p, 400) - 4);
  constexpr int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  return n + cum[m - 1] + (m > 2 && leap(y)) + d - 1;
}
int64_t any_day(const char* n) { return vf::range(-MAXD, MAXD, n); }
// A contiguous chunk of the supported days, selected by parameter 1: quick covers eight eras of 4096 days around the
// calendar's special points, thorough all of them.
constexpr int64_t CHUNK = 4096;
int64_t chunk_day(const char* n) {
  static constexpr int64_t eras[8] = {-MAXD, civil_days(1796, 1, 1), civil_days(1895, 1, 1), civil_days(1964, 1, 1), civil_days(1995, 1, 1), civil_days(2019, 1, 1), civil_days(2095, 1, 1), MAXD - CHUNK + 1};
  const int64_t lo = vf::thorough() ? -MAXD + CHUNK * vf::param(1) : eras[vf::param(1)], hi = lo + CHUNK - 1;
  return vf::range(lo, hi < MAXD ? hi : MAXD, n);
}
struct ymd { int64_t y, m, d; };
ymd any_ymd(const char* n, int ylo = 1678, int yhi = 2261, bool fork = true) {
  ymd r; r.y = vf::range(ylo, yhi, n); r.m = fork ? 1 + vf::choose(12, n) : vf::range(1, 12, n); r.d = vf::range(1, 31, n); ASSUME(r.d <= month_len(r.y, r.m)); return r;
}
date mk(const ymd& v) { return date(year((int)v.y), month((unsigned)v.m), day((unsigned)v.d)); }
int64_t days_of(const date& d) { return d.to_timepoint().time_since_epoch().count(); }
bool is(const date& d, const ymd& v) { return (int)d.year() == v.y && (unsigned)d.month() == v.m && (unsigned)d.day() == v.d; }
}

// ------------------------------------------------------------------ C26
//@ C26 H_date_from_instant split=101:0..7 tsplit=101:0..52 | quick: every nanosecond instant of eight eras of 4096 days (1677, 1796, 1895, 1964, 1995, 2019, 2095, 2251); thorough: of 1677-09-22..2262-04-10
ENTRY(H_date_from_instant) {
  const int64_t n = chunk_day("day"), r = vf::range(0, DAY - 1, "ns");
  const date d(at(n * DAY + r));
  CHECK(d.is_valid(), "date of an instant is valid");
  const int64_t y = (int)d.year(), m = (unsigned)d.month(), dd = (unsigned)d.day();
  CHECK(m >= 1 && m <= 12 && dd >= 1 && dd <= month_len(y, m), "fields are in range");
  CHECK(civil_days(y, m, dd) == n, "the civil day containing the instant");
  COVER("done");
}
//@ C26 H_date_roundtrip split=101:0..7 | every valid date 1678..2261: its instant and its weekday
ENTRY(H_date_roundtrip) {
  const int lo = 1678 + 73 * vf::param(1); const ymd v = any_ymd("v", lo, lo + 72); const date d = mk(v);
  CHECK(d.is_valid(), "valid fields make a valid date");
  const int64_t n = civil_days(v.y, v.m, v.d);
  CHECK(days_of(d) == n, "instant of the date is its midnight");
  const int64_t wd = n + 3 - 7 * floordiv(n + 3, 7);          // 0 Monday
  CHECK(d.iso_weekday() == wd + 1, "ISO weekday");
  CHECK(d.weekday().iso_encoding() == wd + 1, "weekday");
  COVER("done");
}
//@ C26 H_date_valid | all year/month/day field values: validity is that of the calendar
ENTRY(H_date_valid) {
  const int64_t y = vf::range(-32767, 32767, "y"), m = vf::range(0, 255, "m"), d = vf::range(0, 255, "d");
  const bool ok = m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m);
  CHECK(date(year((int)y), month((unsigned)m), day((unsigned)d)).is_valid() == ok, "validity");
  CHECK(date(year_month_day(year((int)y), month((unsigned)m), day((unsigned)d))).is_valid() == ok, "validity of a copied value");
  CHECK(!date().is_valid(), "default date is invalid");
  if (ok) COVER("valid"); else COVER("invalid");
}
//@ C26 H_date_add split=101:0..7 tsplit=101:0..52 | every date 1678..2261 and every span in nanoseconds whose result lies in the chunk of days (quick: eight eras of 4096 days; thorough: all of 1677-09-22..2262-04-10)
ENTRY(H_date_add) {
  const ymd v = any_ymd("v", 1678, 2261, false); const date d = mk(v); const int64_t n = days_of(d), r = chunk_day("result"), dr = vf::range(0, DAY - 1, "ns");
  ASSUME(r - n >= -106751 && r - n <= 106750);
  const timedelta t(nanoseconds((r - n) * DAY + dr));
  const date e = d + t;
  CHECK(civil_days((int)e.year(), (unsigned)e.month(), (unsigned)e.day()) == r && e.is_valid(), "addition gives the day containing the instant");
  COVER("added");
}
//@ C26 H_date_sub split=101:0..7 tsplit=101:0..52 | every date 1678..2261 and every span in nanoseconds whose result lies in the chunk of days (quick: eight eras of 4096 days; thorough: all of 1677-09-22..2262-04-10)
ENTRY(H_date_sub) {
  const ymd v = any_ymd("v", 1678, 2261, false); const date d = mk(v); const int64_t n = days_of(d), r = chunk_day("result"), dr = vf::range(0, DAY - 1, "ns");
  ASSUME(n - r >= -106750 && n - r <= 106750);
  const timedelta t(nanoseconds((n - r) * DAY - dr));
  const date e = d - t;
  CHECK(civil_days((int)e.year(), (unsigned)e.month(), (unsigned)e.day()) == r && e.is_valid(), "subtraction gives the day containing the instant");
  COVER("subtracted");
}
//@ C26 H_date_order | every pair of valid dates 1678..2261: comparison and difference
ENTRY(H_date_order) {
  const ymd a = any_ymd("a"), b = any_ymd("b"); const date x = mk(a), y = mk(b);
  const int64_t ka = (a.y * 16 + a.m) * 32 + a.d, kb = (b.y * 16 + b.m) * 32 + b.d;    // chronological keys
  CHECK((x < y) == (ka < kb), "less is earlier"); CHECK((x > y) == (ka > kb), "greater is later");
  CHECK((x == y) == (ka == kb), "equal is the same day"); CHECK((x != y) == (ka != kb), "unequal is another day");
  COVER("done");
}
//@ C26 H_date_difference | every pair of dates of 1678..2261 whose distance fits in nanoseconds
ENTRY(H_date_difference) {
  const ymd a = any_ymd("a"), b = any_ymd("b"); const date x = mk(a), y = mk(b);
  const int64_t n = days_of(x), m = days_of(y); ASSUME(n - m >= -106751 && n - m <= 106750);   // both are the civil day numbers: H_date_roundtrip
  CHECK((x - y).total_nanoseconds().count() == (n - m) * DAY, "difference is the exact number of days");
  COVER("done");
}

// ------------------------------------------------------------------ C27
//@ C27 H_dt_split split=101:0..7 tsplit=101:0..52 | quick: every nanosecond instant of eight eras of 4096 days; thorough: of 1677-09-22..2262-04-10
ENTRY(H_dt_split) {
  const int64_t n = chunk_day("day"), r = vf::range(0, DAY - 1, "ns"); const datetime dt(at(n * DAY + r));
  CHECK(ns_of(dt.to_time_point()) == n * DAY + r, "keeps the instant");
  CHECK(dt.is_valid(), "an ordinary instant is valid");
  const date d = dt.date(); const tod t = dt.time();
  CHECK(days_of(d) == n, "its date is the day containing it");
  CHECK(t.to_duration().count() == r, "its time of day is the remainder");
  const datetime back(d, t);
  CHECK(back == dt && ns_of(back.to_time_point()) == n * DAY + r, "date and time of day compose to the instant");
  COVER("done");
}
//@ C27 H_dt_fields | all valid calendar fields 1678..2261 with all clock fields in their ranges
ENTRY(H_dt_fields) {
  const ymd v = any_ymd("v");
  const int64_t h = vf::range(0, 23, "h"), mi = vf::range(0, 59, "min"), s = vf::range(0, 59, "s"), ms = vf::range(0, 999, "ms"), us = vf::range(0, 999, "us"), ns = vf::range(0, 999, "nsec");
  const datetime dt(year((int)v.y), month((unsigned)v.m), day((unsigned)v.d), hours(h), minutes(mi), seconds(s), milliseconds(ms), microseconds(us), nanoseconds(ns));
  const int64_t inday = ((((h * 60 + mi) * 60 + s) * 1000 + ms) * 1000 + us) * 1000 + ns, want = civil_days(v.y, v.m, v.d) * DAY + inday;
  CHECK(ns_of(dt.to_time_point()) == want, "fields denote this instant");
  const datetime only(mk(v)); CHECK(ns_of(only.to_time_point()) == want - inday, "a date alone is its midnight");
  CHECK(ns_of(datetime(tod(nanoseconds(inday))).to_time_point()) == inday, "a time of day alone is on 1970-01-01");
  CHECK(ns_of(datetime(mk(v), tod(nanoseconds(inday))).to_time_point()) == want, "date plus time of day");
  COVER("done");
}
//@ C27 H_dt_arith | all pairs of 64-bit instants and spans without overflow
ENTRY(H_dt_arith) {
  const int64_t a = vf::any<int64_t>("a"), s = vf::any<int64_t>("span"); int64_t r;
  ASSUME(!__builtin_add_overflow(a, s, &r));
  const datetime x(at(a)); const timedelta t{nanoseconds(s)};
  const datetime y = x + t;
  CHECK(ns_of(y.to_time_point()) == r, "addition is exact");
  CHECK(y - t == x, "subtracting again is the identity");
  CHECK((y - x).total_nanoseconds().count() == s || (int64_t)((uint64_t)r - (uint64_t)a) != s, "difference inverts addition");
  COVER("added");
}
//@ C27 H_dt_sub | all pairs of 64-bit instants and spans without overflow
ENTRY(H_dt_sub) {
  const int64_t a = vf::any<int64_t>("a"), s = vf::any<int64_t>("span"); int64_t r;
  ASSUME(!__builtin_sub_overflow(a, s, &r)); ASSUME(s != std::numeric_limits<int64_t>::min());
  const datetime x(at(a)); const timedelta t{nanoseconds(s)}; const datetime y = x - t;
  CHECK(ns_of(y.to_time_point()) == r, "subtraction is exact");
  CHECK(y + t == x, "adding again is the identity");
  COVER("subtracted");
}
//@ C27 H_dt_order | all pairs of 64-bit instants
ENTRY(H_dt_order) {
  const int64_t a = vf::any<int64_t>("a"), b = vf::any<int64_t>("b"); const datetime x(at(a)), y(at(b));
  CHECK((x < y) == (a < b), "less is earlier"); CHECK((x > y) == (a > b), "greater is later"); CHECK((x == y) == (a == b), "equal"); CHECK((x != y) == (a != b), "unequal");
  int64_t r; if (!__builtin_sub_overflow(a, b, &r)) { CHECK((x - y).total_nanoseconds().count() == r, "difference is exact"); COVER("difference"); }
  const bool edge = a == std::numeric_limits<int64_t>::min() || a == std::numeric_limits<int64_t>::max();
  CHECK(x.is_valid() == !edge, "only the two extreme values are invalid"); CHECK(!datetime().is_valid(), "default is invalid");
}

// ------------------------------------------------------------------ C28
namespace {
// a 64-bit span as whole days plus remainder with the sign of the span
struct split { int64_t q, r, v; };
split any_span(const char* n) {
  split s; const bool neg = vf::choose(2, n); s.q = vf::range(0, 106750, n); s.r = vf::range(0, DAY - 1, n); if (neg) { s.q = -s.q; s.r = -s.r; } s.v = s.q * DAY + s.r; return s;
}
bool components(const tod& t, int64_t d) {
  const int64_t h = t.hours().count(), m = t.minutes().count(), s = t.seconds().count(), ms = t.milliseconds().count(), us = t.microseconds().count(), ns = t.nanoseconds().count();
  const int64_t mag = d < 0 ? -d : d;
  const bool in = h >= 0 && h < 24 && m >= 0 && m < 60 && s >= 0 && s < 60 && ns >= 0 && ns < 1000000000;
  return in && ((h * 60 + m) * 60 + s) * 1000000000 + ns == mag && us * 1000 <= ns && ns < us * 1000 + 1000 && ms * 1000000 <= ns && ns < ms * 1000000 + 1000000;
}
}
//@ C28 H_time_build | every span of up to 106751 days either side, in nanoseconds
ENTRY(H_time_build) {
  const split s = any_span("span"); const tod t{nanoseconds(s.v)};
  CHECK(t.to_duration().count() == s.r, "keeps the span modulo 24 hours");
  CHECK(t.is_valid(), "a built time of day is valid");
  CHECK(components(t, s.r), "components are in range and recompose to it");
  if (s.v < 0) COVER("negative"); else COVER("positive");
}
//@ C28 H_time_fields | all clock fields given separately, within and beyond their ranges
ENTRY(H_time_fields) {
  const int64_t h = vf::range(0, 99, "h"), m = vf::range(0, 99, "m"), s = vf::range(0, 99, "s"), ns = vf::range(0, 999999999, "ns");
  const int64_t v = ((h * 60 + m) * 60 + s) * 1000000000 + ns;
  const tod t{hours(h), minutes(m), seconds(s), nanoseconds(ns)};
  CHECK(t.to_duration().count() == v % DAY, "sum of the fields modulo 24 hours");
  CHECK(!tod().is_valid(), "default time of day is invalid");
  COVER("done");
}
//@ C28 H_time_add | every time of day and every span of up to 106750 days: addition and subtraction wrap
ENTRY(H_time_add) {
  const int64_t a = vf::range(-DAY + 1, DAY - 1, "a"); const split s = any_span("span"); ASSUME(s.q > -106750 && s.q < 106750);
  const tod t{nanoseconds(a)}; const timedelta d{nanoseconds(s.v)};
  CHECK((t + d).to_duration().count() == (a + s.v) % DAY, "addition wraps at 24 hours");
  CHECK((t - d).to_duration().count() == (a - s.v) % DAY, "subtraction wraps at 24 hours");
  COVER("done");
}
//@ C28 H_time_order | all pairs of times of day: comparison, exact sum and difference
ENTRY(H_time_order) {
  const int64_t a = vf::range(-DAY + 1, DAY - 1, "a"), b = vf::range(-DAY + 1, DAY - 1, "b"); const tod x{nanoseconds(a)}, y{nanoseconds(b)};
  CHECK((x < y) == (a < b), "less"); CHECK((x > y) == (a > b), "greater"); CHECK((x == y) == (a == b), "equal"); CHECK((x != y) == (a != b), "unequal");
  CHECK((x - y).total_nanoseconds().count() == a - b, "difference is exact"); CHECK((x + y).total_nanoseconds().count() == a + b, "sum is exact");
  COVER("done");
}

// ------------------------------------------------------------------ C29
//@ C29 H_span_components | every 64-bit span
ENTRY(H_span_components) {
  const int64_t v = vf::any<int64_t>("span"); ASSUME(v >= std::numeric_limits<int64_t>::min() + 3600 * 1000000000LL);
  const timedelta t{nanoseconds(v)};
  const int64_t h = t.hours().count(), m = t.minutes().count(), s = t.seconds().count(), ms = t.milliseconds().count(), us = t.microseconds().count(), ns = t.nanoseconds().count();
  CHECK(m >= 0 && m < 60, "minutes in range"); CHECK(s >= 0 && s < 60, "seconds in range"); CHECK(ms >= 0 && ms < 1000, "milliseconds in range"); CHECK(us >= 0 && us < 1000, "microseconds in range"); CHECK(ns >= 0 && ns < 1000, "nanoseconds in range");
  CHECK((((((h * 60 + m) * 60 + s) * 1000 + ms) * 1000 + us) * 1000) + ns == v, "components add up to the span");
  CHECK(t.is_null() == (v == 0), "null exactly when zero");
  COVER("done");
}
namespace { bool trunc_ok(int64_t v, int64_t q, int64_t unit) { const __int128 p = (__int128)q * unit; return v >= 0 ? p <= v && v - p < unit && q >= 0 : p >= v && p - v < unit && q <= 0; } }
//@ C29 H_span_totals | every 64-bit span
ENTRY(H_span_totals) {
  const int64_t v = vf::any<int64_t>("span"); const timedelta t{nanoseconds(v)}; constexpr int64_t S = 1000000000;
  CHECK(t.total_nanoseconds().count() == v, "nanoseconds"); CHECK(t.total_microseconds().count() == v / 1000, "microseconds"); CHECK(t.total_milliseconds().count() == v / 1000000, "milliseconds");
  CHECK(t.total_seconds().count() == v / S, "seconds"); CHECK(t.total_minutes().count() == v / (60 * S), "minutes"); CHECK(t.total_hours().count() == v / (3600 * S), "hours"); CHECK(t.total_days().count() == v / DAY, "days");
  CHECK(t.total_months().count() == v / (2629746 * S), "months of 1/12 Gregorian year"); CHECK(t.total_years().count() == v / (31556952 * S), "mean Gregorian years");
  COVER("done");
}
//@ C29 H_span_arith | all pairs of 64-bit spans without overflow
ENTRY(H_span_arith) {
  const int64_t a = vf::any<int64_t>("a"), b = vf::any<int64_t>("b"); const timedelta x{nanoseconds(a)}, y{nanoseconds(b)}; int64_t r;
  if (!__builtin_add_overflow(a, b, &r)) { CHECK((x + y).total_nanoseconds().count() == r, "sum"); COVER("sum"); }
  if (!__builtin_sub_overflow(a, b, &r)) { CHECK((x - y).total_nanoseconds().count() == r, "difference"); COVER("difference"); }
  CHECK((x == y) == (a == b), "equal"); CHECK((x != y) == (a != b), "unequal");
}
//@ C29 H_span_scale | every 64-bit span scaled by -1000..1000 and divided by 24-bit divisors
ENTRY(H_span_scale) {
  const int64_t a = vf::any<int64_t>("a"), k = vf::range(-1000, 1000, "k"); const timedelta x{nanoseconds(a)};
  constexpr int64_t M = std::numeric_limits<int64_t>::max() / 1000; if (a >= -M && a <= M) { CHECK((x * k).total_nanoseconds().count() == a * k, "multiplication"); COVER("scaled"); }
  if (k) { CHECK((x / k).total_nanoseconds().count() == a / k, "division truncates toward zero"); COVER("divided"); }
}
//@ C29 H_span_divzero | every 64-bit span divided by zero
ENTRY(H_span_divzero) {
  const int64_t a = vf::any<int64_t>("a"); const timedelta x{nanoseconds(a)}; volatile int64_t zero = 0;
  CHECK(vf::throws<std::domain_error>([&] { (void)(x / zero); }), "division by zero is reported by std::domain_error");
  COVER("done");
}
//@ C29 H_span_build | spans given as several durations add up
ENTRY(H_span_build) {
  const int64_t d = vf::range(-10000, 10000, "d"), h = vf::range(-100000, 100000, "h"), m = vf::range(-100000, 100000, "m"), s = vf::range(-1000000, 1000000, "s"), ms = vf::range(-1000000, 1000000, "ms"), ns = vf::range(-1000000000, 1000000000, "ns");
  const timedelta t{days(d), hours(h), minutes(m), seconds(s), milliseconds(ms), nanoseconds(ns)};
  CHECK(t.total_nanoseconds().count() == ((((d * 24 + h) * 60 + m) * 60 + s) * 1000 + ms) * 1000000 + ns, "sum of the parts"); CHECK(timedelta().is_null(), "default span is zero");
  COVER("done");
}
