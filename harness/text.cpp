// C32: time spans as text.
#include "vf.h"
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <chrono>
#include <stdexcept>
using namespace std::chrono;
using tc::sdk::timedelta;

namespace {
int64_t num(const std::string& s, size_t b, size_t n) { int64_t v = 0; for (size_t i = b; i < b + n; i++) { CHECK(vf::is_digit(s[i]), "a decimal digit"); v = v * 10 + (s[i] - '0'); } return v; }
constexpr int64_t P10[10] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
// span text: [-]HH..:MM:SS[.fff]
template <class D> void span_text(int digits, bool neg, int64_t hlo, int64_t hhi, size_t hd) {
  const int64_t h = vf::range(hlo, hhi, "h"), m = vf::range(0, 59, "m"), sec = vf::range(0, 59, "s"), f = vf::range(0, 999999999, "ns"), a = ((h * 60 + m) * 60 + sec) * P10[9] + f;
  const std::string s = timedelta(nanoseconds(neg ? -a : a)).to_string<D>(); const int64_t pf = f / P10[9 - digits]; size_t p = 0;
  if (neg && (h | m | sec | pf)) { CHECK(!s.empty() && s[0] == '-', "a negative span starts with a minus sign"); p = 1; }
  CHECK(s.size() == p + hd + 6 + (digits ? 1 + digits : 0), "hours, two digits each for minutes and seconds, and the fraction");
  CHECK(s[p + hd] == ':' && s[p + hd + 3] == ':', "separators"); if (digits) CHECK(s[p + hd + 6] == '.', "decimal point");
  CHECK(num(s, p, hd) == h, "hours"); CHECK(num(s, p + hd + 1, 2) == m, "minutes"); CHECK(num(s, p + hd + 4, 2) == sec, "seconds");
  if (digits) CHECK(num(s, p + hd + 7, digits) == pf, "the fraction, truncated to the printed precision");
  COVER("done");
}
}

// ------------------------------------------------------------------ C32
//@ C32 H_span_text split=101:0..3;102:0..1 t=40 | spans from -100 h to 100 h
ENTRY(H_span_text) {
  const bool neg = vf::param(1);
  switch (vf::param(0)) { case 0: span_text<seconds>(0, neg, 0, 99, 2); break; case 1: span_text<milliseconds>(3, neg, 0, 99, 2); break; case 2: span_text<microseconds>(6, neg, 0, 99, 2); break; default: span_text<nanoseconds>(9, neg, 0, 99, 2); }
}
