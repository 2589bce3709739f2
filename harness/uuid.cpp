// C22..C25: uuid text form, validation, ordering, generation.
#include "vf.h"
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <array>
#include <cstring>
#include <memory>
#include <sstream>
#include <stdexcept>
using tc::sdk::uuid;
using tc::sdk::uuid_generator;

namespace {
struct bytes16 { uint8_t b[16]; };
// The only public ways to a chosen uuid value are parsing and generation; the 16 bytes are its whole state.
static_assert(sizeof(uuid) == 16);
uuid from_bytes(const bytes16& v) { uuid u; std::memcpy(static_cast<void*>(&u), v.b, 16); return u; }
bytes16 to_bytes(const uuid& u) { bytes16 v; std::memcpy(v.b, static_cast<const void*>(&u), 16); return v; }
bool same(const bytes16& a, const bytes16& b) { return std::memcmp(a.b, b.b, 16) == 0; }
char hexdig(uint8_t n) { return (char)(n + (n < 10 ? '0' : 'a' - 10)); }
bool is_hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
uint8_t hexval(char c) { return (uint8_t)(c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10); }
}

//@ C22 H_uuid_to_text | all 2^128 values: every character of the text
ENTRY(H_uuid_to_text) {
  bytes16 v; vf::fill(v.b, 16, "b");
  const std::string s = from_bytes(v).to_string();
  CHECK(s.size() == 36, "text has 36 characters");
  size_t i = 0;
  for (int k = 0; k < 16; ++k) {
    if (k == 4 || k == 6 || k == 8 || k == 10) { CHECK(s[i] == '-', "dash at its place"); ++i; }
    CHECK(s[i] == hexdig(v.b[k] >> 4), "high digit lower case"); ++i;
    CHECK(s[i] == hexdig(v.b[k] & 15), "low digit lower case"); ++i;
  }
  COVER("done");
}

//@ C22 H_uuid_stream | all 2^128 values: stream output equals the text, copies print alike
ENTRY(H_uuid_stream) {
  bytes16 v; vf::fill(v.b, 16, "b");
  const uuid u = from_bytes(v); uuid c; c = u; uuid m(std::move(c));
  std::ostringstream o; o << m;
  CHECK(o.str() == u.to_string(), "stream output is the text form");
  COVER("done");
}

//@ C22 H_uuid_roundtrip | all 2^128 values through text and back
ENTRY(H_uuid_roundtrip) {
  bytes16 v; vf::fill(v.b, 16, "b");
  const uuid u = from_bytes(v);
  const uuid w = uuid_generator::instance().from_string(u.to_string());
  CHECK(same(to_bytes(w), v), "parse(to_string(u)) == u");
  CHECK(uuid_generator::instance().is_valid(u.to_string()), "text is valid");
  COVER("done");
}

// 32 arbitrary hex digits of either case; dashes: none, canonical, or one after an arbitrary digit; braces or not.
//@ C22 H_uuid_spellings | 32 arbitrary hex digits in either case; canonical/no/any single extra dash; with and without braces
ENTRY(H_uuid_spellings) {
  char d[32]; vf::fill(d, 32, "digit");
  for (char c : d) ASSUME(is_hex(c));
  const int layout = vf::choose(4, "layout");
  const bool braces = vf::choose(2, "braces");
  const int extra = layout == 2 ? vf::choose(33, "dash") : -1;
  std::string s;
  if (braces) s += '{';
  for (int k = 0; k <= 32; ++k) {
    if (layout == 1 && (k == 8 || k == 12 || k == 16 || k == 20)) s += '-';
    if (k == extra) s += "-";
    if (layout == 3) s += k % 3 == 0 ? "--" : "-";
    if (k < 32) s += d[k];
  }
  if (braces) s += '}';
  const auto& g = uuid_generator::instance();
  CHECK(g.is_valid(s), "accepted spelling is valid");
  uuid u;
  try { u = g.from_string(s); } catch (const std::runtime_error&) { __tc_fail("accepted spelling does not parse"); }
  const bytes16 r = to_bytes(u);
  for (int k = 0; k < 16; ++k)
    CHECK(r.b[k] == (uint8_t)(hexval(d[2 * k]) << 4 | hexval(d[2 * k + 1])), "bytes are those of the digits");
  if (layout == 0) COVER("bare");
  if (layout == 1) COVER("canonical");
  if (layout == 2) COVER("odd dash");
  if (braces) COVER("braces");
}

namespace {
// Decides a string of n bytes: reference acceptance against both implementations.
void check_string(const std::string& str) {
  // exact-size heap copy: any read outside the string is an invalid access
  std::unique_ptr<char[]> buf(new char[str.size()]);
  std::memcpy(buf.get(), str.data(), str.size());
  const std::string_view s(buf.get(), str.size());
  const auto& g = uuid_generator::instance();
  const bool valid = g.is_valid(s);
  bool parsed = false; uuid u;
  try { u = g.from_string(s); parsed = true; } catch (const std::runtime_error&) {}
  CHECK(valid == parsed, "is_valid agrees with from_string");
  size_t lo = 0, hi = s.size(); bool ok = true;
  if (hi >= 2 && s[0] == '{' && s[hi - 1] == '}') { lo = 1; --hi; }
  size_t digits = 0; uint8_t want[16] = {};
  for (size_t i = lo; i < hi; ++i) {
    if (s[i] == '-') continue;
    if (!is_hex(s[i])) { ok = false; break; }
    if (digits < 32) want[digits / 2] |= (uint8_t)(digits % 2 ? hexval(s[i]) : hexval(s[i]) << 4);
    ++digits;
  }
  ok = ok && digits == 32;
  CHECK(parsed == ok, "accepted exactly when it is 32 hex digits apart from dashes and matching braces");
  if (parsed) { CHECK(std::memcmp(&u, want, 16) == 0, "accepted text gives its digits"); COVER("accepted"); }
  else COVER("rejected");
}
}

//@ C23 H_uuid_short split=101:0..5 tsplit=101:0..8 | every byte string of length 0..5 (thorough: 0..8) (any bytes, embedded zeros included)
ENTRY(H_uuid_short) {
  const int n = (int)vf::param();
  std::string s((size_t)n, 'x');
  if (n) vf::fill(&s[0], (size_t)n, "s");
  check_string(s);
}

// A window of arbitrary bytes inside otherwise valid text, at the places where the scanners' states differ.
//@ C23 H_uuid_window | texts of 29..40 characters that are hex digits except for a window of up to 3 arbitrary bytes at any position
ENTRY(H_uuid_window) {
  const int n = 30 + vf::choose(9, "length");
  const int at = vf::choose(n, "at");
  std::string s((size_t)n, 'a');
  for (int i = 0; i < n; ++i) s[(size_t)i] = "0123456789abcdefABCDEF"[i % 22];
  const int w = at + 3 <= n ? 3 : n - at;
  vf::fill(&s[(size_t)at], (size_t)w, "s");
  check_string(s);
}

//@ C23 H_uuid_ends | texts of 31..38 characters whose first two and last two bytes are arbitrary
ENTRY(H_uuid_ends) {
  const int n = 31 + vf::choose(8, "length");
  std::string s((size_t)n, 'f');
  vf::fill(&s[0], 2, "s");
  vf::fill(&s[(size_t)n - 2], 2, "e");
  check_string(s);
}

//@ C24 H_uuid_order | all pairs and triples of 128-bit values
ENTRY(H_uuid_order) {
  bytes16 x, y, z; vf::fill(x.b, 16, "x"); vf::fill(y.b, 16, "y"); vf::fill(z.b, 16, "z");
  const uuid a = from_bytes(x), b = from_bytes(y), c = from_bytes(z);
  const int lt = a < b, gt = a > b, eq = a == b;
  CHECK(lt + gt + eq == 1, "exactly one of less, equal, greater");
  CHECK((a != b) == !eq, "!= is the negation of ==");
  CHECK((a <= b) == (lt || eq), "<= is less or equal");
  CHECK((a >= b) == (gt || eq), ">= is greater or equal");
  CHECK(eq == same(x, y), "equal exactly when all bytes are equal");
  CHECK((b > a) == (bool)lt && (b < a) == (bool)gt, "converse");
  CHECK(!(lt && b < c) || a < c, "less is transitive");
  const uuid zero; CHECK(!(a < zero), "default uuid is the least");
  COVER("done");
}

//@ C24 H_uuid_order_text | all pairs: order equals the order of the text forms
ENTRY(H_uuid_order_text) {
  bytes16 x, y; vf::fill(x.b, 16, "x"); vf::fill(y.b, 16, "y");
  const uuid a = from_bytes(x), b = from_bytes(y);
  const std::string s = a.to_string(), t = b.to_string();
  // branch-free lexicographic comparison of the two texts
  int cmp = 0;
  for (int i = 35; i >= 0; --i) cmp = s[(size_t)i] == t[(size_t)i] ? cmp : (uint8_t)s[(size_t)i] < (uint8_t)t[(size_t)i] ? -1 : 1;
  CHECK((a < b) == (cmp < 0), "less agrees with the text");
  CHECK((a == b) == (cmp == 0), "equal agrees with the text");
  CHECK((a > b) == (cmp > 0), "greater agrees with the text");
  COVER("done");
}

//@ C24 H_uuid_default | the default-constructed value
ENTRY(H_uuid_default) {
  const uuid z;
  bytes16 zero = {}; CHECK(same(to_bytes(z), zero), "default uuid is all zero");
  CHECK(z.to_string() == "00000000-0000-0000-0000-000000000000", "default text");
  uuid c(z); CHECK(c == z, "copy is equal");
  COVER("done");
}
