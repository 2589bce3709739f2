// C04, C05: observable.
//! mode=ir
//! header-only
#include "vf.h"
#include <teiacare/sdk/observable.hpp>
#include <string>
#include <thread>

namespace {
struct keyed { uint32_t key, tag; friend bool operator==(const keyed& a, const keyed& b) { return a.key == b.key; } };   // equality looks at the key only
// specification of concurrent histories: an atomic cell with a notification switch
enum kind { SET, ON, OFF, READ, ENABLED };
struct op { kind k; uint32_t v; };                     // v: value assigned or result seen
struct prog { op o[4]; int n = 0; void add(kind k, uint32_t v = 0) { vf::ghost g; o[n++] = {k, v}; } };
struct run { const prog* p; int threads; const uint32_t* note; int notes; uint32_t last; };
// is there an interleaving of the programs that gives exactly the observed results, notifications and final value?
bool explains(const run& r, int* at, uint32_t val, bool on, int seen) {
  bool more = false;
  for (int t = 0; t < r.threads; t++) {
    if (at[t] == r.p[t].n) continue;
    more = true; const op& o = r.p[t].o[at[t]]; uint32_t v = val; bool s = on; int k = seen;
    if (o.k == SET) { if (o.v != val) { v = o.v; if (on) { if (k == r.notes || r.note[k] != o.v) continue; k++; } } }
    else if (o.k == ON) s = true; else if (o.k == OFF) s = false;
    else if (o.k == READ) { if (o.v != val) continue; } else if ((o.v != 0) != on) continue;
    at[t]++; const bool ok = explains(r, at, v, s, k); at[t]--; if (ok) return true;
  }
  return !more && seen == r.notes && val == r.last;
}
struct notes { uint32_t v[8]; int n = 0; int inside = 0; void operator()(uint32_t x) { vf::ghost g; CHECK(n < 8, "no more notifications than assignments"); v[n++] = x; } };
void verdict(const prog* p, int threads, const notes& n, uint32_t init, uint32_t last) { vf::ghost g; int at[4] = {0, 0, 0, 0}; run r{p, threads, n.v, n.n, last}; CHECK(explains(r, at, init, true, 0), "notifications, reads and final value follow from one order of the operations"); }
}

//@ C04 H_o_history | every sequence of 5 (thorough 7) assignments, switches and reads with arbitrary 32-bit values, equality looking at part of the value
ENTRY(H_o_history) {
  keyed cur{vf::any<uint32_t>("key"), vf::any<uint32_t>("tag")}, got{0, 0}; bool on = true; int notified = 0;
  tc::sdk::observable<keyed> o(cur, [&](keyed v) { notified++; got = v; });
  CHECK(o.callback_enabled(), "notifications start enabled");
  for (int i = 0; i < (vf::thorough() ? 7 : 5); i++) {
    const int before = notified;
    switch (vf::choose(4, "operation")) {
      case 0: case 1: {
        const keyed v{vf::any<uint32_t>("key"), vf::any<uint32_t>("tag")};
        if (vf::any<bool>("copy")) o = v; else o = keyed(v);
        if (v.key == cur.key) { CHECK(notified == before, "assigning an equal value notifies nobody"); COVER("equal"); }
        else { cur = v; CHECK(notified == before + (on ? 1 : 0), "a change notifies exactly once while enabled"); if (on) { CHECK(got.key == v.key && got.tag == v.tag, "the notification carries the new value"); COVER("notified"); } else COVER("silent"); }
        break; }
      case 2: on = vf::any<bool>("enable"); o.callback_enabled(on); CHECK(notified == before, "switching notifies nobody"); break;
      default: CHECK(o.callback_enabled() == on, "the switch reads back");
    }
    const keyed r = o.value(); CHECK(r.key == cur.key && r.tag == cur.tag, "reading yields the last value assigned");
  }
}
//@ C04 H_o_types | text values of 0..2 arbitrary bytes, assigned by copy and move, read through the conversion; construction from a temporary
ENTRY(H_o_types) {
  const std::string a = vf::text(vf::choose(3, "na"), "a"), b = vf::text(vf::choose(3, "nb"), "b"); std::string got; int n = 0;
  tc::sdk::observable<std::string> o(std::string(a), [&](const std::string& s) { n++; got = s; });
  CHECK(o.value() == a && n == 0, "starts with the given value, silently");
  const bool mv = vf::any<bool>("move"); std::string t = b; if (mv) o = std::move(t); else o = t;
  CHECK(n == (a == b ? 0 : 1), "notified exactly on a change"); if (n) CHECK(got == b, "with the new value");
  const std::string r = o.value(); CHECK(r == b, "reads back"); if (a == b) COVER("same"); else COVER("different");
}
//@ C05 H_o_writers | 3 writers of 1, 1 and 2 arbitrary values, every interleaving
ENTRY(H_o_writers) {
  prog p[3]; notes n; const uint32_t init = vf::any<uint32_t>("init"), a = vf::any<uint32_t>("a"), b = vf::any<uint32_t>("b"), c = vf::any<uint32_t>("c"), d = vf::any<uint32_t>("d");
  tc::sdk::observable<uint32_t> o(init, [&](uint32_t v) { n(v); });
  p[0].add(SET, a); p[1].add(SET, b); p[2].add(SET, c); p[2].add(SET, d);
  { std::thread x([&] { o = a; }), y([&] { o = uint32_t(b); }); o = c; o = uint32_t(d); x.join(); y.join(); }
  verdict(p, 3, n, init, o.value()); if (n.n == 4) COVER("four changes"); if (n.n == 0) COVER("no change");
}
//@ C05 H_o_toggle | a writer of 2 arbitrary values, a second of one, a thread switching notifications off and on, every interleaving
ENTRY(H_o_toggle) {
  prog p[3]; notes n; const uint32_t init = vf::any<uint32_t>("init"), a = vf::any<uint32_t>("a"), b = vf::any<uint32_t>("b"), c = vf::any<uint32_t>("c");
  tc::sdk::observable<uint32_t> o(init, [&](uint32_t v) { n(v); });
  p[0].add(SET, a); p[0].add(SET, b); p[1].add(SET, c); p[2].add(OFF); p[2].add(ON);
  { std::thread x([&] { o = a; o = b; }), y([&] { o = uint32_t(c); }); o.callback_enabled(false); o.callback_enabled(true); x.join(); y.join(); }
  verdict(p, 3, n, init, o.value()); if (n.n == 3) COVER("all notified"); if (n.n == 0) COVER("none notified");
}
//@ C05 H_o_readers cfg=8:1 | two writers of one arbitrary value each, a reader of value, switch and value, every interleaving, data races checked
ENTRY(H_o_readers) {
  prog p[3]; notes n; const uint32_t init = vf::any<uint32_t>("init"), a = vf::any<uint32_t>("a"), b = vf::any<uint32_t>("b");
  tc::sdk::observable<uint32_t> o(init, [&](uint32_t v) { n(v); }); const auto& co = o;
  p[0].add(SET, a); p[1].add(SET, b);
  { std::thread x([&] { o = a; }), y([&] { o = uint32_t(b); }); p[2].add(READ, o.value()); p[2].add(ENABLED, o.callback_enabled()); p[2].add(READ, (uint32_t)co.value()); x.join(); y.join(); }
  verdict(p, 3, n, init, o.value()); COVER("done");
}
//@ C05 H_o_race cfg=8:1;13:1 | text values: a writer, a switcher, a reader by conversion, the notification reading the value it is given; data races, invalid accesses and leaks checked
ENTRY(H_o_race) {
  const std::string a(20, 'a'), b(20, 'b'); int calls = 0; size_t len = 0;
  { tc::sdk::observable<std::string> o(a, [&](const std::string& s) { calls++; len += s.size(); });
    std::thread x([&] { o = b; }), y([&] { o.callback_enabled(false); }); const std::string r = o.value(); CHECK(r == a || r == b, "readers see assigned values only"); x.join(); y.join();
    CHECK(calls <= 1 && len == 20u * calls, "at most one notification"); CHECK(o.value() == b, "the value assigned"); }
  COVER("done");
}
