// C13, C14, C15: event_dispatcher.
//! mode=ir
#include "vf.h"
#include <teiacare/sdk/event_dispatcher.hpp>
#include <string>
#include <thread>

namespace {
using ed = tc::sdk::event_dispatcher;
struct args { int32_t i = 0, j = 0; float f = 0; std::string s; };
struct hit { int who; int type; args a; };
struct seen { hit h[12]; int n = 0; void add(int who, int type, args a) { vf::ghost g; CHECK(n < 12, "no more calls than emissions times handlers"); h[n++] = {who, type, std::move(a)}; } int of(int who) const { int k = 0; for (int i = 0; i < n; i++) k += h[i].who == who; return k; } };
constexpr int TYPES = 8;                                    // argument-type lists: permutations, prefixes and look-alikes of one another
unsigned long add(ed& d, const std::string& name, int type, int who, seen& s) {
  switch (type) {
    case 0: return d.add_handler(name, [&s, who] { s.add(who, 0, {}); });
    case 1: return d.add_handler<int>(name, [&s, who](int i) { args a; a.i = i; s.add(who, 1, a); });
    case 2: return d.add_handler<unsigned>(name, [&s, who](unsigned i) { args a; a.i = (int)i; s.add(who, 2, a); });
    case 3: return d.add_handler<int, float>(name, [&s, who](int i, float f) { args a; a.i = i; a.f = f; s.add(who, 3, a); });
    case 4: return d.add_handler<float, int>(name, [&s, who](float f, int i) { args a; a.i = i; a.f = f; s.add(who, 4, a); });
    case 5: return d.add_handler<int, int>(name, [&s, who](int i, int j) { args a; a.i = i; a.j = j; s.add(who, 5, a); });
    case 6: return d.add_handler<const std::string&>(name, [&s, who](const std::string& t) { args a; a.s = t; s.add(who, 6, a); });
    default: return d.add_handler<std::string, int>(name, [&s, who](std::string t, int i) { args a; a.s = std::move(t); a.i = i; s.add(who, 7, a); });
  }
}
bool emit(ed& d, const std::string& name, int type, const args& a) {
  switch (type) {
    case 0: return d.emit(name);
    case 1: return d.emit(name, a.i);
    case 2: return d.emit(name, (unsigned)a.i);
    case 3: return d.emit(name, a.i, a.f);
    case 4: return d.emit(name, a.f, a.i);
    case 5: return d.emit(name, a.i, a.j);
    case 6: return d.emit(name, a.s);
    default: return d.emit<std::string, int>(name, std::string(a.s), int(a.i));
  }
}
uint32_t bits(float f) { return __builtin_bit_cast(uint32_t, f); }
bool carries(const hit& h, int type, const args& a) {
  if (h.type != type) return false;
  switch (type) {
    case 0: return true; case 1: case 2: return h.a.i == a.i; case 3: case 4: return h.a.i == a.i && bits(h.a.f) == bits(a.f);
    case 5: return h.a.i == a.i && h.a.j == a.j; case 6: return h.a.s == a.s; default: return h.a.s == a.s && h.a.i == a.i;
  }
}
args some(int type) {
  args a; if (type != 0 && type != 6) a.i = vf::any<int32_t>("i"); if (type == 5) a.j = vf::any<int32_t>("j");
  if (type == 3 || type == 4) { const uint32_t b = vf::any<uint32_t>("f"); a.f = __builtin_bit_cast(float, b); }
  if (type >= 6) a.s = vf::text(2, "s"); return a;
}
}

//@ C13 H_e_types cfg=11:1 split=101:0..7 | two handlers registered under one name of 0..1 arbitrary bytes for every pair of 8 argument-type lists, an emission for each list with arbitrary values
ENTRY(H_e_types) {
  seen s; ed d; d.start(1); const std::string name = vf::text(vf::choose(2, "length"), "name"); const int x = (int)vf::param(), y = vf::choose(TYPES, "second"), z = vf::choose(TYPES, "emitted"); const args a = some(z);
  add(d, name, x, 0, s); add(d, name, y, 1, s); const int want = (x == z) + (y == z);
  CHECK(emit(d, name, z, a) == (want > 0), "the emission reports whether a handler matches"); __tc_quiesce(0);
  CHECK(s.n == want && s.of(0) == (x == z) && s.of(1) == (y == z), "exactly the matching handlers run, once each");
  for (int i = 0; i < s.n; i++) CHECK(carries(s.h[i], z, a), "with exactly the emitted values");
  if (want == 2) COVER("two handlers"); if (want == 0) COVER("none");
}
//@ C13 H_e_names cfg=11:1 split=101:0..2;102:0..2 tsplit=101:0..3;102:0..3 | two handlers under names of 0..2 (thorough 3) arbitrary bytes each, with the same or no arguments, an emission under a third such name with an arbitrary value
ENTRY(H_e_names) {
  seen s; ed d; d.start(1); const int most = vf::thorough() ? 4 : 3;
  const std::string n1 = vf::text(vf::param(0), "n1"), n2 = vf::text(vf::param(1), "n2"), n3 = vf::text(vf::choose(most, "length"), "n3"); const int t1 = vf::choose(2, "t1"), t3 = vf::choose(2, "t3"); const args a = some(t3);
  add(d, n1, t1, 0, s); add(d, n2, 1, 1, s); const bool w0 = n1 == n3 && t1 == t3, w1 = n2 == n3 && t3 == 1;
  CHECK(emit(d, n3, t3, a) == (w0 || w1), "the emission reports whether a handler matches"); __tc_quiesce(0);
  CHECK(s.of(0) == w0 && s.of(1) == w1, "exactly the matching handlers run, once each");
  for (int i = 0; i < s.n; i++) CHECK(carries(s.h[i], t3, a), "with exactly the emitted values");
  if (w0 && w1) COVER("both"); if (!w0 && !w1) COVER("none");
}
//@ C13 H_e_repeat cfg=11:1 | the same event emitted 3 times (thorough 4) with arbitrary values to two handlers on one worker: each handler sees each emission once, in order
ENTRY(H_e_repeat) {
  seen s; ed d; d.start(1); const int n = vf::thorough() ? 4 : 3; int32_t v[4];
  add(d, "e", 1, 0, s); add(d, "e", 1, 1, s); for (int i = 0; i < n; i++) { args a; a.i = v[i] = vf::any<int32_t>("v"); CHECK(emit(d, "e", 1, a), "emitted"); if (vf::choose(2, "pause")) __tc_quiesce(0); }
  __tc_quiesce(0); int k[2] = {0, 0}; for (int i = 0; i < s.n; i++) { int& p = k[s.h[i].who]; CHECK(p < n && s.h[i].a.i == v[p], "every emission's value, in order"); p++; }
  CHECK(k[0] == n && k[1] == n, "each handler runs once per emission"); COVER("done");
}
//@ C13 H_e_text cfg=11:1 | text arguments of 16..17 characters (outside the small-string buffer) with arbitrary bytes reach two handlers, one of which consumes its copy
ENTRY(H_e_text) {
  ed d; d.start(1); int n = 0; const std::string t = std::string(16, 'a') + vf::text(vf::choose(2, "n"), "t");
  d.add_handler<std::string>("e", [&](std::string x) { std::string y = std::move(x); CHECK(y == t, "first handler's value"); vf::ghost g; n++; });
  d.add_handler<std::string>("e", [&](std::string x) { CHECK(x == t, "second handler's value"); vf::ghost g; n++; });
  CHECK(d.emit<std::string>("e", std::string(t)), "emitted"); __tc_quiesce(0); CHECK(n == 2, "both run"); COVER("done");
}
//@ C14 H_e_remove cfg=11:1 split=101:0..5 | three registrations under related names and types; one removal by identifier (arbitrary number), by name (0..2 arbitrary bytes) or both; then every event emitted
ENTRY(H_e_remove) {
  static const char* const names[3] = {"a", "ab", ""}; static const int layout[6][6] = {{0, 0, 0, 1, 1, 0}, {0, 1, 0, 1, 0, 1}, {0, 3, 0, 4, 2, 3}, {1, 1, 1, 0, 0, 1}, {2, 1, 0, 1, 1, 1}, {2, 0, 2, 0, 0, 0}};
  seen s; ed d; d.start(1); const int* l = layout[vf::param()]; unsigned long id[3]; bool live[3] = {true, true, true};
  for (int i = 0; i < 3; i++) { id[i] = add(d, names[l[2 * i]], l[2 * i + 1], i, s); for (int j = 0; j < i; j++) CHECK(id[i] != id[j], "identifiers of live registrations differ"); }
  const int what = vf::choose(3, "removal");
  if (what != 1) { const unsigned long r = vf::range<unsigned long>(0, 5, "id"); bool had = false; for (int i = 0; i < 3; i++) if (id[i] == r) { had = true; live[i] = false; } CHECK(d.remove_handler(r) == had, "removal by identifier reports whether it existed"); CHECK(!d.remove_handler(r), "gone"); if (had) COVER("by id"); else COVER("no such id"); }
  if (what != 0) { const std::string n = vf::text(vf::choose(3, "length"), "name"); bool had = false; for (int i = 0; i < 3; i++) if (n == names[l[2 * i]]) { had |= live[i]; live[i] = false; } CHECK(d.remove_event(n) == had, "removal by name reports whether there were any"); CHECK(!d.remove_event(n), "gone"); if (had) COVER("by name"); else COVER("no such name"); }
  for (int i = 0; i < 3; i++) { bool first = true, any = false; for (int j = 0; j < 3; j++) if (l[2 * j] == l[2 * i] && l[2 * j + 1] == l[2 * i + 1]) { if (j < i) first = false; any |= live[j]; } if (first) CHECK(emit(d, names[l[2 * i]], l[2 * i + 1], {}) == any, "the emission reports whether a registration is left"); }
  __tc_quiesce(0); for (int i = 0; i < 3; i++) CHECK(s.of(i) == live[i], "exactly the remaining registrations run");
  const unsigned long again = add(d, "a", 1, 3, s); for (int i = 0; i < 3; i++) CHECK(!live[i] || id[i] != again, "identifiers of live registrations differ");
}
//@ C14 H_e_history cfg=11:1 split=101:0..2 | histories of 4 (thorough 5) add/remove operations over two names and two type lists
ENTRY(H_e_history) {
  static const char* const names[2] = {"e", "e1"}; seen s; ed d; d.start(1); struct reg { unsigned long id; int name, type; bool live; } r[6]; int n = 0;
  for (int k = 0; k < (vf::thorough() ? 5 : 4); k++) {
    switch (k == 0 ? 0 : k == 1 ? (int)vf::param() : vf::choose(3, "operation")) {
      case 0: { reg x{0, vf::choose(2, "name"), vf::choose(2, "type"), true}; x.id = add(d, names[x.name], x.type, n, s); for (int i = 0; i < n; i++) CHECK(!r[i].live || r[i].id != x.id, "identifiers of live registrations differ"); r[n++] = x; break; }
      case 1: { const int i = vf::choose(n, "which"); CHECK(d.remove_handler(r[i].id) == r[i].live, "removal by identifier reports whether it existed"); r[i].live = false; break; }
      default: { const int m = vf::choose(2, "which name"); bool had = false; for (int i = 0; i < n; i++) if (r[i].name == m) { had |= r[i].live; r[i].live = false; } CHECK(d.remove_event(names[m]) == had, "removal by name reports whether there were any"); } }
  }
  for (int m = 0; m < 2; m++) for (int t = 0; t < 2; t++) { bool any = false; for (int i = 0; i < n; i++) any |= r[i].live && r[i].name == m && r[i].type == t; CHECK(emit(d, names[m], t, {}) == any, "the emission reports whether a registration is left"); }
  __tc_quiesce(0); int live = 0; for (int i = 0; i < n; i++) { CHECK(s.of(i) == r[i].live, "exactly the remaining registrations run"); live += r[i].live; } if (live) COVER("some left"); else COVER("none left");
}
//@ C14 H_e_two cfg=11:1 | two dispatchers, the second destroyed (or stopped) at any point of a history of the first; identifiers and handlers of the first unaffected
ENTRY(H_e_two) {
  seen s; ed a; auto b = std::make_unique<ed>(); a.start(1); b->start(1); const int when = vf::choose(5, "when"), how = vf::choose(2, "how"); unsigned long id[3];
  auto other = [&](int k) { if (k == when) { if (how) b.reset(); else b->stop(); } };
  const unsigned long bi = add(*b, "e", 1, 8, s); CHECK(bi != 0, "registered");
  for (int i = 0; i < 3; i++) { other(i); id[i] = add(a, "e", 1, i, s); for (int j = 0; j < i; j++) CHECK(id[i] != id[j], "identifiers of live registrations differ"); if (b && i == 0 && when > 1) { CHECK(emit(*b, "e", 1, {}), "the other has its own handler"); __tc_quiesce(0); CHECK(s.of(8) == 1 && s.of(0) == 0, "and runs only that"); } }
  other(3); const int k = vf::choose(3, "removed"); CHECK(a.remove_handler(id[k]), "removed"); other(4);
  CHECK(emit(a, "e", 1, {}), "handlers are left"); __tc_quiesce(0); for (int i = 0; i < 3; i++) CHECK(s.of(i) == (i != k), "exactly the remaining registrations run"); CHECK(s.of(8) == (when > 1), "nothing of the other dispatcher runs"); COVER("done");
}
//@ C14 H_e_restart cfg=11:1 | stop clears the registrations; after a restart nothing registered before runs; start and stop report the state
ENTRY(H_e_restart) {
  seen s; ed d; CHECK(d.start(1), "starts"); CHECK(!d.start(vf::any<unsigned>("threads")), "started once"); const int t = vf::choose(2, "type"); add(d, "e", t, 0, s); const unsigned long i1 = add(d, "f", t, 1, s);
  CHECK(d.stop(), "stops"); CHECK(!d.stop(), "stopped once"); CHECK(!d.remove_handler(i1) && !d.remove_event("e"), "registrations are gone"); const bool early = vf::choose(2, "early"); if (early) add(d, "f", t, 2, s);
  CHECK(d.start(1), "starts again"); if (!early) add(d, "f", t, 2, s); CHECK(!emit(d, "e", t, {}), "no handler left"); CHECK(emit(d, "f", t, {}), "new handler"); __tc_quiesce(0); CHECK(s.n == 1 && s.of(2) == 1, "only the new handler runs"); COVER("done");
}
//@ C15 H_e_emit_remove cfg=7:2;13:1 | an emission while another thread removes one of two handlers (by identifier or name), every interleaving; no leak
ENTRY(H_e_emit_remove) {
  seen s; int32_t v = vf::any<int32_t>("v"); { ed d; d.start(1); const unsigned long i0 = add(d, "e", 1, 0, s); add(d, "e", 1, 1, s); const bool by = vf::choose(2, "by name"); bool rm = false, em;
    { std::thread t([&] { rm = by ? d.remove_event("e") : d.remove_handler(i0); }); args a; a.i = v; em = emit(d, "e", 1, a); t.join(); }
    CHECK(rm, "the removal found it"); if (!by) CHECK(em, "a handler was left"); __tc_quiesce(0);
    CHECK(s.of(0) <= 1 && s.of(1) <= 1, "each handler is called at most once"); if (!by) CHECK(s.of(1) == 1, "the handler that is not removed is called"); else CHECK(s.of(0) == s.of(1) && s.of(0) == em, "all or none, as reported");
    for (int i = 0; i < s.n; i++) CHECK(s.h[i].a.i == v, "with the emitted value"); if (s.of(0)) COVER("called"); else COVER("removed first");
    CHECK(emit(d, "e", 1, {}) == !by, "gone"); }
}
//@ C15 H_e_emit_add cfg=7:2 | two threads registering (one under another name or type) while the main thread emits twice, every interleaving
ENTRY(H_e_emit_add) {
  seen s; ed d; d.start(1); unsigned long i1 = 0, i2 = 0; const int x = vf::choose(3, "what"); args a; a.i = vf::any<int32_t>("v"); add(d, "e", 1, 0, s);
  { std::thread t([&] { i1 = add(d, "e", 1, 1, s); }), u([&] { i2 = add(d, x == 1 ? "f" : "e", x == 2 ? 0 : 1, 2, s); }); CHECK(emit(d, "e", 1, a), "a handler is registered"); t.join(); u.join(); }
  CHECK(i1 != i2, "identifiers of live registrations differ"); __tc_quiesce(0); CHECK(s.of(0) == 1 && s.of(1) <= 1 && s.of(2) <= (x == 0), "only handlers of the event run, at most once"); const int k1 = s.of(1), k2 = s.of(2);
  CHECK(emit(d, "e", 1, a), "emitted"); __tc_quiesce(0); CHECK(s.of(0) == 2 && s.of(1) == k1 + 1 && s.of(2) == k2 + (x == 0), "both registrations are in effect"); if (k1) COVER("before"); else COVER("after");
}
//@ C15 H_e_emit_emit cfg=7:3 | two threads emitting at once with arbitrary values to a dispatcher of 1..2 workers and one handler, every interleaving
ENTRY(H_e_emit_emit) {
  seen s; ed d; d.start((unsigned)vf::choose(vf::thorough() ? 2 : 1, "workers") + 1); args a, b; a.i = vf::any<int32_t>("a"); b.i = vf::any<int32_t>("b"); add(d, "e", 1, 0, s);
  { std::thread t([&] { CHECK(emit(d, "e", 1, a), "emitted"); }); CHECK(emit(d, "e", 1, b), "emitted"); t.join(); } __tc_quiesce(0); CHECK(s.n == 2, "once per emission");
  CHECK((s.h[0].a.i == a.i && s.h[1].a.i == b.i) || (s.h[0].a.i == b.i && s.h[1].a.i == a.i), "with the emitted values"); COVER("done");
}
//@ C15 H_e_stop cfg=7:2 | an emission while another thread stops the dispatcher, every interleaving: stopping returns and no handler runs afterwards
ENTRY(H_e_stop) {
  seen s; ed d; d.start(1); add(d, "e", 1, 0, s); add(d, "e", 1, 1, s); bool em = false; int at = 0; args a; a.i = vf::any<int32_t>("v");
  { std::thread t([&] { em = emit(d, "e", 1, a); }); CHECK(d.stop(), "stops"); { vf::ghost g; at = s.n; } t.join(); }
  __tc_quiesce(0); CHECK(s.n == at, "no handler runs after stopping returned"); CHECK(s.of(0) <= 1 && s.of(1) <= 1, "at most once"); if (!em) CHECK(s.n == 0, "an emission that found nothing calls nothing"); if (s.n == 2) COVER("ran"); if (s.n == 0) COVER("dropped");
}
//@ C15 H_e_add_stop cfg=7:2;8:1 | a registration and a removal while another thread stops the dispatcher, every interleaving, data races checked
ENTRY(H_e_add_stop) {
  int n = 0; ed d; d.start(1); const unsigned long i = d.add_handler<int>("e", [&](int) { n++; }); unsigned long k = 0;
  { std::thread t([&] { k = d.add_handler<int>("e", [&](int) { n++; }); d.remove_handler(i); }); d.stop(); t.join(); } CHECK(k && k != i, "registered"); CHECK(!d.remove_handler(i), "gone"); if (d.remove_handler(k)) COVER("after stop"); else COVER("before stop");
}
//@ C15 H_e_race cfg=7:2;8:1 | an emission while another thread removes the handler, every interleaving, data races checked
ENTRY(H_e_race) {
  int n = 0; ed d; d.start(1); const unsigned long i = d.add_handler<int>("e", [&](int x) { n += x; });
  { std::thread t([&] { CHECK(d.remove_handler(i), "removed"); }); if (d.emit("e", 1)) COVER("emitted"); else COVER("removed first"); t.join(); } d.stop(); CHECK(n <= 1, "at most once");
}
//@ C15 H_e_inside cfg=7:2 | a handler that registers, removes itself and emits another event while it runs: no deadlock, the emitted event is delivered
ENTRY(H_e_inside) {
  ed d; d.start(1); int n = 0, m = 0; unsigned long me = 0; const int32_t v = vf::any<int32_t>("v"); me = d.add_handler<int>("e", [&](int x) { d.add_handler<int>("g", [&](int y) { vf::ghost g; m += y == v; }); CHECK(d.remove_handler(me), "removes itself"); CHECK(d.emit("g", x), "emits"); vf::ghost g; n++; });
  CHECK(d.emit("e", v), "emitted"); __tc_quiesce(0); CHECK(n == 1 && m == 1, "both handlers ran"); CHECK(!d.emit("e", v), "removed"); COVER("done");
}
