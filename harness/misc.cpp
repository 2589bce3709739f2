// C18..C21: rate_limiter, stopwatch, service_locator, signal_handler.  Time is virtual and symbolic.
//! mode=ir
#include "vf.h"
#include <memory>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <csignal>
#include <chrono>
#include <cstring>
#include <string>
#include <thread>

//@ C18 H_rate_grid cfg=1:2 split=101:0..7 | the same rates, 4 calls, each at once or after a quarter, 1.4, 2.6 or 5 periods
ENTRY(H_rate_grid) {
  static const int64_t rates[8] = {1, 3, 10, 30, 60, 144, 1000, 44100}; const int64_t r = rates[vf::param()], p = 1000000000ll / r, d[5] = {0, p / 4, p * 14 / 10, p * 26 / 10, 5 * p}; const int64_t b = vf::now(); tc::sdk::rate_limiter l((size_t)r);
  for (int k = 1; k <= 4; k++) {
    if (const int w = vf::choose(k < 4 ? 5 : 1, "pause")) vf::sleep_until(vf::now() + d[w]); const int64_t c = vf::now(); l.sync(); const int64_t e = vf::now(), ideal = b + 1000000000ll * k / r;
    CHECK(e >= ideal - 4, "never earlier than k periods after construction"); CHECK(e <= (c > ideal ? c : ideal) + 4, "not later than the deadline, delays do not shift it");
  }
  COVER("done");
}
//@ C18 H_rate cfg=1:2 split=101:0..7 | rates 1, 3, 10, 30, 60, 144, 1000, 44100 per second, 4 (thorough 5) calls after any delays of 0..3 seconds of the caller: every return is at the ideal deadline (to within 4 ns) or at the time of the call if later
ENTRY(H_rate) {
  static const int64_t rates[8] = {1, 3, 10, 30, 60, 144, 1000, 44100}; const int64_t r = rates[vf::param()]; const int64_t b = vf::now(); tc::sdk::rate_limiter l((size_t)r); const int N = vf::thorough() ? 5 : 4;
  for (int k = 1; k <= N; k++) {
    const int64_t d = vf::range(0, 3000000000ll, "delay"); vf::sleep_until(vf::now() + d); const int64_t c = vf::now(); l.sync(); const int64_t e = vf::now(), ideal = b + 1000000000ll * k / r;
    CHECK(e >= ideal - 4, "never earlier than k periods after construction"); CHECK(e <= (c > ideal ? c : ideal) + 4, "not later than the deadline, delays do not shift it"); if (c > ideal + 4) { CHECK(e == c, "a passed deadline does not sleep"); COVER("late caller"); } if (c < ideal - 4) COVER("early caller");
  }
}
//@ C18 H_rate_overshoot cfg=1:2;2:2000000;10:3 split=101:0..7 | the same rates, calls at once, three of the sleeps overshooting by any time up to 2 ms: later deadlines are not shifted
ENTRY(H_rate_overshoot) {
  static const int64_t rates[8] = {1, 3, 10, 30, 60, 144, 1000, 44100}; const int64_t r = rates[vf::param()]; const int64_t b = vf::now(); tc::sdk::rate_limiter l((size_t)r); int64_t last = b;
  for (int k = 1; k <= 4; k++) { l.sync(); const int64_t e = vf::now(), ideal = b + 1000000000ll * k / r; CHECK(e >= ideal - 4, "never earlier than k periods after construction"); CHECK(e <= (last > ideal ? last : ideal) + 2000004, "an overshoot does not shift later deadlines"); last = e; } CHECK(last <= (b + 4000000000ll / r) + 2000004 || last <= b + 3 * 2000004 + 1000000000ll / r * 4, "the long-run rate is met"); COVER("done");
}
//@ C19 H_watch | every sequence of 4 (thorough 6) readings and resets with any time up to 18 minutes between them: elapsed in all provided units
ENTRY(H_watch) {
  using namespace std::chrono; const int64_t b = vf::now(); tc::sdk::stopwatch w; int64_t from = b; CHECK(w.start_time().time_since_epoch().count() == b, "starts at construction"); int64_t before = 0;
  for (int k = 0; k < (vf::thorough() ? 6 : 4); k++) {
    vf::sleep_until(vf::now() + vf::range(0, 1ll << 40, "pause")); const int64_t t = vf::now();
    if (vf::choose(2, "reset")) { w.reset(); from = t; before = 0; COVER("reset"); }
    const int64_t e = t - from; CHECK(w.elapsed().count() == e, "elapsed since construction or reset"); CHECK(e >= before, "non-decreasing"); before = e;
    CHECK(w.elapsed<nanoseconds>().count() == e, "nanoseconds"); CHECK(w.elapsed<microseconds>().count() == e / 1000, "microseconds truncated"); CHECK(w.elapsed<milliseconds>().count() == e / 1000000, "milliseconds truncated"); CHECK(w.elapsed<seconds>().count() == e / 1000000000, "seconds truncated"); CHECK(w.elapsed<minutes>().count() == e / 60000000000, "minutes truncated"); CHECK(w.elapsed<hours>().count() == e / 3600000000000, "hours truncated");
    CHECK(w.start_time().time_since_epoch().count() == from, "reading does not disturb the measurement");
  }
  COVER("done");
}
//@ C19 H_watch_clock cfg=3:1000000000;4:5 | the clock advancing by up to a second at each of five readings: never negative, non-decreasing
ENTRY(H_watch_clock) {
  const int64_t b = vf::now(); tc::sdk::stopwatch w; const int64_t s = w.start_time().time_since_epoch().count(); CHECK(s >= b && s <= vf::now(), "start is a reading during construction"); const int64_t a = w.elapsed().count(), c = w.elapsed().count(); CHECK(a >= 0 && c >= a && s + c <= vf::now(), "readings follow the clock"); w.reset(); const int64_t d = w.elapsed().count(); CHECK(d >= 0 && d <= 1000000000, "reset starts anew"); COVER("done");
}

namespace {
int alive = 0; struct life { life() { alive++; } life(const life&) { alive++; } ~life() { alive--; } };
struct A { virtual ~A() = default; virtual uint32_t a() const = 0; };
struct B { virtual ~B() = default; virtual uint32_t b() const = 0; };
struct C { virtual ~C() = default; virtual uint32_t c() const = 0; uint32_t state = 5; };
struct One : A { life l; uint32_t v; explicit One(uint32_t x) : v(x) {} uint32_t a() const override { return v; } };
struct Two : A, B { life l; uint32_t v; explicit Two(uint32_t x) : v(x) {} uint32_t a() const override { return v + 1; } uint32_t b() const override { return v + 2; } };
struct Virt : virtual C, virtual B { life l; uint32_t v; std::string s; Virt(uint32_t x, const std::string& t) : v(x), s(t) {} uint32_t c() const override { return v + 3 + state; } uint32_t b() const override { return v + 4 + (uint32_t)s.size(); } };
}
//@ C20 H_loc_history split=101:0..7;102:0..7 | every history of 4 (thorough 5) operations among registering (singly, multiply and virtually inheriting implementations, shared instances, any constructor argument), unregistering and looking up three interfaces; nothing outlives its last use
ENTRY(H_loc_history) {
  auto& l = tc::sdk::service_locator::instance(); bool ra = false, rb = false, rc = false; uint32_t a = 0, b = 0, c = 0; std::shared_ptr<B> held; uint32_t heldv = 0;
  for (int k = 0; k < (vf::thorough() ? 5 : 4); k++) {
    const uint32_t v = vf::any<uint32_t>("v");
    switch (k < 2 ? (int)vf::param(k) : vf::choose(8, "operation")) {
      case 0: CHECK((l.register_service<A, One>(v)) == !ra, "registering succeeds exactly once"); if (!ra) { ra = true; a = v; } break;
      case 1: CHECK((l.register_service<A, Two>(v)) == !ra, "registering succeeds exactly once"); if (!ra) { ra = true; a = v + 1; } break;
      case 2: CHECK((l.register_service<B, Two>(v)) == !rb, "registering succeeds exactly once"); if (!rb) { rb = true; b = v + 2; } break;
      case 3: CHECK((l.register_service<C, Virt>(v, std::string("xyz"))) == !rc, "registering succeeds exactly once"); if (!rc) { rc = true; c = v + 8; } break;
      case 4: CHECK((l.register_instance<B>(std::make_shared<Virt>(v, "xy"))) == !rb, "registering succeeds exactly once"); if (!rb) { rb = true; b = v + 6; } break;
      case 5: CHECK(l.unregister<A>() == ra, "unregistering succeeds exactly when registered"); ra = false; break;
      case 6: if (rb) { held = l.get<B>(); heldv = b; } CHECK(l.unregister<B>() == rb, "unregistering succeeds exactly when registered"); rb = false; break;
      default: CHECK(l.unregister<C>() == rc, "unregistering succeeds exactly when registered"); rc = false;
    }
    CHECK(l.is_registered<A>() == ra && l.is_registered<B>() == rb && l.is_registered<C>() == rc, "registered exactly the interfaces registered");
    const auto pa = l.get<A>(); const auto pb = l.get<B>(); const auto pc = l.get<C>(); CHECK(!!pa == ra && !!pb == rb && !!pc == rc, "a lookup yields a service exactly when one is registered");
    if (pa) CHECK(pa->a() == a, "the service first registered for this interface"); if (pb) CHECK(pb->b() == b, "the service first registered for this interface"); if (pc) CHECK(pc->c() == c && pc->state == 5, "the service first registered for this interface"); CHECK(l.get<A>() == pa, "lookups yield the same object"); if (held) { CHECK(held->b() == heldv, "a service obtained stays alive while held"); COVER("held"); }
  }
  l.unregister<A>(); l.unregister<B>(); l.unregister<C>(); CHECK(alive == (held ? 1 : 0), "an unregistered service lives only while held"); held.reset(); CHECK(alive == 0, "an unregistered service lives only while held"); COVER("done");
}

namespace {
struct got { int n = 0; std::string msg; int sig = 0; };
bool is_sig(int k, const got& g) { return k == 0 ? g.sig == SIGINT && g.msg == "SIGINT" : k == 1 ? g.sig == SIGABRT && g.msg == "SIGABRT" : g.sig == SIGTERM && g.msg == "SIGTERM"; }
const int sigs[3] = {SIGINT, SIGABRT, SIGTERM};
}
//@ C21 H_sig_history split=101:0..3;102:0..3 | every history of 4 (thorough 6) operations among raising each handled signal and quitting with any number and message, each followed by a wait: callback once with name and number, waiter released once
ENTRY(H_sig_history) {
  got g; tc::sdk::install_signal_handlers([&](const char* m, int s) { g.n++; g.msg = m; g.sig = s; });
  for (int k = 0; k < (vf::thorough() ? 6 : 4); k++) {
    const int op = k < 2 ? (int)vf::param(k) : vf::choose(4, "operation"); const int v = vf::any<int>("number"); const std::string t = vf::text(k, "message"); for (char z : t) vf::assume(z != 0);
    if (op < 3) { CHECK(std::raise(sigs[op]) == 0, "raised"); CHECK(is_sig(op, g), "the callback gets the signal's name and number"); } else { tc::sdk::quit(t.c_str(), v); CHECK(g.msg == t && g.sig == v, "the callback gets the given message and number"); }
    CHECK(g.n == k + 1, "called exactly once"); tc::sdk::wait_for_quit(); 
  }
  CHECK(g.n == (vf::thorough() ? 6 : 4), "waiting does not call"); COVER("done");
}
//@ C21 H_sig_wait cfg=6:1 split=101:0..3 | a waiting thread and a signal or quit, every interleaving: it continues only after the callback ran, and never without one
ENTRY(H_sig_wait) {
  got g; tc::sdk::install_signal_handlers([&](const char* m, int s) { vf::ghost gh; g.n++; g.msg = m; g.sig = s; }); const int op = (int)vf::param(); int seen = -1; std::thread w([&] { tc::sdk::wait_for_quit(); vf::ghost gh; seen = g.n; });
  if (vf::choose(2, "let it wait")) { __tc_quiesce(0); CHECK(seen == -1, "a waiter does not continue before a quit"); COVER("waited first"); }
  if (op < 3) std::raise(sigs[op]); else tc::sdk::quit("bye", 77); w.join(); CHECK(seen == 1, "released after the callback"); CHECK(op < 3 ? is_sig(op, g) : g.sig == 77 && g.msg == "bye", "with this signal");
  std::thread w2([&] { vf::ghost gh; seen = -1; tc::sdk::wait_for_quit(); seen = 2; }); __tc_quiesce(0); CHECK(seen == -1, "one quit releases one wait"); tc::sdk::quit("again"); w2.join(); CHECK(seen == 2 && g.n == 2 && g.sig == 0, "the signal number defaults to zero");
}
//@ C21 H_sig_none | quit and every handled signal with no callback installed, or an empty one: the waiter continues; a callback installed later replaces the earlier one
ENTRY(H_sig_none) {
  const int how = vf::choose(3, "callback"); int old = 0; if (how == 1) tc::sdk::install_signal_handlers(); if (how == 2) tc::sdk::install_signal_handlers(nullptr);
  tc::sdk::quit("x", vf::any<int>("number")); tc::sdk::wait_for_quit(); if (how) for (int s : sigs) { std::raise(s); tc::sdk::wait_for_quit(); }
  tc::sdk::install_signal_handlers([&](const char*, int) { old++; }); int cur = 0; tc::sdk::install_signal_handlers([&](const char*, int) { cur++; }); std::raise(sigs[vf::choose(3, "signal")]); tc::sdk::wait_for_quit(); CHECK(cur == 1 && old == 0, "the callback installed last is called"); COVER("done");
}
