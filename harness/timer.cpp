// C16, C17: high_precision_timer.  Time is virtual and symbolic: intervals, callback durations and wake-up latencies are solver variables.
//! mode=ir
#include "vf.h"
#include <teiacare/sdk/high_precision_timer.hpp>
#include <chrono>
#include <semaphore>
#include <thread>

namespace {
using timer = tc::sdk::high_precision_timer; using dur = tc::sdk::clock::duration;
struct call { int64_t at, end; uint64_t seen; };     // start, end, ticks accounted for when it started
struct log_ { call c[6]; int n = 0; };
// times n*step <= x and x <= n*step for a small concrete n
bool at_least(int64_t x, uint64_t n, int64_t step) { return n <= 64 && x >= (int64_t)n * step; }
// The ticks are s+i, s+2i, ...  At the start of each call: not before the tick it stands for, and every tick strictly
// before the last accounting was counted.
void check_calls(const log_& l, int64_t lo, int64_t hi, int64_t i) {
  vf::ghost g;
  for (int k = 0; k < l.n; k++) {
    const call& c = l.c[k];
    CHECK(at_least(c.at - lo, (uint64_t)k + 1, i), "the k-th call is not before the k-th tick");
    CHECK(at_least(c.at - lo, c.seen + 1, i), "a call is not before the tick it stands for");
    CHECK(c.seen <= 64, "the counters add up to a number of ticks"); if (k) { const call& p = l.c[k - 1]; CHECK(c.seen > p.seen, "each call stands for a tick of its own"); CHECK(p.end - hi <= (int64_t)(c.seen + 1) * i, "every tick before the accounting is counted as invoked or missed"); }
  }
}
}

//@ C16 H_t_ticks cfg=1:2;2:4000;10:2;11:1 tcfg=1:2;2:4000;10:3;11:1 | 2 (thorough 3) calls, every interval from 1 us to 18 minutes, every callback duration up to three intervals (exact multiples included), two (thorough 3) wake-ups late by anything up to four microseconds, no preemption
ENTRY(H_t_ticks) {
  timer t; log_ l; const int64_t i = vf::range(1000, 1ll << 40, "interval"); const int n = vf::thorough() ? 3 : 2; uint64_t more = 0; std::binary_semaphore done(0); const int64_t s = vf::now();
  t.set_callback([&] { const int k = l.n; const int64_t now = vf::now(); const uint64_t seen = t.invoked_callback_count() + t.missed_callback_count(); if (k >= n) { vf::ghost g; more++; CHECK(seen > l.c[n - 1].seen && l.c[n - 1].end - s <= (int64_t)(seen + 1) * i, "every tick before the accounting is counted as invoked or missed"); l.c[n - 1].end = now; return; }
    const int64_t d = vf::range(0, 3ll << 40, "duration"); vf::assume(d <= 3 * i); l.c[k].at = now; l.c[k].seen = seen; vf::sleep_until(now + d); l.c[k].end = vf::now(); l.n = k + 1; if (l.n == n) done.release(); });
  CHECK(t.start(dur(i)), "starts"); done.acquire(); t.stop(); const int64_t e = vf::now(); check_calls(l, s, s, i);
  const uint64_t inv = t.invoked_callback_count(), mis = t.missed_callback_count(); CHECK(inv == n + more, "the invocations are counted");
  CHECK(mis <= 64 && at_least(e - s, inv + mis, i), "no tick in the future is counted"); CHECK(l.c[n - 1].end - s <= (int64_t)(inv + mis + 1) * i, "every tick before the last accounting is counted"); CHECK(inv + mis > l.c[n - 1].seen, "the tick of the last call is counted");
  if (mis == 0) COVER("none missed"); if (mis > 3) COVER("several missed");
}
//@ C16 H_t_on_time cfg=1:2 | 4 (thorough 6) calls taking any time below the interval, no latency: one call at every tick, none missed
ENTRY(H_t_on_time) {
  timer t; log_ l; const int64_t i = vf::range(1000, 1ll << 40, "interval"); const int n = vf::thorough() ? 6 : 4; std::binary_semaphore done(0);
  t.set_callback([&] { const int k = l.n; if (k >= n) return; const int64_t d = vf::range(0, 1ll << 40, "duration"); vf::assume(d < i); l.c[k].at = vf::now(); vf::sleep_until(vf::now() + d); l.n = k + 1; if (l.n == n) done.release(); });
  const int64_t s = vf::now(); t.start(dur(i)); done.acquire(); t.stop();
  for (int k = 0; k < n; k++) CHECK(l.c[k].at == s + (k + 1) * i, "a timer that is never late calls at every tick"); CHECK(t.missed_callback_count() == 0 && t.invoked_callback_count() == (uint64_t)n, "and misses none"); COVER("done");
}
//@ C16 H_t_clock cfg=1:2;3:3000;4:6 | 2 calls, the clock advancing by up to 3 us at each of six readings, so between waking, calling and accounting
ENTRY(H_t_clock) {
  timer t; log_ l; const int64_t i = vf::range(1000, 1ll << 40, "interval"); std::binary_semaphore done(0);
  t.set_callback([&] { const int k = l.n; if (k >= 2) return; l.c[k].at = vf::now(); l.c[k].seen = t.invoked_callback_count() + t.missed_callback_count(); l.c[k].end = l.c[k].at; l.n = k + 1; if (l.n == 2) done.release(); });
  const int64_t s = vf::now(); t.start(dur(i)); const int64_t s2 = vf::now(); done.acquire(); t.stop(); const int64_t e = vf::now(); check_calls(l, s, s2, i);
  const uint64_t sum = t.invoked_callback_count() + t.missed_callback_count(); CHECK(sum <= 64 && at_least(e - s, sum, i), "no tick in the future is counted"); COVER("done");
}
//@ C16 H_t_arguments cfg=1:2 | callback arguments of every value: kept as copies and passed at each of two calls
ENTRY(H_t_arguments) {
  timer t; int n = 0; std::binary_semaphore done(0); const int32_t v = vf::any<int32_t>("v"); const std::string x = std::string(16, 'a') + vf::text(1, "s");
  { int32_t tmp = v; std::string y = x; t.set_callback([&](int32_t w, const std::string& z) { CHECK(w == v && z == x, "the arguments given when the callback was set"); if (++n == 2) done.release(); }, tmp, y); tmp++; y += 'b'; }
  CHECK(t.start(dur(1000000)), "starts"); done.acquire(); t.stop(); CHECK(n == 2, "two calls"); COVER("done");
}
namespace {
int64_t stopping;      // when the stop in progress was requested, -1 when none is
void tick() { vf::ghost g; CHECK(stopping < 0 || vf::now() <= stopping, "stopping does not wait for further ticks"); }
void stop(timer& t) { { vf::ghost g; stopping = vf::now(); } t.stop(); { vf::ghost g; stopping = -1; } }
}
//@ C17 H_t_history cfg=1:2 split=101:0..3 | every history of 3 (thorough 4) operations among set callback, start with an interval, stop, and letting time pass
ENTRY(H_t_history) {
  stopping = -1;
  int n[2] = {0, 0}; bool has = false, run = false; int which = 0; int64_t step = 0, base = 0;
  { timer t;
    for (int k = 0; k < (vf::thorough() ? 4 : 3); k++) {
      switch (k == 0 ? (int)vf::param() : vf::choose(4, "operation")) {
        case 0: if (run) { stop(t); run = false; } which = vf::choose(2, "callback"); t.set_callback([&n, w = which] { tick(); vf::ghost g; n[w]++; }); has = true; break;
        case 1: { const int64_t i = vf::range(1000, 3000, "interval"); const bool ok = t.start(dur(i)); CHECK(ok == has, "starting is refused exactly without a callback"); if (ok) { run = true; step = i; base = vf::now(); n[0] = n[1] = 0; } else CHECK(n[0] + n[1] == 0, "and nothing runs"); break; }
        case 2: { const int64_t at = vf::now(); stop(t); CHECK(vf::now() == at, "stopping does not wait for the next tick"); run = false; break; }
        default: vf::sleep_until(vf::now() + vf::range(0, 3500, "pause")); { vf::ghost g; } __tc_quiesce(0);
      }
      if (run) { const int64_t p = vf::now() - base; const int c = n[which]; CHECK((c == 0 || p >= c * step), "no more calls than ticks"); CHECK(p < (c + 1) * step || p >= 3500 * 4, "every tick that passed was served"); CHECK(n[1 - which] == 0, "only the callback set last runs"); CHECK(t.invoked_callback_count() == (uint64_t)c && t.missed_callback_count() == 0, "starting resets the counters"); if (c) COVER("ticked"); }
      else { const int a = n[0], b = n[1]; vf::sleep_until(vf::now() + 10000); __tc_quiesce(0); CHECK(a == n[0] && b == n[1], "no callback runs while stopped"); }
    }
    stopping = vf::now(); }
  stopping = -1;
  const int a = n[0], b = n[1]; vf::sleep_until(vf::now() + 10000); CHECK(a == n[0] && b == n[1], "no callback runs after destruction"); COVER("done");
}
//@ C17 H_t_stop cfg=1:1;12:3;8:1 tcfg=1:1;12:5;8:1 | stop at any point, with time passing between any two steps (at most 3, thorough 5, wake-ups), every interleaving with the worker, data races checked; then restarted
ENTRY(H_t_stop) {
  timer t; int n = 0; t.set_callback([&] { n++; }); CHECK(t.start(dur(1000)), "starts"); t.stop(); const int k = n; CHECK(t.invoked_callback_count() == (uint64_t)k, "the invocations are counted"); __tc_quiesce(0); CHECK(n == k, "no callback runs after stop returned"); if (k) COVER("called"); else COVER("not called");
  CHECK(t.start(dur(2000)), "starts again"); CHECK(t.invoked_callback_count() <= 5, "with fresh counters"); t.stop(); CHECK(t.invoked_callback_count() == (uint64_t)(n - k), "with fresh counters");
}
//@ C17 H_t_prompt cfg=1:2 | stop or destruction at any instant (before, at, after ticks) for every interval, with two callbacks of any duration up to 2 intervals: returns without waiting for a tick, every interleaving
ENTRY(H_t_prompt) {
  stopping = -1; int n = 0; int64_t busy = 0; const int64_t i = vf::range(1000, 1ll << 40, "interval"), x = vf::range(0, 1ll << 42, "when"), d = vf::range(0, 1ll << 41, "duration"); vf::assume(x <= 2 * i + 500); vf::assume(d <= 2 * i); const bool destroy = vf::choose(2, "destroy");
  { timer t; t.set_callback([&] { if (n >= 4) tick(); if (n < 2) vf::sleep_until(vf::now() + d); vf::ghost g; n++; busy = vf::now(); }); const int64_t s = vf::now(); t.start(dur(i)); vf::sleep_until(s + x); if (destroy) stopping = vf::now(); else { stop(t); CHECK(vf::now() == s + x || vf::now() == busy, "stopping waits for a running callback at most"); const int k = n; t.stop(); vf::sleep_until(vf::now() + 4 * i); CHECK(n == k, "no callback runs after stop returned"); if (k) COVER("called"); } }
  stopping = -1; const int k = n; vf::sleep_until(vf::now() + 4 * i); CHECK(n == k, "no callback runs after destruction"); if (destroy) COVER("destroyed");
}
//@ C17 H_t_restart cfg=1:2 | a running timer started again with another interval at any instant: the old schedule is gone, counters are reset
ENTRY(H_t_restart) {
  timer t; int64_t at[4]; int n = 0; std::binary_semaphore done(0); bool second = false; const int64_t i = vf::range(1000, 1ll << 40, "first"), j = vf::range(1000, 1ll << 40, "second"), x = vf::range(0, 1ll << 42, "when"); vf::assume(x <= 2 * i);
  stopping = -1; t.set_callback([&] { tick(); if (!second) return; if (n < 2) at[n++] = vf::now(); if (n == 2) done.release(); }); const int64_t s = vf::now(); t.start(dur(i)); vf::sleep_until(s + x);
  stop(t); second = true; const int64_t b = vf::now(); CHECK(b == s + x, "stopping does not wait"); CHECK(t.start(dur(j)), "starts again"); CHECK(t.missed_callback_count() == 0, "counters are reset"); done.acquire(); stop(t); CHECK(at[0] == b + j && at[1] == b + 2 * j, "the new schedule starts at the restart"); CHECK(t.invoked_callback_count() >= 2 && t.invoked_callback_count() <= 3, "counters are reset"); COVER("done");
}
//@ C17 H_t_replace cfg=1:2 | start on a running timer, without stop, at any instant: one schedule only, the new one
ENTRY(H_t_replace) {
  timer t; int64_t at[8]; int n = 0; const int64_t i = vf::range(1000, 2000, "first"), j = vf::range(1000, 2000, "second"), x = vf::range(0, 2000, "when");
  t.set_callback([&] { vf::ghost g; if (n < 8) at[n++] = vf::now(); }); const int64_t s = vf::now(); t.start(dur(i)); vf::sleep_until(s + x); CHECK(t.start(dur(j)), "starts"); const int64_t b = vf::now(); CHECK(b == s + x, "starting does not wait"); const int k = n; CHECK(k <= 2, "only the old ticks"); vf::sleep_until(b + 2500); __tc_quiesce(0); t.stop();
  CHECK(n - k >= 1 && n - k <= 2 && at[k] == b + j && (n - k < 2 || at[k + 1] == b + 2 * j), "exactly the new schedule's ticks"); CHECK(t.invoked_callback_count() == (uint64_t)(n - k) && t.missed_callback_count() == 0, "counters are reset"); COVER("done");
}
