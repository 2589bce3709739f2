// C09..C12: task_scheduler.  Time is virtual and symbolic.
//! mode=ir
#include "vf.h"
#include <memory>
#include <teiacare/sdk/task_scheduler.hpp>
#include <chrono>
#include <semaphore>
#include <string>
#include <thread>
#include <cstring>

namespace {
using sched = tc::sdk::task_scheduler; using dur = tc::sdk::clock::duration; using tpt = tc::sdk::clock::time_point;
constexpr int64_t BIG = 1ll << 40;
tpt at_(int64_t ns) { return tpt(dur(ns)); }
template <class T> bool broken(std::future<T>& f) { try { f.get(); } catch (const std::future_error& e) { return e.code() == std::future_errc::broken_promise; } return false; }
void wait_until(int64_t t) { if (t > vf::now()) vf::sleep_until(t); __tc_quiesce(0); }
}

//@ C09 H_s_oneshot cfg=1:2;2:5000;10:2;7:1;11:1 tcfg=1:2;2:5000;10:4;7:1;11:2 | two one-shot tasks with any due time or delay up to 18 minutes, past or future, the second added any time later, wake-ups late by up to 5 us: run once each, not early, futures yield
ENTRY(H_s_oneshot) {
  sched s; CHECK(s.start(1), "starts"); const int64_t b = vf::now(); int64_t ran[2] = {-1, -1}; int n[2] = {0, 0}; const bool via_in = vf::choose(2, "delay"); const int v = (int)vf::any<uint16_t>("v");
  const int64_t d0 = vf::range(-100000, BIG, "due0"), d1 = vf::range(-100000, BIG, "due1"), gap = vf::range(0, BIG, "gap");
  auto f = [&](int k) { vf::ghost g; n[k]++; ran[k] = vf::now(); return v + k; };
  auto a = via_in ? s.in(dur(d0), [&] { return f(0); }) : s.at(at_(b + d0), [&] { return f(0); });
  vf::sleep_until(b + gap); auto c = s.at(at_(b + d1), [&] { return f(1); }); CHECK(a.has_value() && c.has_value(), "added");
  CHECK(c->get() == v + 1, "the future yields the result"); CHECK(a->get() == v, "the future yields the result");
  const int64_t lim0 = d0 > 0 ? d0 : 0, lim1 = d1 > gap ? d1 : gap;
  CHECK(ran[0] >= b + lim0 && ran[1] >= b + lim1, "never early"); CHECK(ran[0] <= b + lim0 + 20000 && ran[1] <= b + lim1 + 20000, "not late beyond the wake-up latencies");
  CHECK(s.tasks_size() == 0, "nothing pending"); wait_until(b + 4 * BIG); CHECK(n[0] == 1 && n[1] == 1, "each runs exactly once");
  if (d1 < d0 && gap < d1) COVER("second overtakes first"); if (gap > d0) COVER("first ran before"); if (d1 < 0) COVER("past due time"); if (d0 == d1) COVER("same due time");
}
//@ C09 H_s_order cfg=1:2;7:1;11:1 split=101:0..2 | three (thorough: four) one-shot tasks with any due times up to 18 minutes ahead added together, woken exactly: each runs at its due time
ENTRY(H_s_order) {
  sched s; s.start(1); const int64_t b = vf::now(); const int N = vf::thorough() ? 4 : 3; int64_t d[4], ran[4]; int n = 0, c[4] = {0, 0, 0, 0}; for (int k = 0; k < N; k++) d[k] = vf::range(0, BIG, "due");
  const int pick = (int)vf::param(); vf::assume(pick == 0 ? d[0] < d[1] : pick == 1 ? d[0] == d[1] : d[0] > d[1]);
  for (int k = 0; k < N; k++) CHECK(s.at(at_(b + d[k]), [&, k] { vf::ghost g; ran[k] = vf::now(); c[k]++; n++; }).has_value(), "added");
  CHECK(s.tasks_size() <= (size_t)N, "pending"); wait_until(b + 2 * BIG); CHECK(n == N && s.tasks_size() == 0, "all ran");
  for (int k = 0; k < N; k++) CHECK(c[k] == 1 && ran[k] == b + d[k], "each ran once, at its due time"); COVER("done");
}
//@ C09 H_s_add_any_time cfg=1:1;12:3;7:1;11:3;8:1 tcfg=1:1;12:4;7:1;11:4;8:1 | a task added while another is pending, every interleaving (quick 2, thorough 3 preemptions) of the addition with the scheduling thread, time passing at any point, data races checked: both run
ENTRY(H_s_add_any_time) {
  sched s; s.start(1); const int64_t b = vf::now(); int n[2] = {0, 0};
  auto a = s.at(at_(b + 5000), [&] { n[0]++; }); auto c = s.at(at_(b + 1000), [&] { n[1]++; }); c->get(); a->get(); CHECK(n[0] == 1 && n[1] == 1, "both ran once"); CHECK(s.stop(), "stops"); CHECK(n[0] == 1 && n[1] == 1, "both ran once"); COVER("done");
}
//@ C09 H_s_arguments cfg=1:2;7:1;11:1 | arguments of every value, changed after scheduling, all ways of adding a one-shot task: copies are passed, exceptions reach the future
ENTRY(H_s_arguments) {
  sched s; s.start(1); const uint32_t v = vf::any<uint32_t>("v"); const std::string x = std::string(16, 'a') + vf::text(1, "s"); uint32_t w = v; std::string y = x; const int64_t b = vf::now();
  auto f = [](uint32_t a, const std::string& t) { return t + (char)(a & 127); };
  auto p = s.in(dur(10), f, w, y), q = s.at(at_(b + 20), f, w, y), r = s.in("in", dur(30), f, w, y), t = s.at("at", at_(b + 40), f, w, y); auto e = s.in(dur(50), [v]() -> int { throw v; });
  w++; y += 'b'; const std::string want = x + (char)(v & 127); CHECK(p->get() == want && q->get() == want && r->get() == want && t->get() == want, "called with the arguments given"); bool ok = false; try { e->get(); } catch (uint32_t z) { ok = z == v; } CHECK(ok, "the future reports the exception thrown"); COVER("done");
}

namespace {
struct log_ { int64_t at[8]; int n = 0; void operator()() { vf::ghost g; if (n < 8) at[n] = vf::now(); n++; } };
}
//@ C10 H_s_grid cfg=1:2;7:1;11:1 | a recurring task with any interval from 1 us to 18 minutes and any initial delay, woken exactly: runs at each of the first four (thorough six) multiples
ENTRY(H_s_grid) {
  sched s; s.start(1); log_ l; const int64_t b = vf::now(), i = vf::range(1000, BIG, "interval"), d = vf::range(0, BIG, "delay"); const int N = vf::thorough() ? 6 : 4; const bool delayed = vf::choose(2, "delayed");
  if (delayed) CHECK(s.every("x", dur(i), dur(d), std::ref(l)), "added"); else CHECK(s.every("x", dur(i), std::ref(l)), "added");
  const int64_t f = b + (delayed ? d : 0); vf::sleep_until(f + (N - 1) * i + 1); __tc_quiesce(0); CHECK(l.n == N, "once per multiple"); for (int k = 0; k < N; k++) CHECK(l.at[k] == f + k * i, "at the multiples of the interval"); CHECK(s.remove_task("x"), "still pending"); wait_until(f + 2 * N * BIG); CHECK(l.n == N, "never again once removed"); if (delayed) COVER("delayed"); else COVER("at once");
}
//@ C10 H_s_late cfg=1:2;2:5000;10:3;7:1;11:1 tcfg=1:2;2:9000;10:4;7:1;11:1 | a recurring task with any interval of 1..3 us, three (thorough four) wake-ups late by up to 5 (thorough 9) us: no run before its multiple, multiples never shared, lateness does not shift the grid
ENTRY(H_s_late) {
  sched s; s.start(1); log_ l; const int64_t b = vf::now(), i = vf::range(1000, 3000, "interval"); std::binary_semaphore done(0); const int N = 4;
  s.every("x", dur(i), [&] { const int k = l.n; l(); if (k + 1 == N) { s.remove_task("x"); done.release(); } }); done.acquire();
  // at most k runs before the k-th multiple after the first; run k is at or after b + k*i, and no multiple is used twice: the k-th run happens at some multiple m_k >= k with m increasing
  for (int k = 0; k < N; k++) CHECK(l.at[k] >= b + k * i, "at most one run per multiple"); CHECK(l.n >= N, "it keeps running"); if (l.at[3] > b + 5 * i) COVER("late"); if (l.at[3] == b + 3 * i) COVER("exact");
}
//@ C10 H_s_regrid cfg=1:2;2:5000;10:1;7:1;11:1 | a recurring task with any interval of 2..3 us with one wake-up late by up to 5 us: afterwards it is back on its grid
ENTRY(H_s_regrid) {
  sched s; s.start(1); log_ l; const int64_t b = vf::now(), i = vf::range(2000, 3000, "interval"); s.every("x", dur(i), std::ref(l)); vf::sleep_until(b + 11000); __tc_quiesce(0); s.stop();
  CHECK(l.n >= 3, "it keeps running"); int late = 0; for (int k = 0; k < l.n && k < 8; k++) { const int64_t o = l.at[k] - b; int64_t m = 0; while (m <= 5 && (m + 1) * i <= o) m++; if (o != m * i) late++; } CHECK(late <= 1, "a late run does not shift the grid"); if (late) COVER("late"); else COVER("on time");
}
//@ C10 H_s_disable cfg=1:2;7:1;11:1 | a recurring task with any interval disabled and enabled again at any two instants within three intervals: runs exactly at the multiples outside
ENTRY(H_s_disable) {
  sched s; s.start(1); log_ l; const int64_t b = vf::now(), i = vf::range(1000, BIG, "interval"), x = vf::range(0, 4 * BIG, "disable"), y = vf::range(0, 4 * BIG, "enable"); vf::assume(x <= y && y <= 3 * i + i / 2);
  s.every("x", dur(i), std::ref(l)); __tc_quiesce(0); wait_until(b + x); CHECK(s.set_enabled("x", false), "disables"); CHECK(!s.is_enabled("x") && s.is_scheduled("x"), "disabled and still scheduled"); wait_until(b + y); CHECK(s.set_enabled("x", true) && s.is_enabled("x"), "enables"); wait_until(b + 5 * i - 1);
  int want = 0; for (int k = 0; k < 5; k++) { const bool off = x < k * i && k * i <= y; if (!off) { CHECK(want < l.n && l.at[want] == b + k * i, "runs at the multiples at which it is enabled"); want++; } } CHECK(l.n == want, "and at no other"); if (want == 5) COVER("none skipped"); if (want == 2) COVER("three skipped");
}
//@ C10 H_s_retime cfg=1:2;7:1;11:1 | a recurring task with any interval whose interval is changed to any other at any instant within three intervals (multiples included): the new one applies from the previous due time, skipping what passed
ENTRY(H_s_retime) {
  sched s; s.start(1); log_ l; const int64_t b = vf::now(), i = vf::range(1000, BIG, "interval"), j = vf::range(1000, BIG, "new interval"), x = vf::range(0, 4 * BIG, "when"); vf::assume(x <= 2 * i && x <= 4 * j);
  s.every("x", dur(i), std::ref(l)); __tc_quiesce(0); wait_until(b + x); const int n = l.n; CHECK(n >= 1 && n <= 3 && (n - 1) * i <= x && x < n * i, "ran at the multiples so far"); const int64_t base = b + (n - 1) * i; CHECK(s.update_interval("x", dur(j)), "updated"); CHECK(s.get_interval("x").value() == dur(j), "reported"); int m = 1; while (m <= 5 && base + m * j < b + x) m++;
  wait_until(base + (m + 1) * j); CHECK(l.n == n + 2 && l.at[n] == base + m * j && l.at[n + 1] == base + (m + 1) * j, "the new interval counts from the previous due time"); if (m > 1) COVER("skipping"); if (x == 0) COVER("at the first run");
}
//@ C10 H_s_two cfg=1:2;7:1;11:1 split=101:0..1 | two recurring tasks with any intervals and delays, woken exactly: each keeps its own grid
ENTRY(H_s_two) {
  sched s; s.start(1); log_ l, r; const int64_t b = vf::now(), i = vf::range(1000, 4000, "i"), j = vf::range(1000, 4000, "j"); vf::assume(vf::param() ? i <= j : i > j); s.every("x", dur(i), dur(1000), std::ref(l)); s.every("y", dur(j), dur(1000), std::ref(r)); vf::sleep_until(b + 6000); __tc_quiesce(0); s.stop();
  for (int k = 0; k < 8; k++) { CHECK(k < l.n ? l.at[k] == b + 1000 + k * i : 1000 + k * i > 6000, "grid of the first"); CHECK(k < r.n ? r.at[k] == b + 1000 + k * j : 1000 + k * j > 6000, "grid of the second"); } COVER("done");
}

namespace {
std::string id(int k) { return k ? "b" : "a"; }
struct entry { bool in = false, en = false, rec = false; int64_t iv = 0; };
}
//@ C11 H_s_registry cfg=1:0;7:1;11:1 split=101:0..6;102:0..6 | every history of 4 (thorough 5) operations among adding (one-shot or recurring, due in hours), removing, disabling, enabling, re-timing two identifiers, and adding untagged tasks, with any intervals: all answers are those of the history
ENTRY(H_s_registry) {
  sched s; s.start(1); entry m[2]; size_t untagged = 0; const int64_t H = 3600ll * 1000000000; auto f = [] { };
  for (int k = 0; k < (vf::thorough() ? 5 : 4); k++) {
    const int op = k < 2 ? (int)vf::param(k) : vf::choose(7, "operation"); const int w = k == 0 ? 0 : op == 6 ? 0 : vf::choose(2, "identifier"); entry& e = m[w];
    switch (op) {
      case 0: { const bool ok = s.in(id(w), dur(H), f).has_value(); CHECK(ok == !e.in, "adding is refused exactly for a pending identifier"); if (ok) { e = entry(); e.in = e.en = true; } break; }
      case 1: { const int64_t iv = vf::range(H, 2 * H, "interval"); const bool ok = s.every(id(w), dur(iv), dur(H), f); CHECK(ok == !e.in, "adding is refused exactly for a pending identifier"); if (ok) { e.in = e.en = e.rec = true; e.iv = iv; } break; }
      case 2: CHECK(s.remove_task(id(w)) == e.in, "removing succeeds exactly for a pending identifier"); e = entry(); break;
      case 3: CHECK(s.set_enabled(id(w), false) == e.in, "disabling succeeds exactly for a pending identifier"); if (e.in) e.en = false; break;
      case 4: CHECK(s.set_enabled(id(w), true) == e.in, "enabling succeeds exactly for a pending identifier"); if (e.in) e.en = true; break;
      case 5: { const int64_t iv = vf::range(H, 2 * H, "new interval"); CHECK(s.update_interval(id(w), dur(iv)) == e.rec, "re-timing succeeds exactly for a recurring identifier"); if (e.rec) e.iv = iv; break; }
      default: CHECK(s.in(dur(H), f).has_value(), "untagged tasks are always added"); untagged++;
    }
    for (int q = 0; q < 2; q++) { const auto g = s.get_interval(id(q)); CHECK(s.is_scheduled(id(q)) == m[q].in, "scheduled exactly while pending"); CHECK(s.is_enabled(id(q)) == m[q].en, "enabled as last set"); CHECK(g.has_value() == m[q].rec && (!g || g->count() == m[q].iv), "interval as last set"); }
    CHECK(s.tasks_size() == untagged + m[0].in + m[1].in, "size is the number of pending tasks");
  }
  if (m[0].in && m[1].in) COVER("both"); if (!m[0].in && !m[1].in) COVER("none"); 
}
//@ C11 H_s_identifiers cfg=1:0;7:1;11:1 | two different identifiers of 1..16 arbitrary characters (long ones differing anywhere): separate tasks
ENTRY(H_s_identifiers) {
  sched s; s.start(1); const size_t n = vf::choose(2, "long") ? 16 : 1 + vf::choose(3, "length"); std::string a = vf::text(n, "a"), b = vf::text(n, "b"); bool diff = false; for (size_t k = 0; k < n; k++) diff |= a[k] != b[k]; vf::assume(diff); const int64_t H = 3600ll * 1000000000;
  CHECK(s.in(std::string(a), dur(H), [] { }).has_value(), "first added"); CHECK(!s.is_scheduled(b), "the other identifier is not scheduled"); CHECK(s.in(std::string(b), dur(H), [] { }).has_value(), "a different identifier is added"); CHECK(s.remove_task(b), "removed"); CHECK(s.is_scheduled(a) && !s.is_scheduled(b), "only that one"); COVER("done");
}
//@ C11 H_s_colliding cfg=1:0;7:1;11:1 | two fixed identifiers with the same std::hash value (MurmurHash64A collision) and any interval: separate tasks
ENTRY(H_s_colliding) {
  sched s; s.start(1); const int64_t H = 3600ll * 1000000000, iv = vf::range(H, 2 * H, "interval");
  const size_t mul = 0xc6a4a7935bd1e995ull; size_t inv = mul; for (int k = 0; k < 6; k++) inv *= 2 - mul * inv; auto mix = [](size_t v) { return v ^ (v >> 47); };
  auto other = [&](size_t v) { size_t w = (mix(v * mul) * mul) ^ (1ull << 63); w = mix(w * inv) * inv; return w; };
  size_t p[2] = {0x6867666564636261ull, 0x706f6e6d6c6b6a69ull}, q[2] = {other(p[0]), other(p[1])}; const std::string a((char*)p, 16), b((char*)q, 16); vf::assume(a != b);
  if (std::hash<std::string>()(a) == std::hash<std::string>()(b)) COVER("collision");
  CHECK(s.every(std::string(a), dur(iv), dur(H), [] { }), "first added"); CHECK(!s.is_scheduled(b), "the other identifier is not scheduled"); CHECK(s.every(std::string(b), dur(H), dur(H), [] { }), "a different identifier is added"); CHECK(s.get_interval(a)->count() == iv, "the first keeps its interval");
}
//@ C11 H_s_removed cfg=1:1;12:2;7:1;11:3 tcfg=1:1;12:3;7:1;11:0 | a task removed at any point while it becomes due, up to 2 (thorough any number of) preemptions: if the removal came first it never runs; the identifier is free again
ENTRY(H_s_removed) {
  sched s; s.start(1); int n = 0, m = 0; auto f = s.in("x", dur(1000), [&] { vf::ghost g; n++; }); const bool r = s.remove_task("x"); const int k = n; __tc_quiesce(0); if (r) { CHECK(n == 0 && k == 0, "a removed task never runs"); CHECK(broken(*f), "its future is broken"); COVER("removed"); } else { CHECK(n == 1, "it ran"); COVER("ran"); }
  auto g = s.in("x", dur(1000), [&] { vf::ghost gh; m++; }); CHECK(g.has_value(), "the identifier is free again"); g->get(); CHECK(m == 1, "the new task runs");
}
//@ C11 H_s_two_adders cfg=1:0;7:1;11:3;8:1 tcfg=1:0;7:1;11:0;8:1 | two threads adding the same identifier at once, up to two (thorough any number of) preemptions, data races checked: exactly one succeeds
ENTRY(H_s_two_adders) {
  sched s; s.start(1); const int64_t H = 3600ll * 1000000000; bool a = false; std::thread t([&] { a = s.in("x", dur(H), [] { }).has_value(); }); const bool b = s.every("x", dur(H), dur(H), [] { }); t.join(); CHECK(a != b, "exactly one of two concurrent additions succeeds"); CHECK(s.tasks_size() == 1, "one task"); CHECK(s.get_interval("x").has_value() == b, "the one that succeeded"); if (a) COVER("one-shot"); else COVER("recurring");
}
//@ C11 H_s_not_running cfg=1:0;7:1;11:1 | all ways of adding a task before start and after stop: refused without effect
ENTRY(H_s_not_running) {
  sched s; int n = 0; const int64_t d = vf::range(0, 1000, "delay"); if (vf::choose(2, "stopped")) { s.start(1); s.stop(); COVER("stopped"); } else COVER("never started"); auto f = [&] { n++; }; auto g = [&](int) { n++; };
  CHECK(!s.in(dur(d), f) && !s.at(at_(vf::now() + d), f) && !s.every(dur(1000), f) && !s.in("x", dur(d), g, 1) && !s.at("x", at_(vf::now() + d), g, 1) && !s.every("x", dur(1000), g, 1) && !s.every("x", dur(1000), dur(d), g, 1), "adding is refused"); CHECK(s.tasks_size() == 0 && !s.is_scheduled("x"), "nothing pending"); s.start(1); __tc_quiesce(0); CHECK(n == 0 && s.tasks_size() == 0, "nothing runs later");
}

//@ C12 H_s_stop cfg=1:0;7:1;11:0;8:1 tcfg=1:0;7:2;11:0;8:1 split=101:0..2 | stop right after start with nothing, a one-shot or a recurring task pending in hours, any number of preemptions (thorough: two pool threads), data races checked: returns without time passing, nothing pending, restarts
ENTRY(H_s_stop) {
  sched s; CHECK(s.start(2), "starts"); const int64_t H = 3600ll * 1000000000, b = vf::now(); int n = 0; if (vf::param() == 1) s.in("x", dur(H), [&] { n++; }); if (vf::param() == 2) s.every("x", dur(H), dur(H), [&] { n++; });
  CHECK(s.stop(), "stops"); CHECK(vf::now() == b, "without waiting for a due time"); CHECK(s.tasks_size() == 0 && !s.is_scheduled("x"), "nothing is pending"); CHECK(!s.stop(), "stopping a stopped scheduler is refused"); COVER("done");
}
//@ C12 H_s_stop_due cfg=1:1;12:2;7:1;11:4 tcfg=1:1;12:3;7:1;11:0 split=101:0..1 | stop while a one-shot or recurring task becomes due at any point, up to 3 (thorough any number of) preemptions: nothing runs afterwards, also after a restart
ENTRY(H_s_stop_due) {
  sched s; s.start(1); int n = 0; std::optional<std::future<void>> f; if (vf::param()) s.every("x", dur(1000), dur(1000), [&] { vf::ghost g; n++; }); else f = s.in("x", dur(1000), [&] { vf::ghost g; n++; });
  CHECK(s.stop(), "stops"); const int k = n; CHECK(s.tasks_size() == 0, "nothing is pending"); CHECK(s.start(1), "starts again"); auto g = s.in("y", dur(10), [&] { }); g->get(); __tc_quiesce(0); CHECK(n == k, "no earlier task runs after stop returned"); if (k) COVER("ran"); else COVER("discarded"); if (f && !k) { s.stop(); CHECK(f->wait_for(std::chrono::seconds(0)) == std::future_status::ready && broken(*f), "the future of a discarded task is broken"); }
}
//@ C12 H_s_stop_instant cfg=1:2;7:1;11:1 | stop or destruction at any instant while a one-shot and a recurring task with any due times are pending: returns at once, nothing runs afterwards
ENTRY(H_s_stop_instant) {
  int n = 0; const int64_t b = vf::now(), x = vf::range(0, BIG, "when"), d = vf::range(0, BIG, "due"), i = vf::range(1000, BIG, "interval"); vf::assume(x <= 3 * i); const bool destroy = vf::choose(2, "destroy");
  { sched s; s.start(1); s.in(dur(d), [&] { vf::ghost g; n++; }); s.every("x", dur(i), dur(i), [&] { vf::ghost g; n++; }); vf::sleep_until(b + x); if (!destroy) { CHECK(s.stop(), "stops"); const int k = n; CHECK(vf::now() == b + x, "at once"); CHECK(s.tasks_size() == 0, "nothing is pending"); wait_until(b + 8 * BIG); CHECK(n == k, "nothing runs afterwards"); COVER("stopped"); } }
  const int k = n; wait_until(vf::now() + 8 * BIG); CHECK(n == k, "nothing runs afterwards"); if (destroy) COVER("destroyed");
}
//@ C12 H_s_stop_add cfg=1:0;7:1;11:4 tcfg=1:0;7:1;11:0 | a task being added while another thread stops the scheduler, up to 3 (thorough any number of) preemptions: nothing is pending afterwards, restart forgets it
ENTRY(H_s_stop_add) {
  sched s; s.start(1); int n = 0; std::optional<std::future<void>> f; std::thread t([&] { f = s.in("x", dur(1000), [&] { vf::ghost g; n++; }); }); CHECK(s.stop(), "stops"); t.join(); CHECK(s.tasks_size() == 0, "nothing is pending"); CHECK(s.start(1), "starts again"); CHECK(!s.is_scheduled("x"), "no memory of earlier tasks"); if (f) { CHECK(broken(*f), "the future of a discarded task is broken"); COVER("added"); } else COVER("refused"); CHECK(n == 0, "nothing ran");
}
//@ C12 H_s_history cfg=1:2;7:1;11:1 split=101:0..7 | every history of 3 (thorough 4) operations among start, stop, adding a task due soon, and letting its time pass
ENTRY(H_s_history) {
  sched s; bool run = false; int n = 0, pend = 0, want = 0; for (int k = 0; k < (vf::thorough() ? 5 : 4); k++) { const int op = k == 0 ? (int)(vf::param() >> 2) : k == 1 ? (int)(vf::param() & 3) : vf::choose(4, "operation");
    switch (op) { case 0: CHECK(s.start((unsigned)vf::any<uint8_t>("threads")) == !run, "start succeeds exactly when stopped"); run = true; break; case 1: CHECK(s.stop() == run, "stop succeeds exactly when running"); run = false; pend = 0; break;
      case 2: CHECK(s.in(dur(1000), [&] { vf::ghost g; n++; }).has_value() == run, "adding succeeds exactly when running"); if (run) pend++; break; default: wait_until(vf::now() + 2000); want += pend; pend = 0; }
    CHECK(s.tasks_size() == (size_t)pend, "pending tasks are those added since the start and not yet due"); CHECK(n == want, "the tasks due while running ran"); }
  if (run) COVER("running"); else COVER("stopped");
}
//@ C12 H_s_stop_busy cfg=1:2;7:1;11:2 | stop while the pool runs a task of any duration and another one is due behind it: waits for the running one at most
ENTRY(H_s_stop_busy) {
  sched s; s.start(1); const int64_t b = vf::now(), d = vf::range(0, BIG, "duration"), x = vf::range(0, BIG, "when"); int n = 0; int64_t end = 0; s.in(dur(1000), [&] { vf::sleep_until(vf::now() + d); vf::ghost g; end = vf::now(); }); auto f = s.in(dur(1500), [&] { vf::ghost g; n++; }); vf::sleep_until(b + x);
  CHECK(s.stop(), "stops"); const int64_t e = vf::now(); CHECK(e == b + x || e == end, "waits for the running task at most"); const int k = n; CHECK(s.start(1), "restarts"); wait_until(e + 2 * BIG); CHECK(n == k, "a task discarded by stop never runs"); if (k) { f->get(); COVER("second ran"); } else { CHECK(broken(*f), "broken"); COVER("second discarded"); }
}
