// C06, C07: thread_pool.
//! mode=ir
#include "vf.h"
#include <memory>
#include <teiacare/sdk/non_copyable.hpp>
#include <teiacare/sdk/non_moveable.hpp>
#include <teiacare/sdk/task.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <string>
#include <stdexcept>
using pool = tc::sdk::thread_pool;
namespace {
struct boom { uint32_t v; };
template <class T> bool broken(std::future<T>& f) { try { f.get(); } catch (const std::future_error& e) { return e.code() == std::future_errc::broken_promise; } return false; }
int self() { return __tc_thread_self(); }
}

//@ C06 H_p_outcomes cfg=7:2 | pool of 1..2 threads, one task returning a value and one throwing, arbitrary arguments changed after submission, every interleaving
ENTRY(H_p_outcomes) {
  pool p; CHECK(p.start((unsigned)vf::range(1, 2, "threads")), "starts");
  int ran = 0, threw = 0, where = 0; uint32_t a = vf::any<uint32_t>("a"), b = vf::any<uint32_t>("b"); const uint32_t a0 = a, b0 = b;
  auto f = p.run([&](uint32_t x, uint32_t y) { vf::ghost g; ran++; where = self(); return x - y; }, a, b);
  auto e = p.run([&](uint32_t x) -> int { { vf::ghost g; threw++; } throw boom{x}; }, b);
  a = 1; b = 2; bool caught = false; uint32_t got = 0;
  try { e.get(); } catch (const boom& x) { caught = true; got = x.v; }
  CHECK(caught && got == b0, "the future reports the exception thrown"); CHECK(f.get() == a0 - b0, "the future yields the value for the arguments given");
  CHECK(ran == 1 && threw == 1, "each task runs exactly once"); CHECK(where != 0, "on a thread of the pool"); CHECK(p.stop(), "stops"); CHECK(ran == 1 && threw == 1, "each task runs exactly once"); COVER("done");
}
//@ C06 H_p_order cfg=7:4 | pool of one thread, three tasks, the second throwing or not: they run in order of submission, every interleaving
ENTRY(H_p_order) {
  pool p; p.start(1); int log[4], n = 0; const bool bad = vf::any<bool>("throws");
  auto a = p.run([&] { log[n++] = 0; }); auto b = p.run([&] { log[n++] = 1; if (bad) throw boom{1}; }); auto c = p.run([&] { log[n++] = 2; return 7; });
  CHECK(c.get() == 7, "a task after a throwing one completes"); CHECK(n == 3 && log[0] == 0 && log[1] == 1 && log[2] == 2, "a single thread runs tasks in order of submission");
  a.get(); CHECK(vf::throws<boom>([&] { b.get(); }) == bad, "the future reports the exception thrown"); COVER("done");
}
//@ C06 H_p_two_submitters cfg=7:2;8:1 t=300 | pool of one thread, two threads submitting one task each, every interleaving, data races checked
ENTRY(H_p_two_submitters) {
  pool p; p.start(1); int ran[2] = {0, 0}; int got[2]; const int v = (int)vf::any<uint16_t>("v");
  { std::thread t([&] { auto f = p.run([&](int x) { ran[0]++; return x + 1; }, v); got[0] = f.get(); }); auto f = p.run([&](int x) { ran[1]++; return x + 2; }, v); got[1] = f.get(); t.join(); }
  CHECK(ran[0] == 1 && ran[1] == 1, "each task runs exactly once"); CHECK(got[0] == v + 1 && got[1] == v + 2, "each future yields its own task's result"); COVER("done");
}
//@ C06 H_p_parallel cfg=7:2 | pool of two threads, three tasks, a waiting task does not hold up the others
ENTRY(H_p_parallel) {
  pool p; p.start(2); std::promise<int> gate; auto g = gate.get_future().share(); const int v = (int)vf::any<uint16_t>("v");
  auto a = p.run([g] { return g.get() + 1; }); auto b = p.run([v] { return v; }); gate.set_value(b.get()); CHECK(a.get() == v + 1, "both run"); COVER("done");
}
//@ C06 H_p_kinds cfg=7:2;13:1 | results and arguments owning memory: strings of 16..18 characters, unique pointers, shared arguments released; no leak or invalid access
ENTRY(H_p_kinds) {
  { pool p; p.start(1); const std::string s = std::string(16, 'a') + vf::text(vf::choose(3, "n"), "s"); auto sp = std::make_shared<int>(4); std::weak_ptr<int> w = sp;
    auto f = p.run([](const std::string& x, std::shared_ptr<int> q) { return x + (char)('0' + *q); }, s, std::move(sp)); sp.reset(); CHECK(f.get() == s + '4', "string result");
    auto u = p.run([](const std::string& x) { return std::make_unique<std::string>(x); }, s); CHECK(*u.get() == s, "move-only result"); p.stop(); CHECK(w.expired(), "arguments are released"); }
  COVER("done");
}
//@ C07 H_p_lifecycle split=7:1..2;101:0..3 tsplit=7:1..3;101:0..3 | every history of 3 (thorough 4) start/stop calls with every requested thread count, hardware with 1..2 (thorough 3) threads
ENTRY(H_p_lifecycle) {
  pool p; bool run = false; const unsigned hw = (unsigned)__tc_get_config(7); unsigned n = 0;
  CHECK(!p.is_running() && p.threads_count() == 0, "starts stopped");
  for (int i = 0; i < (vf::thorough() ? 4 : 3); i++) {
    if (i < 2 ? vf::param() >> i & 1 : vf::choose(2, "operation")) { const unsigned want = vf::any<unsigned>("threads"); CHECK(p.start(want) == !run, "start succeeds exactly when stopped"); if (!run) { n = want < 1 ? 1 : want > hw ? hw : want; run = true; } }
    else { CHECK(p.stop() == run, "stop succeeds exactly when running"); run = false; n = 0; }
    CHECK(p.is_running() == run, "the state is reported"); CHECK(p.threads_count() == n, "the thread count is the requested one within 1..hardware, none when stopped");
  }
  if (run) { auto f = p.run([] { return 3; }); CHECK(f.get() == 3, "a running pool runs tasks"); COVER("running"); } else COVER("stopped");
}
//@ C07 H_p_no_hardware cfg=7:-1 | hardware concurrency reported as unknown (zero), every requested thread count
ENTRY(H_p_no_hardware) {
  pool p; CHECK(p.start(vf::any<unsigned>("threads")), "starts"); CHECK(p.threads_count() == 1, "at least one thread"); auto f = p.run([] { return 3; }); CHECK(f.get() == 3, "a running pool runs tasks"); COVER("done");
}
//@ C07 H_p_stop_pending cfg=7:2 | pool of 1..2 threads with two tasks in flight when stop is called, then restarted, every interleaving
ENTRY(H_p_stop_pending) {
  pool p; p.start((unsigned)vf::range(1, 2, "threads")); int ran[2] = {0, 0};
  auto a = p.run([&] { vf::ghost g; ran[0]++; return 10; }); auto b = p.run([&] { vf::ghost g; ran[1]++; return 11; });
  CHECK(p.stop(), "stops"); CHECK(!p.is_running() && p.threads_count() == 0, "stopped"); const int r0 = ran[0], r1 = ran[1]; CHECK(r0 <= 1 && r1 <= 1, "no task runs twice");
  if (r0) CHECK(a.get() == 10, "a task that ran delivered its value"); else CHECK(broken(a), "a dropped task's future reports a broken promise");
  if (r1) CHECK(b.get() == 11, "a task that ran delivered its value"); else CHECK(broken(b), "a dropped task's future reports a broken promise");
  if (!r0 && !r1) COVER("both dropped"); if (r0 && r1) COVER("both ran");
  CHECK(p.start(1), "starts again"); auto c = p.run([] { return 12; }); CHECK(c.get() == 12, "runs tasks again"); CHECK(ran[0] == r0 && ran[1] == r1, "no dropped task runs later");
}
//@ C07 H_p_stop_running cfg=7:2 | stop while a task of a one-thread pool waits for an event that another thread sends before or after: returns once the task is done
ENTRY(H_p_stop_running) {
  pool p; p.start(1); std::promise<void> gate; auto g = gate.get_future().share(); int done = 0;
  auto a = p.run([&, g] { g.wait(); vf::ghost gh; done = 1; }); std::thread t([&] { gate.set_value(); });
  CHECK(p.stop(), "stops"); { vf::ghost gh; const int d = done; a.wait_for(std::chrono::seconds(0)); CHECK(d == done, "no task runs after stop returned"); } if (done) a.get(); else CHECK(broken(a), "dropped"); if (done) COVER("ran"); else COVER("dropped"); t.join(); CHECK(p.start(1), "starts again");
}
//@ C07 H_p_stop_twice cfg=7:2 | two threads stopping a pool of 1..2 threads at once, every interleaving: one succeeds
ENTRY(H_p_stop_twice) {
  pool p; p.start((unsigned)vf::range(1, 2, "threads")); bool a = false, b; { std::thread t([&] { a = p.stop(); CHECK(!p.is_running(), "stopped"); }); b = p.stop(); t.join(); }
  CHECK(a != b, "exactly one of two concurrent stops succeeds"); CHECK(!p.is_running() && p.threads_count() == 0, "stopped"); COVER("done");
}
//@ C07 H_p_start_stop_race cfg=7:2 | start and stop called at once on a stopped or running pool, every interleaving: results agree with one order
ENTRY(H_p_start_stop_race) {
  pool p; const bool init = vf::choose(2, "running"); if (init) p.start(1); bool s = false, x; { std::thread t([&] { s = p.start(1); }); x = p.stop(); t.join(); }
  const bool run = p.is_running(); CHECK(p.threads_count() == (run ? 1 : 0), "state and thread count agree");
  if (init) { CHECK(x, "the running pool was stopped"); CHECK(run == s, "running exactly if started after the stop"); } else { CHECK(s, "the stopped pool was started"); CHECK(run == !x, "running unless stopped after the start"); }
  if (run) COVER("running"); else COVER("stopped");
}
//@ C07 H_p_run_vs_stop cfg=7:2 | a task submitted while another thread stops a one-thread pool, the pool then destroyed, every interleaving: it runs once or its future is broken
ENTRY(H_p_run_vs_stop) {
  int ran = 0; std::future<int> f; { pool p; p.start(1); std::thread t([&] { f = p.run([&] { vf::ghost g; return ++ran; }); }); CHECK(p.stop(), "stops"); t.join(); const int r = ran; __tc_quiesce(0); CHECK(r == ran, "no task runs after stop"); }
  if (ran) { CHECK(f.get() == 1, "ran once"); COVER("ran"); } else { CHECK(broken(f), "dropped"); COVER("dropped"); }
}
//@ C07 H_p_destroy cfg=7:2;8:1;13:1 | a pool of one thread destroyed with a task in flight, every interleaving; no data race, invalid access or leak
ENTRY(H_p_destroy) {
  int ran = 0; std::future<void> f; { pool p; p.start(1); f = p.run([&, s = std::string(20, 'x')] { if (s.size() == 20) ran++; }); }
  if (ran) { f.get(); COVER("ran"); } else { CHECK(broken(f), "dropped"); COVER("dropped"); }
}
