// C01..C03: blocking_queue.
//! mode=ir
//! header-only
#include "vf.h"
#include <teiacare/sdk/non_copyable.hpp>
#include <teiacare/sdk/non_moveable.hpp>
#include <limits>
#include <teiacare/sdk/blocking_queue.hpp>
#include <string>
#include <thread>
// an item: an identity and an arbitrary payload
struct item { int id; uint32_t pay; };
using queue = tc::sdk::blocking_queue<item>;

namespace {
struct feed { uint32_t pay[4][4]; feed() { vf::fill(pay, sizeof pay, "payload"); } item of(int p, int i) const { return {100 * p + i, pay[p][i]}; } };
struct log_t { item v[8]; int n = 0; void add(item x) { vf::ghost g; v[n++] = x; } };
// every item p,i whose acceptance bit is set comes out exactly once over all logs, unchanged; per log, one producer's items in order
void check_logs(const feed& f, const log_t* l, int logs, int producers, const int* accepted) {
  vf::ghost g; int seen[4] = {0, 0, 0, 0};
  for (int k = 0; k < logs; k++) { int last[4] = {-1, -1, -1, -1};
    for (int i = 0; i < l[k].n; i++) { const int p = l[k].v[i].id / 100, x = l[k].v[i].id % 100;
      CHECK(p >= 0 && p < producers && x >= 0 && x < 4 && (accepted[p] >> x & 1), "only items that were accepted come out");
      CHECK(!(seen[p] >> x & 1), "no item comes out twice"); seen[p] |= 1 << x;
      CHECK(l[k].v[i].pay == f.pay[p][x], "items come out unchanged");
      CHECK(x > last[p], "items of one producer come out in order"); last[p] = x; } }
  for (int p = 0; p < producers; p++) CHECK(seen[p] == accepted[p], "every accepted item comes out");
}
}

//@ C01 H_q_producers_consumers | 2 producers of 2 items each and 2 consumers of 2 items each, blocking operations, capacity 1..2, every interleaving
ENTRY(H_q_producers_consumers) {
  const feed f; queue q(vf::range<size_t>(1, 2, "capacity")); log_t l[2];
  { std::thread a([&] { q.push(f.of(0, 0)); const item x = f.of(0, 1); q.push(x); }), b([&] { const item x = f.of(1, 0); q.push(x); q.push(f.of(1, 1)); }), c([&] { l[0].add(q.pop()); l[0].add(q.pop()); });
    l[1].add(q.pop()); l[1].add(q.pop()); a.join(); b.join(); c.join(); }
  const int all[2] = {3, 3}; check_logs(f, l, 2, 2, all); CHECK(q.size() == 0, "empty at the end"); COVER("done");
}
//@ C01 H_q_mixed cfg=8:1 | one producer with try_push and push, one with try_push of both kinds, one consumer with try_pop, an observer of the size, capacity 1..3, then drained; every interleaving, data races checked
ENTRY(H_q_mixed) {
  const feed f; const size_t cap = vf::range<size_t>(1, 3, "capacity"); queue q(cap); log_t l[2]; int acc[2] = {0, 0};
  { std::thread a([&] { if (q.try_push(f.of(0, 0))) acc[0] |= 1; const item x = f.of(0, 1); if (q.try_push(x)) acc[0] |= 2; }), b([&] { const item x = f.of(1, 0); if (q.try_push(x)) acc[1] |= 1; CHECK(q.size() <= cap, "never more items than the capacity"); });
    if (auto x = q.try_pop()) l[0].add(*x);
    CHECK(q.size() <= cap, "never more items than the capacity"); CHECK(q.capacity() == cap, "capacity is constant");
    a.join(); b.join(); }
  CHECK(q.size() <= cap, "never more items than the capacity");
  while (auto x = q.try_pop()) l[0].add(*x);
  check_logs(f, l, 1, 2, acc); if (acc[0] == 3 && acc[1] == 1) COVER("all accepted"); else COVER("some refused");
}
//@ C01 H_q_blocking_race cfg=8:1 | one producer of 2 items, one consumer of 2 items, an observer of size and capacity, capacity 1..2; every interleaving, data races checked
ENTRY(H_q_blocking_race) {
  const feed f; const size_t cap = vf::range<size_t>(1, 2, "capacity"); queue q(cap); log_t l[1];
  { std::thread a([&] { q.push(f.of(0, 0)); const item x = f.of(0, 1); q.push(x); }), c([&] { l[0].add(q.pop()); l[0].add(q.pop()); });
    CHECK(q.size() <= cap, "never more items than the capacity"); a.join(); c.join(); }
  const int all[1] = {3}; check_logs(f, l, 1, 1, all); COVER("done");
}
//@ C01 H_q_full_bound | 3 producers pushing one item each into a queue of capacity 1..2, two poppers; at every return of a push the accepted items not yet being popped fit the capacity; every interleaving
ENTRY(H_q_full_bound) {
  const feed f; const size_t cap = vf::range<size_t>(1, 2, "capacity"); queue q(cap); log_t l[2]; size_t pushed = 0, popping = 0;
  auto push = [&](int p) { q.push(f.of(p, 0)); vf::ghost g; pushed++; CHECK(pushed <= cap + popping, "a push returns only when its item has room"); };
  auto pop = [&](int k) { { vf::ghost g; popping++; } l[k].add(q.pop()); };
  { std::thread a([&] { push(0); }), b([&] { push(1); }), c([&] { push(2); }), d([&] { pop(1); }); pop(0); pop(0); a.join(); b.join(); c.join(); d.join(); }
  const int all[3] = {1, 1, 1}; check_logs(f, l, 2, 3, all); COVER("done");
}
//@ C01 H_q_spurious cfg=5:2 | as two producers and one consumer with one item each, capacity 1, up to two spurious wake-ups anywhere
ENTRY(H_q_spurious) {
  const feed f; queue q(1); log_t l[1];
  { std::thread a([&] { q.push(f.of(0, 0)); }), b([&] { q.push(f.of(1, 0)); }); l[0].add(q.pop()); l[0].add(q.pop()); a.join(); b.join(); }
  const int all[2] = {1, 1}; check_logs(f, l, 1, 2, all); COVER("done");
}
//@ C01 H_q_owning cfg=8:1;13:1 | items owning heap memory (long strings), one producer of 2, consumer of one, one left behind; no invalid access, race or leak
ENTRY(H_q_owning) {
  const std::string s = std::string(20, 'x') + vf::text(2, "text");
  { tc::sdk::blocking_queue<std::string> q(2); std::thread a([&] { q.push(s); q.push(s + "2"); }); const std::string r = q.pop(); CHECK(r == s, "the first item comes out"); if (auto x = q.try_pop()) CHECK(*x == s + "2", "then the second"); a.join(); }
  COVER("done");
}
//@ C02 H_q_wake_producers | 3 producers of one item each against a queue of capacity 1..2, then 1..3 pops by two threads (pop and try_pop), every interleaving: exactly the pushes that fit have returned
ENTRY(H_q_wake_producers) {
  const feed f; const int cap = (int)vf::range(1, 2, "capacity"), first = vf::choose(2, "first"); queue q((size_t)cap); int done = 0, popped = 0;
  auto push = [&](int p) { q.push(f.of(p, 0)); vf::ghost g; done++; };
  std::thread a([&] { push(0); }), b([&] { push(1); }), c([&] { push(2); });
  if (first) { __tc_quiesce(0); CHECK(done == cap, "pushes that fit return, the others wait"); }
  std::thread d([&] { q.pop(); vf::ghost g; popped++; });
  if (q.try_pop()) { vf::ghost g; popped++; }
  __tc_quiesce(0);
  CHECK(popped >= 1, "a pop with items available returns"); CHECK(done == (cap + popped < 3 ? cap + popped : 3), "every push with room for its item returns");
  while (popped < 3) { q.pop(); vf::ghost g; popped++; }
  a.join(); b.join(); c.join(); d.join(); CHECK(q.size() == 0, "nothing left"); COVER("done");
}
//@ C02 H_q_wake_consumers | 3 consumers of one item each, 3 items pushed by two threads (push and try_push) into a queue of capacity 1..3, every interleaving: exactly the pops with items have returned
ENTRY(H_q_wake_consumers) {
  const feed f; const int cap = (int)vf::range(1, 3, "capacity"), first = vf::choose(2, "first"); queue q((size_t)cap); int done = 0, pushed = 0;
  auto pop = [&] { q.pop(); vf::ghost g; done++; };
  std::thread a(pop), b(pop), c(pop);
  if (first) { __tc_quiesce(0); CHECK(done == 0, "nothing to pop"); }
  std::thread d([&] { q.push(f.of(0, 0)); vf::ghost g; pushed++; });
  if (q.try_push(f.of(1, 0))) { vf::ghost g; pushed++; }
  __tc_quiesce(0);
  CHECK(pushed >= 1, "a push with room returns"); CHECK(done == pushed, "every pop with an item available returns");
  while (pushed < 3) { q.push(f.of(2, 0)); vf::ghost g; pushed++; }
  __tc_quiesce(0); CHECK(done == 3, "every pop with an item available returns");
  a.join(); b.join(); c.join(); d.join(); COVER("done");
}
//@ C02 H_q_pingpong | 2 producers and 2 consumers of two items each, mixed blocking operations, capacity 1..2, every interleaving: all return
ENTRY(H_q_pingpong) {
  const feed f; queue q(vf::range<size_t>(1, 2, "capacity")); int done = 0;
  { std::thread a([&] { q.push(f.of(0, 0)); q.push(f.of(0, 1)); done++; }), b([&] { const item x = f.of(1, 0); q.push(x); q.push(x); }), c([&] { q.pop(); q.pop(); }); q.pop(); q.pop(); a.join(); b.join(); c.join(); }
  CHECK(done == 1 && q.size() == 0, "all operations return"); COVER("done");
}
//@ C02 H_q_three_waiting tier=thorough | 3 producers and 3 consumers of one item each, capacity 1..2, every interleaving: all return
ENTRY(H_q_three_waiting) {
  const feed f; queue q(vf::range<size_t>(1, 2, "capacity"));
  { std::thread a([&] { q.push(f.of(0, 0)); }), b([&] { q.push(f.of(1, 0)); }), c([&] { q.push(f.of(2, 0)); }), d([&] { q.pop(); }), e([&] { q.pop(); }); q.pop(); a.join(); b.join(); c.join(); d.join(); e.join(); }
  CHECK(q.size() == 0, "all operations return"); COVER("done");
}
//@ C03 H_q_history | every sequence of 6 (thorough 8) operations out of push, try_push, pop, try_pop with arbitrary items against every requested capacity 0..3: agrees with a bounded list
ENTRY(H_q_history) {
  const size_t want = vf::range<size_t>(0, 3, "capacity"), cap = want ? want : 1; queue q(want); item m[16]; size_t n = 0, b = 0;
  for (int i = 0; i < (vf::thorough() ? 8 : 6); i++) {
    const item x{i, vf::any<uint32_t>("payload")}; const bool full = n - b == cap, empty = n == b;
    if (vf::choose(2, "operation")) {
      const int how = (int)vf::range(0, 2, "how"); bool ok;
      if (how == 0 && !full) { item y = x; q.push(std::move(y)); ok = true; } else if (how == 1) { item y = x; ok = q.try_push(std::move(y)); } else ok = q.try_push(x);
      CHECK(ok == !full, "try_push fails exactly when full"); if (!full) m[n++] = x; else COVER("full");
    } else {
      if (!empty && vf::any<bool>("blocking")) { const item r = q.pop(); CHECK(r.id == m[b].id && r.pay == m[b].pay, "pop gives the oldest item"); b++; }
      else { auto r = q.try_pop(); CHECK(r.has_value() == !empty, "try_pop yields nothing exactly when empty"); if (!empty) { CHECK(r->id == m[b].id && r->pay == m[b].pay, "try_pop gives the oldest item"); b++; } else COVER("empty"); }
    }
    CHECK(q.size() == n - b, "size is exact"); CHECK(q.capacity() == cap, "capacity is exact");
  }
}
//@ C03 H_q_capacity | every requested capacity of 64 bits
ENTRY(H_q_capacity) {
  const size_t want = vf::any<size_t>("capacity"); queue q(want); CHECK(q.capacity() == (want ? want : 1), "capacity is the requested one, at least one"); CHECK(q.size() == 0, "starts empty");
  CHECK(q.try_push(item{1, 2}), "an empty queue accepts"); CHECK(q.try_push(item{1, 2}) == (want > 1), "a second item is accepted unless the capacity is one"); if (want == 0) COVER("zero"); else COVER("positive");
}
