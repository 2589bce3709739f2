// C08: task.
//! header-only
#include "vf.h"
#include <memory>
#include <teiacare/sdk/non_copyable.hpp>
#include <teiacare/sdk/task.hpp>
#include <functional>
#include <optional>
#include <string>
using tc::sdk::task;
namespace {
struct stats { int live = 0, copies = 0, calls = 0; uint32_t last = 0, sum = 0; };
// a callable with an identity, state kept between invocations and its own heap memory
struct callable {
  stats* s; std::unique_ptr<uint32_t> v; mutable uint32_t n = 0; uint32_t magic = 0x5eed;
  callable(stats& st, uint32_t x) : s(&st), v(new uint32_t(x)) { s->live++; }
  callable(const callable& o) : s(o.s), v(new uint32_t(*o.v)), n(o.n) { s->live++; s->copies++; }
  callable(callable&& o) noexcept : s(o.s), v(std::move(o.v)), n(o.n) { s->live++; }
  ~callable() { s->live--; magic = 0; }
  void operator()() const { CHECK(magic == 0x5eed, "the callable is alive when invoked"); CHECK((bool)v, "the callable was not moved away"); n++; s->calls++; s->last = *v; s->sum = *v * n; }
};
void use(task& t, stats& s, uint32_t v, int times) { for (int i = 1; i <= times; i++) { const int c = s.calls; if (i & 1) t(); else t.invoke(); CHECK(s.calls == c + 1, "one invocation calls once"); CHECK(s.last == v, "with its own state"); CHECK(s.sum == v * (uint32_t)s.calls, "state is kept between invocations"); } }

int hits; void plain() { hits++; }
}
//@ C08 H_t_temporary | a temporary callable with arbitrary state, 0..3 invocations, task moved 0..2 times in between
ENTRY(H_t_temporary) {
  stats s; const uint32_t v = vf::any<uint32_t>("v");
  { task a{callable(s, v)}; CHECK(s.copies == 0, "a temporary is not copied"); CHECK(s.live == 1, "exactly one callable is kept"); const int k = (int)vf::range(0, 3, "calls"), m = (int)vf::range(0, 2, "moves"); use(a, s, v, k);
    if (m == 0) use(a, s, v, 1); else { task b(std::move(a)); CHECK(s.live == 1, "moving transfers the callable"); if (m == 1) use(b, s, v, 1); else { task c(std::move(b)); use(c, s, v, 1); CHECK(s.live == 1, "moving transfers the callable"); } CHECK(s.copies == 0, "moving a task copies nothing"); }
    CHECK(s.calls == k + 1, "each invocation calls once"); }
  CHECK(s.live == 0, "the callable is destroyed exactly once"); COVER("done");
}
//@ C08 H_t_moved_in | a named callable moved into the task, then destroyed
ENTRY(H_t_moved_in) {
  stats s; const uint32_t v = vf::any<uint32_t>("v"); std::optional<callable> c(std::in_place, s, v);
  { task t(std::move(*c)); c.reset(); CHECK(s.live == 1, "the task keeps its own"); CHECK(s.copies == 0, "nothing was copied"); use(t, s, v, (int)vf::range(0, 3, "calls")); }
  CHECK(s.live == 0, "the callable is destroyed exactly once"); COVER("done");
}
//@ C08 H_t_const_named | a named constant callable given to the task, then destroyed and its memory overwritten
ENTRY(H_t_const_named) {
  stats s; const uint32_t v = vf::any<uint32_t>("v"); auto* c = new const callable(s, v);
  { task t(*c); delete c; CHECK(s.live == 1, "the task keeps its own copy"); use(t, s, v, (int)vf::range(0, 3, "calls")); }
  CHECK(s.live == 0, "the callable is destroyed exactly once"); COVER("done");
}
//@ C08 H_t_kinds | function pointers, std::function, bind expressions and lambdas owning strings of 0..20 bytes
ENTRY(H_t_kinds) {
  hits = 0; { task t(&plain); t(); t(); CHECK(hits == 2, "function pointer"); }
  { task t(plain); t(); CHECK(hits == 3, "function"); }
  { std::function<void()> f(plain); task t(std::move(f)); f = nullptr; t(); CHECK(hits == 4, "std::function"); }
  { int x = 5; task t(std::bind([&x](int a) { x += a; }, 7)); t(); CHECK(x == 12, "bind expression"); }
  std::string out; { std::optional<task> t; { const std::string big(20, 'q'), s = vf::text(vf::choose(4, "n"), "s"); t.emplace([big, s, &out]() { out = big + s; CHECK(out.size() == 20 + s.size(), "captures are intact"); }); } (*t)(); CHECK(out[0] == 'q' && out[19] == 'q', "captures are intact"); }
  COVER("done");
}
