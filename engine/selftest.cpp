// Differential test of the expression simplifier: random operator trees are built both through the rewriting
// constructors and evaluated directly with the reference semantics (foldOp); the two must agree on random and
// boundary assignments, and intervals must contain the values.
#include "expr.h"
#include <cstdio>
#include <cstring>
#include <random>
using namespace tcs;
int selftest(int rounds) {
  std::mt19937_64 g(7); auto R = [&](uint64_t n) { return (unsigned)(g() % n); };
  static const unsigned W[] = {1, 8, 16, 32, 64}; static const int64_t K[] = {0, 1, 2, 3, 5, 7, 10, 24, 60, 100, 128, 255, 365, 400, 1000, 1461, 3600, 36524, 86400, 146097, 1000000, 1000000000, 86400000000000ll, -1, -2, -7, -60, -1000, -719468};
  std::vector<E> vars; for (unsigned i = 0; i < 3; i++) for (unsigned w : {1u, 5u, 8u, 13u, 18u, 32u, 47u, 64u}) vars.push_back(mkVar("t" + std::to_string(i) + "_" + std::to_string(w), w));
  for (uint64_t m : {9ull, 59ull, 364ull, 213500ull, 86399999999999ull}) vars.push_back(mkVar("b", 64 - __builtin_clzll(m), m));
  int bad = 0;
  for (int round = 0; round < rounds && bad < 5; round++) {
    const int NA = 12; std::vector<Model> ms(NA);
    for (int a = 0; a < NA; a++) for (E v : vars) { u128 x = g(); switch (R(5)) { case 0: x = 0; break; case 1: x = maskw(v->width); break; case 2: x &= 15; break; default: break; } x &= maskw(v->width); if (x > v->umax) x %= (u128)v->umax + 1; ms[a].v[(uint32_t)v->lo] = x; }
    struct N { E e; std::vector<u128> v; bool fp = false; }; std::vector<N> pool;
    auto val = [&](E e) { N n{e, {}}; for (auto& m : ms) { Evaluator ev(m); n.v.push_back(ev.eval(e)); } return n; };
    for (int i = 0; i < 5; i++) pool.push_back(val(vars[R(vars.size())]));
    auto pick = [&](unsigned w) -> N { std::vector<int> c; for (size_t i = 0; i < pool.size(); i++) if (pool[i].e->width == w && !pool[i].fp) c.push_back(i); if (c.empty() || R(3) == 0) { N n{mkC(w, (uint64_t)(R(3) ? K[R(sizeof K / 8)] : (int64_t)g())), {}}; n.v.assign(NA, cval(n.e)); return n; } return pool[c[c.size() > 2 && R(2) ? c.size() - 1 - R(2) : R(c.size())]]; };
    for (int step = 0; step < 14; step++) {
      N r; r.e = nullptr; auto ap = [&](E e, Op op, unsigned aux, std::vector<N> k) { r.e = e; r.v.clear(); E raw[3] = {0, 0, 0}; for (size_t i = 0; i < k.size(); i++) raw[i] = k[i].e; for (int a = 0; a < NA; a++) { u128 v[3] = {0, 0, 0}; for (size_t i = 0; i < k.size(); i++) v[i] = k[i].v[a]; r.v.push_back(foldOp(op, e->width, aux, raw, v)); } };
      unsigned w = W[R(5)]; if (w == 1 && R(2)) w = 64; int what = R(14);
      if (what < 5) { static const Op ops[] = {Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Add, Op::Mul, Op::SDiv, Op::SRem}; Op op = ops[R(17)]; N a = pick(w), b = pick(w); ap(mkBin(op, a.e, b.e), op, 0, {a, b}); }
      else if (what < 6) { static const Op ops[] = {Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle}; Op op = ops[R(5)]; N a = pick(w), b = pick(w); ap(mkCmp(op, a.e, b.e), op, 0, {a, b}); }
      else if (what < 8) { N a = pool[R(pool.size())]; if (a.fp) continue; unsigned nw = W[R(5)]; if (nw > a.e->width) { bool s = R(2); ap(s ? mkSExt(a.e, nw) : mkZExt(a.e, nw), s ? Op::SExt : Op::ZExt, 0, {a}); } else if (nw < a.e->width) { unsigned lo = R(2) ? 0 : R(a.e->width - nw + 1); ap(mkExtract(a.e, lo, nw), Op::Extract, lo, {a}); } }
      else if (what < 9) { N c = pick(1), a = pick(w), b = pick(w); ap(mkIte(c.e, a.e, b.e), Op::Ite, 0, {c, a, b}); }
      else if (what > 9) {
        auto F = [&]() -> N { std::vector<int> c; for (size_t i = 0; i < pool.size(); i++) if (pool[i].fp) c.push_back(i); if (c.empty() || R(3) == 0) { static const double D[] = {0, 1, -1, 2, 0.5, 3, 1e9, 1e-3, 1000.25, 33333333.3333, -7.75, 1e12 + 0.125, 1.0 / 3, -0.0}; double d = D[R(14)]; uint64_t u; memcpy(&u, &d, 8); N n{mkC(64, u), {}, true}; n.v.assign(NA, u); return n; } return pool[c[R(c.size())]]; };
        int k = R(6); N a, b;
        if (k < 2) { a = pick(W[1 + R(4)]); ap(mkFCast(Op::SIToF, a.e, 64), Op::SIToF, 0, {a}); r.fp = true; }
        else if (k < 4) { static const Op ops[] = {Op::FAdd, Op::FSub, Op::FMul, Op::FDiv}; Op op = ops[R(4)]; a = F(); b = F(); ap(mkF2(op, a.e, b.e), op, 0, {a, b}); r.fp = true; }
        else if (k < 5) { static const Op ops[] = {Op::FOeq, Op::FOlt, Op::FOle, Op::FUno}; Op op = ops[R(4)]; a = F(); b = F(); ap(mkFCmp(op, a.e, b.e), op, 0, {a, b}); }
        else { a = F(); bool in = true; for (auto x : a.v) { double d; uint64_t u = (uint64_t)x; memcpy(&d, &u, 8); if (!(d > -9e18 && d < 9e18)) in = false; } if (!in) continue; ap(mkFCast(Op::FToSI, a.e, 64), Op::FToSI, 0, {a}); }
        if (r.fp) { bool nan = false; for (auto x : r.v) { double d; uint64_t u = (uint64_t)x; memcpy(&d, &u, 8); if (d != d) nan = true; } if (nan) continue; }
      }
      else { N a = pick(w), b = pick(W[R(4)]); if (a.e->width + b.e->width <= 64) ap(mkConcat(a.e, b.e), Op::Concat, 0, {a, b}); }
      if (!r.e) continue;
      for (int a = 0; a < NA; a++) { Evaluator ev(ms[a]); u128 x = ev.eval(r.e); bool in = r.e->width > 64 || ((uint64_t)r.v[a] >= r.e->umin && (uint64_t)r.v[a] <= r.e->umax && sxt((uint64_t)r.v[a], r.e->width) >= r.e->smin && sxt((uint64_t)r.v[a], r.e->width) <= r.e->smax);
        if (x != r.v[a] || !in) { printf("mismatch round %d: %s gives %lx, reference %lx, u[%lx,%lx] s[%ld,%ld]\n", round, exprStr(r.e, 5).c_str(), (long)x, (long)r.v[a], r.e->umin, r.e->umax, r.e->smin, r.e->smax); bad++; break; } }
      pool.push_back(r);
    }
  }
  printf("simplifier self-test: %d rounds, %d mismatches\n", rounds, bad); return bad != 0;
}
