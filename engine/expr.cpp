#include "expr.h"
#include <functional>
#include <cmath>
#include <cstring>
#include <cfenv>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace tcs {
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, E> g_varByName;
static std::deque<Expr> g_pool;
static std::vector<E> g_tab(1 << 16, nullptr);
static size_t g_cnt = 0;
static VarSet g_empty;

size_t exprCount() { return g_cnt; }

static const VarSet* unionVars(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end())) return a;
  if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
  static std::unordered_map<uint64_t, std::vector<const VarSet*>> cache;
  VarSet* r = new VarSet;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r->v));
  uint64_t h = 1469598103934665603ull; for (auto x : r->v) h = (h ^ x) * 1099511628211ull;
  for (auto* c : cache[h]) if (c->v == r->v) { delete r; return c; }
  cache[h].push_back(r); return r;
}

static inline uint32_t mix(uint32_t h, uint64_t x) { uint64_t z = (h ^ x) * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return (uint32_t)(z ^ (z >> 32)); }

static void setRange(Expr& e);

static E intern(Expr& t) {
  uint32_t h = mix(17, (uint64_t)t.op | ((uint64_t)t.width << 8) | ((uint64_t)t.aux << 24));
  h = mix(h, t.lo); h = mix(h, t.hi);
  for (int i = 0; i < t.nk; i++) h = mix(h, t.k[i]->id);
  t.hash = h;
  size_t m = g_tab.size() - 1, i = h & m;
  for (; g_tab[i]; i = (i + 1) & m) {
    E c = g_tab[i];
    if (c->hash == h && c->op == t.op && c->width == t.width && c->aux == t.aux && c->lo == t.lo && c->hi == t.hi && c->nk == t.nk) {
      bool same = true; for (int j = 0; j < t.nk; j++) if (c->k[j] != t.k[j]) { same = false; break; }
      if (same) return c;
    }
  }
  t.depth = 0; t.hasFP = (t.op >= Op::FAdd); t.hasDiv = t.op == Op::UDiv || t.op == Op::URem || t.op == Op::SDiv || t.op == Op::SRem || (t.op == Op::Mul && t.width >= 16);
  const VarSet* vs = &g_empty;
  for (int j = 0; j < t.nk; j++) { vs = unionVars(vs, t.k[j]->vars); t.hasFP |= t.k[j]->hasFP; t.hasDiv |= t.k[j]->hasDiv; t.depth = std::max(t.depth, t.k[j]->depth + 1); }
  if (t.op == Op::Var) { VarSet* n = new VarSet; n->v.push_back((uint32_t)t.lo); vs = n; }
  t.vars = vs;
  setRange(t);                       // may intern other expressions
  t.id = (uint32_t)g_cnt++;
  g_pool.push_back(t);
  E e = &g_pool.back();
  m = g_tab.size() - 1; for (i = h & m; g_tab[i]; i = (i + 1) & m) {}
  g_tab[i] = e;
  if (g_cnt * 2 > g_tab.size()) {
    std::vector<E> nt(g_tab.size() * 2, nullptr); size_t nm = nt.size() - 1;
    for (auto* x : g_tab) if (x) { size_t j = x->hash & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
    g_tab.swap(nt);
  }
  return e;
}

static Expr mk(Op op, unsigned w, unsigned aux = 0) { Expr t; memset(&t, 0, sizeof t); t.op = op; t.width = (uint16_t)w; t.aux = (uint16_t)aux; return t; }

E mkC128(unsigned w, u128 v) { Expr t = mk(Op::Const, w); v &= mask128(w); t.lo = (uint64_t)v; t.hi = (uint64_t)(v >> 64); return intern(t); }
E mkC(unsigned w, uint64_t v) { return mkC128(w, v); }
static E rawBound(E v, uint64_t m) { Expr t = mk(Op::Ule, 1); t.k[0] = v; t.k[1] = mkC(v->width, m); t.nk = 2; return intern(t); }
E mkVar(const std::string& base, unsigned w, uint64_t umax) {
  if (w > 64 || umax > maskw(w)) umax = maskw(w);
  std::string name = w <= 64 && umax != maskw(w) ? base + "<=" + std::to_string(umax) : base;
  auto it = g_varByName.find(name);
  if (it != g_varByName.end()) { if (it->second->width != w) { fprintf(stderr, "internal: variable %s width clash\n", name.c_str()); abort(); } return it->second; }
  Expr t = mk(Op::Var, w); t.lo = g_vars.size(); g_vars.push_back({name, w, umax, nullptr});
  E e = intern(t); g_varByName[name] = e; if (name != base) g_vars[e->lo].bound = rawBound(e, umax); return e;
}

// ---------------------------------------------------------------- intervals
static void full(Expr& e) {
  unsigned w = e.width;
  if (w > 64) { e.smin = INT64_MIN; e.smax = INT64_MAX; e.umin = 0; e.umax = ~0ull; return; }
  e.umin = 0; e.umax = maskw(w);
  e.smax = (int64_t)(maskw(w) >> 1); e.smin = -e.smax - 1;
}
static void setS(Expr& e, i128 lo, i128 hi) {  // mathematically exact signed range; valid only if fits
  unsigned w = e.width; i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
  if (lo < mn || hi > mx) return;
  e.smin = std::max<int64_t>(e.smin, (int64_t)lo); e.smax = std::min<int64_t>(e.smax, (int64_t)hi);
}
static void setU(Expr& e, u128 lo, u128 hi) {
  if (hi > maskw(e.width)) return;
  e.umin = std::max<uint64_t>(e.umin, (uint64_t)lo); e.umax = std::min<uint64_t>(e.umax, (uint64_t)hi);
}
static bool linearIn(E e, E v, i128& k, i128& c, bool& zx);
static void setRange(Expr& e) {
  full(e); unsigned w = e.width; if (w > 64) return;
  E a = e.nk > 0 ? e.k[0] : nullptr, b = e.nk > 1 ? e.k[1] : nullptr, c = e.nk > 2 ? e.k[2] : nullptr;
  if (a && a->width > 64 && e.op != Op::Extract) return;
  switch (e.op) {
    case Op::Var: setU(e, 0, g_vars[e.lo].umax); break;
    case Op::Const: e.umin = e.umax = e.lo; e.smin = e.smax = sxt(e.lo, w); return;
    case Op::Add: setS(e, (i128)a->smin + b->smin, (i128)a->smax + b->smax); setU(e, (u128)a->umin + b->umin, (u128)a->umax + b->umax); break;
    case Op::Sub: setS(e, (i128)a->smin - b->smax, (i128)a->smax - b->smin); if (a->umin >= b->umax) setU(e, a->umin - b->umax, a->umax - b->umin); break;
    case Op::Mul: {
      i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
      setS(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
      setU(e, (u128)a->umin * b->umin, (u128)a->umax * b->umax); break; }
    case Op::UDiv: if (b->umin > 0) setU(e, a->umin / b->umax, a->umax / b->umin); break;
    case Op::URem: if (b->umin > 0) { setU(e, 0, std::min(a->umax, b->umax - 1)); } break;
    case Op::SDiv: if (isC(b) && b->smin != 0 && b->smin != -1) { i128 x = (i128)a->smin / b->smin, y = (i128)a->smax / b->smin; setS(e, std::min(x, y), std::max(x, y)); }
      else if (b->smin > 0) { i128 p[4] = {(i128)a->smin / b->smin, (i128)a->smin / b->smax, (i128)a->smax / b->smin, (i128)a->smax / b->smax}; setS(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break;
    case Op::SRem: if (b->smin > 0) { i128 m = (i128)b->smax - 1; setS(e, a->smin < 0 ? std::max<i128>(-m, a->smin) : 0, a->smax > 0 ? std::min<i128>(m, a->smax) : 0); } break;
    case Op::And: setU(e, 0, std::min(a->umax, b->umax)); break;
    case Op::Or: { uint64_t m = a->umax | b->umax; unsigned n = m ? 64 - __builtin_clzll(m) : 0; setU(e, std::max(a->umin, b->umin), n >= 64 ? ~0ull : ((1ull << n) - 1) & maskw(w)); break; }
    case Op::Xor: { uint64_t m = a->umax | b->umax; unsigned n = m ? 64 - __builtin_clzll(m) : 0; setU(e, 0, n >= 64 ? ~0ull : ((1ull << n) - 1) & maskw(w)); break; }
    case Op::Shl: if (isC(b) && b->lo < w) { setU(e, (u128)a->umin << b->lo, (u128)a->umax << b->lo); setS(e, (i128)a->smin * ((i128)1 << b->lo), (i128)a->smax * ((i128)1 << b->lo)); } break;
    case Op::LShr: if (isC(b) && b->lo < w) setU(e, a->umin >> b->lo, a->umax >> b->lo); else setU(e, 0, a->umax); break;
    case Op::AShr: if (isC(b) && b->lo < w) setS(e, a->smin >> b->lo, a->smax >> b->lo); else setS(e, std::min<int64_t>(a->smin, 0), std::max<int64_t>(a->smax, 0)); break;
    case Op::ZExt: setU(e, a->umin, a->umax); break;
    case Op::SExt: setS(e, a->smin, a->smax); break;
    case Op::Extract:
      if (a->width > 64) break;
      if (e.aux == 0) { if (a->umax <= maskw(w)) setU(e, a->umin, a->umax); setS(e, a->smin, a->smax); }
      else if ((a->umax >> e.aux) <= maskw(w)) setU(e, a->umin >> e.aux, a->umax >> e.aux);
      break;
    case Op::Concat: setU(e, ((u128)a->umin << b->width) | b->umin, ((u128)a->umax << b->width) | b->umax); break;
    case Op::Ite: setU(e, std::min(b->umin, c->umin), std::max(b->umax, c->umax)); setS(e, std::min(b->smin, c->smin), std::max(b->smax, c->smax));
      // ite(v < k, ., .) with arms linear in v: the condition bounds v in each arm
      if (w >= 32 && (a->op == Op::Slt || a->op == Op::Sle || a->op == Op::Ult || a->op == Op::Ule) && (isC(a->k[0]) || isC(a->k[1])) && a->k[0]->width <= w) {
        bool sg = a->op == Op::Slt || a->op == Op::Sle, strict = a->op == Op::Slt || a->op == Op::Ult, left = isC(a->k[1]); E v = a->k[left ? 0 : 1], kc = a->k[left ? 1 : 0];
        i128 k = sg ? (i128)kc->smin : (i128)kc->umin, lo[2], hi[2]; for (int i = 0; i < 2; i++) { lo[i] = sg ? (i128)v->smin : (i128)v->umin; hi[i] = sg ? (i128)v->smax : (i128)v->umax; }   // [0]: condition true
        if (left) { i128 t = strict ? k - 1 : k; hi[0] = std::min(hi[0], t); lo[1] = std::max(lo[1], t + 1); } else { i128 t = strict ? k + 1 : k; lo[0] = std::max(lo[0], t); hi[1] = std::min(hi[1], t - 1); }
        i128 l[2], h[2]; E arm[2] = {b, c}; bool any = false;
        for (int i = 0; i < 2; i++) { l[i] = arm[i]->smin; h[i] = arm[i]->smax; i128 k1, k0; bool zx; if (arm[i]->vars != v->vars || !linearIn(arm[i], v, k1, k0, zx)) continue;
          if (!(v->smin >= 0 || zx == !sg)) continue; i128 x = k1 * lo[i] + k0, y = k1 * hi[i] + k0; l[i] = std::max(l[i], std::min(x, y)); h[i] = std::min(h[i], std::max(x, y)); any = true; }
        if (any && l[0] <= h[0] && l[1] <= h[1] && lo[0] <= hi[0] && lo[1] <= hi[1]) setS(e, std::min(l[0], l[1]), std::max(h[0], h[1]));
      }
      break;
    default: break;
  }
  // cross-tighten
  uint64_t half = maskw(w) >> 1;
  if (e.umax <= half) { e.smin = std::max(e.smin, (int64_t)e.umin); e.smax = std::min(e.smax, (int64_t)e.umax); }
  if (e.smin >= 0) { e.umin = std::max(e.umin, (uint64_t)e.smin); e.umax = std::min(e.umax, (uint64_t)e.smax); }
}

// ---------------------------------------------------------------- concrete semantics
typedef long double f80;
static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static f80 asX(u128 v) { f80 f = 0; memcpy(&f, &v, 10); return f; }
static u128 frF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 frD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
static u128 frX(f80 f) { u128 x = 0; memcpy(&x, &f, 10); return x; }
template <class F> static F rintAux(F x, unsigned aux) { switch (aux) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::round(x); default: return std::nearbyint(x); } }
template <class F> static bool fop(Op op, F a, F b, unsigned aux, F& r) {
  switch (op) { case Op::FAdd: r = a + b; return true; case Op::FSub: r = a - b; return true; case Op::FMul: r = a * b; return true; case Op::FDiv: r = a / b; return true;
    case Op::FNeg: r = -a; return true; case Op::FSqrt: r = std::sqrt(a); return true; case Op::FAbs: r = std::fabs(a); return true; case Op::FRint: r = rintAux(a, aux); return true; default: return false; }
}
template <class F> static bool fcmp(Op op, F a, F b) { switch (op) { case Op::FOeq: return a == b; case Op::FOlt: return a < b; case Op::FOle: return a <= b; default: return std::isnan(a) || std::isnan(b); } }
static i128 sx128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= mask128(w); return (i128)((v ^ m) - m); }
template <class F> static u128 toInt(F x, unsigned w, bool sgn) {
  // out-of-range conversion is undefined in C++; x86 behaviour is used as the (arbitrary) value
  if (std::isnan(x)) return sgn ? ((u128)1 << (w - 1)) : 0;
  F t = std::trunc(x);
  if (sgn) { F lim = std::ldexp((F)1, w - 1); if (t >= lim || t < -lim) return (u128)1 << (w - 1); return (u128)(i128)t & mask128(w); }
  F lim = std::ldexp((F)1, w); if (t >= lim || t < 0) return 0; return (u128)t & mask128(w);
}

u128 foldOp(Op op, unsigned w, unsigned aux, E const* k, const u128* v) {
  u128 m = mask128(w);
  unsigned kw = k[0] ? k[0]->width : 0;
  switch (op) {
    case Op::Add: return (v[0] + v[1]) & m;
    case Op::Sub: return (v[0] - v[1]) & m;
    case Op::Mul: return (v[0] * v[1]) & m;
    case Op::UDiv: return v[1] ? v[0] / v[1] : m;
    case Op::URem: return v[1] ? v[0] % v[1] : v[0];
    case Op::SDiv: { i128 a = sx128(v[0], w), b = sx128(v[1], w); if (!b) return a >= 0 ? m : 1; if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
    case Op::SRem: { i128 a = sx128(v[0], w), b = sx128(v[1], w); if (!b) return v[0]; if (b == -1) return 0; return (u128)(a % b) & m; }
    case Op::And: return v[0] & v[1];
    case Op::Or: return v[0] | v[1];
    case Op::Xor: return v[0] ^ v[1];
    case Op::Shl: return v[1] >= w ? 0 : (v[0] << (unsigned)v[1]) & m;
    case Op::LShr: return v[1] >= w ? 0 : v[0] >> (unsigned)v[1];
    case Op::AShr: { i128 a = sx128(v[0], w); return (u128)(a >> (v[1] >= w ? w - 1 : (unsigned)v[1])) & m; }
    case Op::Eq: return v[0] == v[1];
    case Op::Ult: return v[0] < v[1];
    case Op::Ule: return v[0] <= v[1];
    case Op::Slt: return sx128(v[0], kw) < sx128(v[1], kw);
    case Op::Sle: return sx128(v[0], kw) <= sx128(v[1], kw);
    case Op::Concat: return ((v[0] << k[1]->width) | v[1]) & m;
    case Op::Extract: return (v[0] >> aux) & m;
    case Op::ZExt: return v[0];
    case Op::SExt: return (u128)sx128(v[0], kw) & m;
    case Op::Ite: return v[0] ? v[1] : v[2];
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FNeg: case Op::FSqrt: case Op::FAbs: case Op::FRint:
      if (w == 32) { float r; fop(op, asF(v[0]), asF(v[1]), aux, r); return frF(r); }
      if (w == 64) { double r; fop(op, asD(v[0]), asD(v[1]), aux, r); return frD(r); }
      { f80 r; fop(op, asX(v[0]), asX(v[1]), aux, r); return frX(r); }
    case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno:
      if (kw == 32) return fcmp(op, asF(v[0]), asF(v[1]));
      if (kw == 64) return fcmp(op, asD(v[0]), asD(v[1]));
      return fcmp(op, asX(v[0]), asX(v[1]));
    case Op::FToSI: case Op::FToUI: { bool s = op == Op::FToSI; if (kw == 32) return toInt(asF(v[0]), w, s); if (kw == 64) return toInt(asD(v[0]), w, s); return toInt(asX(v[0]), w, s); }
    case Op::SIToF: { i128 a = sx128(v[0], kw); if (w == 32) return frF((float)a); if (w == 64) return frD((double)a); return frX((f80)a); }
    case Op::UIToF: { u128 a = v[0]; if (w == 32) return frF((float)a); if (w == 64) return frD((double)a); return frX((f80)a); }
    case Op::FCvt: {
      f80 x = kw == 32 ? (f80)asF(v[0]) : kw == 64 ? (f80)asD(v[0]) : asX(v[0]);
      if (w == 32) return kw == 64 ? frF((float)asD(v[0])) : frF((float)x);
      if (w == 64) return frD((double)x);
      return frX(x); }
    default: break;
  }
  fprintf(stderr, "internal: foldOp %d\n", (int)op); abort();
}

u128 Evaluator::eval(E e) {
  if (e->op == Op::Const) return cval(e);
  if (e->op == Op::Var) { auto it = m.v.find((uint32_t)e->lo); return it == m.v.end() ? 0 : it->second & mask128(e->width); }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128 r;
  if (e->op == Op::Ite) { r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); }
  else { u128 v[3] = {0, 0, 0}; for (int i = 0; i < e->nk; i++) v[i] = eval(e->k[i]); r = foldOp(e->op, e->width, e->aux, e->k, v); }
  memo.emplace(e, r); return r;
}

static E node(Op op, unsigned w, unsigned aux, E a, E b = nullptr, E c = nullptr) {
  Expr t = mk(op, w, aux);
  t.k[0] = a; t.nk = 1; if (b) { t.k[1] = b; t.nk = 2; } if (c) { t.k[2] = c; t.nk = 3; }
  bool allc = isC(a) && (!b || isC(b)) && (!c || isC(c));
  if (allc) { u128 v[3] = {cval(a), b ? cval(b) : 0, c ? cval(c) : 0}; return mkC128(w, foldOp(op, w, aux, t.k, v)); }
  E r = intern(t);
  if (r->width <= 64 && r->umin == r->umax) return mkC(w, r->umin);   // interval collapsed to a constant
  if (r->width <= 64 && r->smin == r->smax) return mkC(w, (uint64_t)r->smin);
  return r;
}

E mkNot(E a) {
  if (isC(a)) return mkC(1, !a->lo);
  if (a->op == Op::Xor && isC(a->k[1], 1)) return a->k[0];
  if (a->op == Op::Ult) return mkCmp(Op::Ule, a->k[1], a->k[0]);
  if (a->op == Op::Ule) return mkCmp(Op::Ult, a->k[1], a->k[0]);
  if (a->op == Op::Slt) return mkCmp(Op::Sle, a->k[1], a->k[0]);
  if (a->op == Op::Sle) return mkCmp(Op::Slt, a->k[1], a->k[0]);
  return node(Op::Xor, 1, 0, a, mkC(1, 1));
}
E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }

static bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }
static bool isCmp(E a) { return a->op == Op::Ult || a->op == Op::Ule || a->op == Op::Slt || a->op == Op::Sle; }
static bool isNotOf(E a, E b) { if (a->width == 1 && isCmp(a) && isCmp(b)) return (a->op == Op::Slt || a->op == Op::Sle) == (b->op == Op::Slt || b->op == Op::Sle) && a->vars == b->vars && mkNot(a) == b; return a->width == 1 && ((a->op == Op::Xor && isC(a->k[1], 1) && a->k[0] == b) || (b->op == Op::Xor && isC(b->k[1], 1) && b->k[0] == a)); }

// ---------------------------------------------------------------- division by constants
// a as a sum of coefficient * atom + constant, exact over the integers (no operation wraps)
struct Lin { std::vector<std::pair<E, i128>> t; i128 c = 0; };
static bool fitsS(i128 lo, i128 hi, unsigned w) { i128 mx = ((i128)1 << (w - 1)) - 1; return lo >= -mx - 1 && hi <= mx; }
static void linAtom(E e, i128 k, unsigned w, Lin& l) { E x = mkSExt(e, w); for (auto& p : l.t) if (p.first == x) { p.second += k; return; } l.t.push_back({x, k}); }
static void lin(E e, i128 k, unsigned w, Lin& l, int depth) {
  if (isC(e)) { l.c += k * e->smin; return; }
  i128 lim = (i128)1 << 62;
  if (depth > 0 && k < lim && k > -lim) switch (e->op) {
    case Op::Add: { E a = e->k[0], b = e->k[1]; if (fitsS((i128)a->smin + b->smin, (i128)a->smax + b->smax, e->width)) { lin(a, k, w, l, depth - 1); lin(b, k, w, l, depth - 1); return; } break; }
    case Op::Sub: { E a = e->k[0], b = e->k[1]; if (fitsS((i128)a->smin - b->smax, (i128)a->smax - b->smin, e->width)) { lin(a, k, w, l, depth - 1); lin(b, -k, w, l, depth - 1); return; } break; }
    case Op::Mul: { E a = e->k[0], b = e->k[1]; if (isC(b)) { i128 p = (i128)a->smin * b->smin, q = (i128)a->smax * b->smin; if (fitsS(std::min(p, q), std::max(p, q), e->width) && k * b->smin < lim && k * b->smin > -lim) { lin(a, k * b->smin, w, l, depth - 1); return; } } break; }
    case Op::Shl: { E a = e->k[0], b = e->k[1]; if (isC(b) && b->lo < 60 && b->lo < e->width - 1u) { i128 f = (i128)1 << b->lo; if (fitsS(a->smin * f, a->smax * f, e->width) && k * f < lim && k * f > -lim) { lin(a, k * f, w, l, depth - 1); return; } } break; }
    case Op::Concat: if (isC(e->k[1], 0) && e->k[1]->width < 60) { i128 f = (i128)1 << e->k[1]->width; if (fitsS(e->k[0]->smin * f, e->k[0]->smax * f, e->width) && k * f < lim && k * f > -lim) { lin(e->k[0], k * f, w, l, depth - 1); return; } } break;
    case Op::URem: { E x = e->k[0], b = e->k[1]; if (isC(b) && b->smin > 1 && x->smin >= 0 && k * b->smin < lim && k * b->smin > -lim) { lin(x, k, w, l, depth - 1); lin(mkBin(Op::UDiv, x, b), -k * b->smin, w, l, depth - 1); return; } break; }
    case Op::UDiv: { E x = e->k[0], b = e->k[1]; if (x->op == Op::URem && isC(b) && isC(x->k[1]) && b->smin > 1 && x->k[0]->smin >= 0 && x->k[1]->smin > 0 && x->k[1]->smin % b->smin == 0) {
        i128 f = x->k[1]->smin / b->smin; if (k * f < lim && k * f > -lim) { lin(mkBin(Op::UDiv, x->k[0], b), k, w, l, depth - 1); lin(mkBin(Op::UDiv, x->k[0], x->k[1]), -k * f, w, l, depth - 1); return; } } break; }
    case Op::SExt: if (e->k[0]->width == 1) { linAtom(mkZExt(e->k[0], w), -k, w, l); return; } lin(e->k[0], k, w, l, depth - 1); return;
    case Op::ZExt: if (e->k[0]->smin >= 0) { lin(e->k[0], k, w, l, depth - 1); return; } break;
    default: break;
  }
  linAtom(e, k, w, l);
}
// e = k * v + c over the integers; zx: v is read as unsigned
static bool linearIn(E e, E v, i128& k, i128& c, bool& zx) {
  Lin l; lin(e, 1, e->width, l, 6); if (l.t.size() != 1) return false; E x = l.t[0].first; zx = false;
  if (x != v) { if ((x->op != Op::ZExt && x->op != Op::SExt) || x->k[0] != v) return false; zx = x->op == Op::ZExt; }
  k = l.t[0].second; c = l.c; return k < ((i128)1 << 62) && k > -((i128)1 << 62);
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return q * b > a ? q - 1 : q; }
static void lin(E e, i128 k, unsigned w, Lin& l, int depth);
static E linE(std::vector<std::pair<E, i128>> t, i128 c, unsigned w) {
  for (size_t i = 0; i < t.size(); i++) {          // m * (x - x / d * d) is m * (x % d)
    E q = t[i].first; if (q->width != w && q->op != Op::ZExt && q->op != Op::SExt) continue; while (q->op == Op::ZExt || q->op == Op::SExt) q = q->k[0];
    if ((q->op != Op::UDiv && q->op != Op::SDiv) || !isC(q->k[1]) || q->k[1]->smin < 2 || t[i].second % q->k[1]->smin) continue;
    if (q->op == Op::UDiv && q->k[0]->smin < 0) continue;
    i128 m = -t[i].second / q->k[1]->smin; if (!m) continue; Lin x; lin(q->k[0], 1, w, x, 12); if (x.t.empty()) continue; bool all = true;
    for (auto& p : x.t) { bool f = false; for (auto& o : t) if (o.first == p.first && o.second == p.second * m) f = true; all &= f; }
    if (!all) continue;
    for (auto& p : x.t) for (size_t j = 0; j < t.size(); j++) if (t[j].first == p.first) { t[j].second = 0; break; }
    c -= m * x.c; t[i] = {mkSExt(mkBin(q->op == Op::UDiv ? Op::URem : Op::SRem, q->k[0], q->k[1]), w), m};
  }
  auto udivOf = [&](E q, E& x, i128& d) { while (q->op == Op::ZExt || q->op == Op::SExt) q = q->k[0]; if (q->op != Op::UDiv || !isC(q->k[1]) || q->k[0]->smin < 0 || q->k[1]->smin < 2) return false; x = q->k[0]; d = q->k[1]->smin; return true; };
  for (size_t i = 0; i < t.size(); i++) { E x; i128 da; if (!t[i].second || !udivOf(t[i].first, x, da)) continue;     // k * (x / a - b * (x / (a b))) is k * (x / a % b)
    for (size_t j = 0; j < t.size(); j++) { E y; i128 db; if (i == j || !t[j].second || !udivOf(t[j].first, y, db) || y != x || db <= da || db % da || t[j].second != -t[i].second * (db / da)) continue;
      unsigned xw = x->width; t[j].second = 0; t[i].first = mkSExt(mkBin(Op::URem, mkBin(Op::UDiv, x, mkC128(xw, (u128)da)), mkC128(xw, (u128)(db / da))), w); break; } }
  E r = nullptr; for (auto& p : t) if (p.second) { E x = mkBin(Op::Mul, p.first, mkC128(w, (u128)p.second)); r = r ? mkBin(Op::Add, r, x) : x; }
  E k = mkC128(w, (u128)c); return r ? mkBin(Op::Add, r, k) : k;
}
// floor(a / c) and a - c * floor(a / c) when the quotient can be split off exactly; c > 0
static bool splitDiv(E a, i128 c, E& q, E& r) {
  unsigned w = a->width; if (w > 64 || w < 16 || c < 2) return false;
  i128 ql = fdiv(a->smin, c), qh = fdiv(a->smax, c);
  if (qh - ql <= 3) {        // few quotients: a chain of comparisons
    q = mkC128(w, (u128)ql); E off = mkC128(w, (u128)(ql * c));
    for (i128 k = ql + 1; k <= qh; k++) { E ge = mkCmp(Op::Sle, mkC128(w, (u128)(k * c)), a); q = mkBin(Op::Add, q, mkZExt(ge, w)); off = mkIte(ge, mkC128(w, (u128)(k * c)), off); }
    r = mkBin(Op::Sub, a, off); if (qh - ql > 0) r = mkZExt(mkExtract(r, 0, std::min(w, 128u - (unsigned)(__builtin_clzll((uint64_t)c) + 64))), w); return true; }
  Lin l; lin(a, 1, w, l, 12); std::vector<std::pair<E, i128>> m, rest; i128 lo = 0, hi = 0;
  for (auto& p : l.t) { if (!p.second) continue; if (p.second % c == 0) m.push_back({p.first, p.second / c}); else { rest.push_back(p); i128 x = p.second * p.first->smin, y = p.second * p.first->smax; lo += std::min(x, y); hi += std::max(x, y); } }
  if (m.empty() && rest.size() == l.t.size()) return false;
  i128 kq = fdiv(l.c, c), kr = l.c - kq * c; lo += kr; hi += kr;
  if (!fitsS(lo, hi, w)) return false;
  i128 f = fdiv(lo, c); E R = linE(rest, kr - f * c, w); hi -= f * c;       // 0 <= R <= hi
  std::sort(m.begin(), m.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  if (hi < c) { q = linE(m, kq + f, w); r = R; return true; }
  if (!fitsS(0, hi, w)) return false;
  E cc = mkC128(w, (u128)c); linAtom(mkBin(Op::UDiv, R, cc), 1, w, *(l.t = m, &l)); q = linE(l.t, kq + f, w); r = mkBin(Op::URem, R, cc); return true;
}
static int g_inDiv = 0;
// a + sign * b, when writing both as linear forms cancels terms (x / c * c + x % c = x and the like)
static bool mulOf(E e, E x, Op op, i128& k, E& c) { if (e->op != Op::Mul || !isC(e->k[1]) || e->k[0]->op != op || e->k[0]->k[0] != x || !isC(e->k[0]->k[1])) return false; k = e->k[1]->smin; c = e->k[0]->k[1]; return true; }
static bool ext1(E e) { return (e->op == Op::ZExt || e->op == Op::SExt) && e->k[0]->width == 1; }
static E linSum(E a, E b, int sign) {
  unsigned w = a->width; if (w > 64 || w < 16 || g_inDiv || !(a->hasDiv || b->hasDiv || ext1(a) || ext1(b))) return nullptr;
  { i128 k; E c; for (Op op : {Op::UDiv, Op::SDiv}) { Op rm = op == Op::UDiv ? Op::URem : Op::SRem;      // x - x / c * c
      if (mulOf(b, a, op, k, c) && sign * k == -(i128)c->smin) return mkBin(rm, a, c); if (sign > 0 && mulOf(a, b, op, k, c) && k == -(i128)c->smin) return mkBin(rm, b, c); } }
  if (!(a->hasDiv && b->hasDiv) && !ext1(a) && !ext1(b)) return nullptr;
  g_inDiv++; Lin l, la, lb; lin(a, 1, w, la, 12); lin(b, 1, w, lb, 12); l = la; l.c += sign * lb.c; for (auto& q : lb.t) { bool hit = false; for (auto& p : l.t) if (p.first == q.first) { p.second += sign * q.second; hit = true; break; } if (!hit) l.t.push_back({q.first, sign * q.second}); }
  size_t n = 0; for (auto& p : l.t) n += p.second != 0; size_t before = std::max(la.t.size(), lb.t.size());
  E r = nullptr; if (n < l.t.size() && n <= before) { std::vector<std::pair<E, i128>> t; for (auto& p : l.t) if (p.second) t.push_back(p); std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; }); r = linE(t, l.c, w); }
  g_inDiv--; return r;
}
// decides a cmp b from the bounds of a - b over the integers, splitting on a boolean atom; -1 unknown
static int linDecide(Op op, i128 lo, i128 hi) {
  switch (op) {
    case Op::Eq: return lo > 0 || hi < 0 ? 0 : lo == 0 && hi == 0 ? 1 : -1;
    case Op::Slt: case Op::Ult: return hi < 0 ? 1 : lo >= 0 ? 0 : -1;
    default: return hi <= 0 ? 1 : lo > 0 ? 0 : -1; }
}
static bool linBounds(const Lin& l, size_t skip, i128& lo, i128& hi) {
  lo = hi = l.c; size_t i = 0;
  for (auto& p : l.t) { if (i++ == skip) continue; i128 x, y; if (__builtin_mul_overflow(p.second, (i128)p.first->smin, &x) || __builtin_mul_overflow(p.second, (i128)p.first->smax, &y)) return false; lo += std::min(x, y); hi += std::max(x, y); }
  return true;
}
static E linCmp(Op op, E a, E b) {
  unsigned w = a->width; if (w > 64 || w < 16 || g_inDiv || !(a->hasDiv || b->hasDiv)) return nullptr;
  Lin l; g_inDiv++; lin(a, 1, w, l, 12); lin(b, -1, w, l, 12); g_inDiv--; i128 lo, hi; if (!linBounds(l, ~0ull, lo, hi)) return nullptr;
  int d = linDecide(op, lo, hi); if (d >= 0) return mkC(1, d);
  for (size_t i = 0; i < l.t.size(); i++) { E x = l.t[i].first; if ((x->op != Op::ZExt && x->op != Op::SExt) || x->k[0]->width != 1 || !linBounds(l, i, lo, hi)) continue;
    i128 k = l.t[i].second * (x->op == Op::SExt ? -1 : 1); int t = linDecide(op, lo + k, hi + k), f = linDecide(op, lo, hi);
    if (t >= 0 && f >= 0) return mkIte(x->k[0], mkC(1, t), mkC(1, f)); }
  return nullptr;
}
// low nw bits of a linear form: coefficients count modulo 2^nw
static E linLow(E a, unsigned nw) {
  unsigned w = a->width; if (w > 64 || nw < 16 || !a->hasDiv || g_inDiv || (a->op != Op::Add && a->op != Op::Sub && a->op != Op::Mul)) return nullptr;
  g_inDiv++; Lin l; lin(a, 1, w, l, 12); i128 mod = (i128)1 << nw, half = mod >> 1; bool ch = false; size_t n = 0;
  for (auto& p : l.t) { i128 k = ((p.second % mod) + mod) % mod; if (k >= half) k -= mod; if (k != p.second) { ch = true; p.second = k; } n += k != 0; }
  E r = nullptr; if (ch && n <= l.t.size()) { std::vector<std::pair<E, i128>> t; for (auto& p : l.t) if (p.second) t.push_back(p); std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; }); r = linE(t, l.c, w); }
  g_inDiv--; return r;
}
// replacing an if-then-else by one arm would forget what its condition says about the value
bool iteLoses(E ite, E arm) { return ite->width >= 32 && ite->width <= 64 && (arm->smin < ite->smin || arm->smax > ite->smax); }
struct Assume { E c, nc; bool v; int budget; std::unordered_map<E, E> memo; };
static E assumeE(E e, Assume& A) {
  if (e == A.c) return mkC(1, A.v); if (e == A.nc) return mkC(1, !A.v);
  if (!e->nk || A.budget <= 0) return e;
  switch (e->op) { case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::URem: case Op::SDiv: case Op::SRem: case Op::ZExt: case Op::SExt: case Op::Extract: case Op::Ite: case Op::And: case Op::Or: break; default: return e; }
  auto it = A.memo.find(e); if (it != A.memo.end()) return it->second; A.budget--;
  E r; if (e->op == Op::Ite && (e->k[0] == A.c || e->k[0] == A.nc)) { E arm = (e->k[0] == A.c) == A.v ? e->k[1] : e->k[2]; r = iteLoses(e, arm) ? e : assumeE(arm, A); }
  else { E k[3]; for (int i = 0; i < e->nk; i++) k[i] = assumeE(e->k[i], A); r = rebuild(e, k); }
  A.memo[e] = r; return r;
}

static E divRule(Op op, E a, E b) {
  unsigned w = a->width; if (w > 64 || w < 16 || !isC(b) || isC(a) || b->smin < 2 || g_inDiv > 6) return nullptr;
  bool sg = op == Op::SDiv || op == Op::SRem; if (!sg && a->smin < 0) return nullptr;
  if ((op == Op::SDiv || op == Op::UDiv) && a->op == op && isC(a->k[1]) && a->k[1]->smin > 0) { i128 p = (i128)a->k[1]->smin * b->smin; if (fitsS(0, p, w)) return mkBin(op, a->k[0], mkC128(w, (u128)p)); }
  if ((op == Op::SRem || op == Op::URem) && a->op == op && isC(a->k[1]) && a->k[1]->smin > 0 && a->k[1]->smin % b->smin == 0) return mkBin(op, a->k[0], b);
  E q, r; g_inDiv++; bool ok = splitDiv(a, b->smin, q, r); g_inDiv--; if (!ok) return nullptr;
  if (!sg || a->smin >= 0) return op == Op::SDiv || op == Op::UDiv ? q : r;
  E adj = mkAnd(mkCmp(Op::Slt, q, mkC(w, 0)), mkNot(mkCmp(Op::Eq, r, mkC(w, 0))));   // truncation toward zero
  return op == Op::SDiv ? mkBin(Op::Add, q, mkZExt(adj, w)) : mkBin(Op::Sub, r, mkIte(adj, b, mkC(w, 0)));
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return node(op, w, 0, a, b);
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t cb = isC(b) ? b->lo : 0; bool small = w <= 64;
  switch (op) {
    case Op::Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, a->k[0], mkBin(Op::Add, a->k[1], b));
      if (!isC(b) && a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
      if (!isC(b) && b->op == Op::Add && isC(b->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
      if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
      if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (E r = linSum(a, b, 1)) return r;
      break;
    case Op::Sub:
      if (a == b) return mkC(w, 0);
      if (isC(b)) return mkBin(Op::Add, a, mkC128(w, (u128)0 - cval(b)));
      if (a->op == Op::Add && a->k[0] == b) return a->k[1];
      if (a->op == Op::Add && a->k[1] == b) return a->k[0];
      if (a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
      if (b->op == Op::Add && isC(b->k[1])) return mkBin(Op::Sub, mkBin(Op::Sub, a, b->k[0]), b->k[1]);
      if (b->op == Op::Sub && b->k[0] == a) return b->k[1];
      if (b->op == Op::Add && b->k[0] == a) return mkBin(Op::Sub, mkC(w, 0), b->k[1]);
      if (b->op == Op::Add && b->k[1] == a) return mkBin(Op::Sub, mkC(w, 0), b->k[0]);
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (E r = linSum(a, b, -1)) return r;
      break;
    case Op::Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && a->op == Op::Mul && isC(a->k[1])) return mkBin(Op::Mul, a->k[0], mkBin(Op::Mul, a->k[1], b));
      break;
    case Op::UDiv:
      if (isC(b, 1)) return a;
      if (isC(b) && small && isPow2(cb)) return mkBin(Op::LShr, a, mkC(w, __builtin_ctzll(cb)));
      if (small && isC(b) && a->umax < cb) return mkC(w, 0);
      if (E r = divRule(op, a, b)) return r;
      break;
    case Op::URem:
      if (isC(b, 1)) return mkC(w, 0);
      if (isC(b) && small && isPow2(cb)) return mkBin(Op::And, a, mkC(w, cb - 1));
      if (small && isC(b) && a->umax < cb) return a;
      if (E r = divRule(op, a, b)) return r;
      break;
    case Op::SDiv:
      if (isC(b, 1)) return a;
      if (small && a->smin >= 0 && b->smin > 0) return mkBin(Op::UDiv, a, b);
      if (small && w >= 16 && isC(b) && b->smin > 1 && a->op == Op::Sub && isC(a->k[0], 0) && a->k[1]->smin >= 0) return mkBin(Op::Sub, a->k[0], mkBin(Op::UDiv, a->k[1], b));
      if (E r = divRule(op, a, b)) return r;
      break;
    case Op::SRem:
      if (isC(b, 1)) return mkC(w, 0);
      if (small && a->smin >= 0 && b->smin > 0) return mkBin(Op::URem, a, b);
      if (small && w >= 16 && isC(b) && b->smin > 1 && a->op == Op::Sub && isC(a->k[0], 0) && a->k[1]->smin >= 0) return mkBin(Op::Sub, a->k[0], mkBin(Op::URem, a->k[1], b));
      if (small && b->smin > 0 && a->smax < b->smin && a->smin > -b->smin) return a;
      if (E r = divRule(op, a, b)) return r;
      break;
    case Op::And:
      if (a == b) return a;
      if (isC(b, 0)) return b;
      if (isC(b) && cval(b) == mask128(w)) return a;
      if (isNotOf(a, b)) return mkC(1, 0);
      if (isC(b) && small) {
        if (isPow2(cb + 1) && a->umax <= cb) return a;
        if (isPow2(cb + 1)) { unsigned n = 64 - __builtin_clzll(cb); return mkZExt(mkExtract(a, 0, n), w); }
        if (a->op == Op::And && isC(a->k[1])) return mkBin(Op::And, a->k[0], mkC(w, a->k[1]->lo & cb));
        if (a->umax < 64 * 1024 && (a->umax ? (maskw(64 - __builtin_clzll(a->umax)) & cb) : 0) == 0) return mkC(w, 0);
      }
      if (w == 1) { if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a; }
      break;
    case Op::Or:
      if (a == b) return a;
      if (isC(b, 0)) return a;
      if (isC(b) && cval(b) == mask128(w)) return b;
      if (isNotOf(a, b)) return mkC(1, 1);
      // (zext x) | (y << k)  with disjoint bits -> concat
      { E x = a, y = b;
        for (int s = 0; s < 2; s++, std::swap(x, y))
          if (y->op == Op::Shl && isC(y->k[1]) && small && x->umax <= maskw((unsigned)y->k[1]->lo) && y->k[1]->lo > 0 && y->k[1]->lo < w) {
            unsigned k = (unsigned)y->k[1]->lo; return mkConcat(mkExtract(y->k[0], 0, w - k), mkExtract(x, 0, k)); }
          else if (y->op == Op::Concat && isC(y->k[1], 0) && small && y->k[1]->width < w && x->umax <= maskw(y->k[1]->width)) {
            unsigned k = y->k[1]->width; return mkConcat(y->k[0], mkExtract(x, 0, k)); }
      }
      if (w == 1) { if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return a; }
      break;
    case Op::Xor:
      if (a == b) return mkC(w, 0);
      if (isC(b, 0)) return a;
      if (w == 1 && isC(b, 1)) return mkNot(a);
      if (isC(b) && a->op == Op::Xor && isC(a->k[1])) return mkBin(Op::Xor, a->k[0], mkBin(Op::Xor, a->k[1], b));
      break;
    case Op::Shl: case Op::LShr: case Op::AShr:
      if (isC(b, 0)) return a;
      if (isC(a, 0)) return a;
      if (isC(b) && cval(b) >= w) { if (op != Op::AShr) return mkC(w, 0); b = mkC(w, w - 1); cb = w - 1; }
      if (isC(b)) {
        if (op == Op::LShr) { return mkZExt(mkExtract(a, (unsigned)cb, w - (unsigned)cb), w); }
        if (op == Op::AShr) { if (small && a->smin >= 0) return mkBin(Op::LShr, a, b); if (a->op == Op::SExt || (small && cb > 0)) return mkSExt(mkExtract(a, (unsigned)cb, w - (unsigned)cb), w); }
        if (op == Op::Shl && (a->op == Op::ZExt) && a->k[0]->width + cb <= w) { E c = mkConcat(a->k[0], mkC((unsigned)cb, 0)); return mkZExt(c, w); }
      }
      break;
    default: break;
  }
  return node(op, w, 0, a, b);
}

static bool iteConstArms(E e) { return e->op == Op::Ite && isC(e->k[1]) && isC(e->k[2]); }

E mkCmp(Op op, E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return node(op, 1, 0, a, b);
  if (w <= 64) {
    switch (op) {
      case Op::Eq: if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkFalse(); break;
      case Op::Ult: if (a->umax < b->umin) return mkTrue(); if (a->umin >= b->umax) return mkFalse(); break;
      case Op::Ule: if (a->umax <= b->umin) return mkTrue(); if (a->umin > b->umax) return mkFalse(); break;
      case Op::Slt: if (a->smax < b->smin) return mkTrue(); if (a->smin >= b->smax) return mkFalse(); break;
      case Op::Sle: if (a->smax <= b->smin) return mkTrue(); if (a->smin > b->smax) return mkFalse(); break;
      default: break;
    }
  }
  if (a == b) return mkC(1, op == Op::Eq || op == Op::Ule || op == Op::Sle);
  if (op == Op::Eq || op == Op::Slt || op == Op::Sle || (w <= 64 && a->smin >= 0 && b->smin >= 0)) if (E r = linCmp(op, a, b)) return r;
  if (w <= 64 && op == Op::Ule) { if (isC(b) && b->lo != maskw(w)) return mkCmp(Op::Ult, a, mkC(w, b->lo + 1)); if (isC(a) && a->lo) return mkCmp(Op::Ult, mkC(w, a->lo - 1), b); }
  if (w <= 64 && w > 1 && op == Op::Sle) { int64_t mx = (int64_t)(maskw(w) >> 1); if (isC(b) && b->smin != mx) return mkCmp(Op::Slt, a, mkC(w, b->lo + 1)); if (isC(a) && a->smin != -mx - 1) return mkCmp(Op::Slt, mkC(w, a->lo - 1), b); }
  // ite(c, k1, k2) cmp k   and   k cmp ite(...)
  if (iteConstArms(a) && isC(b)) return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
  if (iteConstArms(b) && isC(a)) return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  if (op == Op::Eq) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1 && isC(b)) return b->lo ? a : mkNot(a);
    if (isC(b)) {
      if (a->op == Op::Ite) { // partially constant ite chain (results of comparisons/table look-ups)
        bool t = isC(a->k[1]), f = isC(a->k[2]);
        if (t && cval(a->k[1]) != cval(b)) return mkAnd(mkNot(a->k[0]), mkCmp(Op::Eq, a->k[2], b));
        if (t && cval(a->k[1]) == cval(b)) return mkOr(a->k[0], mkCmp(Op::Eq, a->k[2], b));
        if (f && cval(a->k[2]) != cval(b)) return mkAnd(a->k[0], mkCmp(Op::Eq, a->k[1], b));
        if (f && cval(a->k[2]) == cval(b)) return mkOr(mkNot(a->k[0]), mkCmp(Op::Eq, a->k[1], b));
      }
      if (a->op == Op::ZExt) { unsigned kw = a->k[0]->width; if (cval(b) >> kw) return mkFalse(); return mkCmp(Op::Eq, a->k[0], mkC128(kw, cval(b))); }
      if (a->op == Op::SExt) { unsigned kw = a->k[0]->width; E t = mkC128(kw, cval(b)); if (cval(mkSExt(t, w)) != cval(b)) return mkFalse(); return mkCmp(Op::Eq, a->k[0], t); }
      if (a->op == Op::Add && isC(a->k[1])) return mkCmp(Op::Eq, a->k[0], mkBin(Op::Sub, b, a->k[1]));
      if (a->op == Op::Xor && isC(a->k[1])) return mkCmp(Op::Eq, a->k[0], mkBin(Op::Xor, b, a->k[1]));
      if (a->op == Op::Concat) { unsigned lw = a->k[1]->width; return mkAnd(mkCmp(Op::Eq, a->k[0], mkC128(a->k[0]->width, cval(b) >> lw)), mkCmp(Op::Eq, a->k[1], mkC128(lw, cval(b)))); }
      if (a->op == Op::Sub && isC(b, 0)) return mkCmp(Op::Eq, a->k[0], a->k[1]);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt) { unsigned kw = std::max(a->k[0]->width, b->k[0]->width); return mkCmp(Op::Eq, mkZExt(a->k[0], kw), mkZExt(b->k[0], kw)); }
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkCmp(Op::Eq, a->k[0], b->k[0]);
    if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkCmp(Op::Eq, a->k[0], b->k[0]);
    if (a->op == Op::Add && b->op == Op::Add && a->k[0] == b->k[0]) return mkCmp(Op::Eq, a->k[1], b->k[1]);
    if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width)
      return mkAnd(mkCmp(Op::Eq, a->k[0], b->k[0]), mkCmp(Op::Eq, a->k[1], b->k[1]));
  } else {
    bool s = op == Op::Slt || op == Op::Sle;
    if (a->op == Op::ZExt && b->op == Op::ZExt) {
      unsigned kw = std::max(a->k[0]->width, b->k[0]->width);
      if (kw < w) { Op o = op == Op::Slt ? Op::Ult : op == Op::Sle ? Op::Ule : op; return mkCmp(o, mkZExt(a->k[0], kw), mkZExt(b->k[0], kw)); }
    }
    if (a->op == Op::SExt && b->op == Op::SExt && s && a->k[0]->width == b->k[0]->width) return mkCmp(op, a->k[0], b->k[0]);
    if (w <= 64 && a->op == Op::ZExt && isC(b)) { unsigned kw = a->k[0]->width; uint64_t c = b->lo; if ((!s || sxt(c, w) >= 0) && c <= maskw(kw)) { Op o = op == Op::Slt ? Op::Ult : op == Op::Sle ? Op::Ule : op; return mkCmp(o, a->k[0], mkC(kw, c)); } }
    if (w <= 64 && b->op == Op::ZExt && isC(a)) { unsigned kw = b->k[0]->width; uint64_t c = a->lo; if ((!s || sxt(c, w) >= 0) && c <= maskw(kw)) { Op o = op == Op::Slt ? Op::Ult : op == Op::Sle ? Op::Ule : op; return mkCmp(o, mkC(kw, c), b->k[0]); } }
    if (w <= 64 && s && a->op == Op::SExt && isC(b)) { unsigned kw = a->k[0]->width; int64_t c = sxt(b->lo, w); if (c >= sxt(1ull << (kw - 1), kw) && c <= (int64_t)(maskw(kw) >> 1)) return mkCmp(op, a->k[0], mkC(kw, (uint64_t)c)); }
    if (w <= 64 && s && b->op == Op::SExt && isC(a)) { unsigned kw = b->k[0]->width; int64_t c = sxt(a->lo, w); if (c >= sxt(1ull << (kw - 1), kw) && c <= (int64_t)(maskw(kw) >> 1)) return mkCmp(op, mkC(kw, (uint64_t)c), b->k[0]); }
    if (s && w <= 64 && a->smin >= 0 && b->smin >= 0) return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    if (op == Op::Ult && isC(b, 1)) return mkCmp(Op::Eq, a, mkC(w, 0));
    if (op == Op::Ult && isC(a) && w <= 64 && a->lo == maskw(w) - 1) return mkCmp(Op::Eq, b, mkC(w, maskw(w)));
    if (op == Op::Ult && isC(a, 0)) return mkNot(mkCmp(Op::Eq, a, b));
    // x + c1 <s c2 when no overflow possible
    if (s && w <= 64 && a->op == Op::Add && isC(a->k[1]) && isC(b)) {
      i128 lo = (i128)a->k[0]->smin + a->k[1]->smin, hi = (i128)a->k[0]->smax + a->k[1]->smin, c = (i128)b->smin - a->k[1]->smin;
      i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1;
      if (lo >= mn && hi <= mx && c >= mn && c <= mx) return mkCmp(op, a->k[0], mkC(w, (uint64_t)c));
    }
    if (s && w <= 64 && b->op == Op::Add && isC(b->k[1]) && isC(a)) {
      i128 lo = (i128)b->k[0]->smin + b->k[1]->smin, hi = (i128)b->k[0]->smax + b->k[1]->smin, c = (i128)a->smin - b->k[1]->smin;
      i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1;
      if (lo >= mn && hi <= mx && c >= mn && c <= mx) return mkCmp(op, mkC(w, (uint64_t)c), b->k[0]);
    }
  }
  return node(op, 1, 0, a, b);
}

static unsigned lowZ(E e, int d = 6) {
  if (!d--) return 0;
  if (isC(e)) { u128 v = cval(e); unsigned n = 0; while (n < e->width && !(v >> n & 1)) n++; return n; }
  switch (e->op) {
    case Op::Shl: return isC(e->k[1]) ? std::min<unsigned>(e->width, (unsigned)e->k[1]->lo + lowZ(e->k[0], d)) : 0;
    case Op::Concat: { unsigned z = lowZ(e->k[1], d); return z < e->k[1]->width ? z : z + lowZ(e->k[0], d); }
    case Op::ZExt: case Op::SExt: { unsigned z = lowZ(e->k[0], d); return z >= e->k[0]->width ? e->width : z; }
    case Op::Add: case Op::Sub: return std::min(lowZ(e->k[0], d), lowZ(e->k[1], d));
    case Op::Mul: return std::min<unsigned>(e->width, lowZ(e->k[0], d) + lowZ(e->k[1], d));
    default: return 0;
  }
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkC128(w, cval(a) >> lo);
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], lo + a->aux, w);
    case Op::Concat: { unsigned lw = a->k[1]->width; if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case Op::ZExt: { unsigned kw = a->k[0]->width; if (lo >= kw) return mkC(w, 0); if (lo + w <= kw) return mkExtract(a->k[0], lo, w); return mkZExt(mkExtract(a->k[0], lo, kw - lo), w); }
    case Op::SExt: { unsigned kw = a->k[0]->width; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w); return mkSExt(mkExtract(a->k[0], kw - 1, 1), w); }
    case Op::Ite: if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == Op::Concat || a->k[1]->op == Op::ZExt || a->k[2]->op == Op::Concat || a->k[2]->op == Op::ZExt || a->k[1]->op==Op::Ite || a->k[2]->op==Op::Ite) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case Op::Or: if (!isC(a->k[1]) && lo) { E x = mkExtract(a->k[0], lo, w), y = mkExtract(a->k[1], lo, w); if (isC(x) || isC(y)) return mkBin(a->op, x, y); break; }
    case Op::And: case Op::Xor: if (isC(a->k[1]) || lo == 0) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
    case Op::Shl: if (isC(a->k[1])) { unsigned s = (unsigned)a->k[1]->lo; if (lo >= s) return mkExtract(a->k[0], lo - s, w); if (lo + w <= s) return mkC(w, 0);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - s), mkC(s - lo, 0)); } break;
    case Op::Add: case Op::Sub: case Op::Mul: // low bits only depend on low bits
      if (lo == 0) if (E r = linLow(a, w)) return mkExtract(r, 0, w);
      if (a->width <= 64 && lowZ(a) >= lo + w) return mkC(w, 0);
      if (lo && a->width <= 64 && a->op == Op::Add) {       // multiples of a power of two: nothing below, no carry
        unsigned x = lowZ(a->k[0]), y = lowZ(a->k[1]);
        if (0) return mkBin(Op::Add, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); }
      if (lo == 0) { E x = a->k[0], y = a->k[1];
        auto cheap = [&](E z) { return isC(z) || z->op == Op::ZExt || z->op == Op::SExt || z->op == Op::Concat; };
        if (cheap(x) && cheap(y)) return mkBin(a->op, mkExtract(x, 0, w), mkExtract(y, 0, w)); } break;
    default: break;
  }
  return node(Op::Extract, w, lo, a);
}
E mkConcat(E h, E l) {
  unsigned w = h->width + l->width;
  if (isC(h) && l->op == Op::Extract && l->aux + w <= l->k[0]->width && mkExtract(l->k[0], l->aux + l->width, h->width) == h) return mkExtract(l->k[0], l->aux, w);   // the constant is the known high part
  if (w <= 64 && isC(h) && cval(h) == mask128(h->width) && !isC(l) && l->smax < 0) return mkSExt(l, w);
  if (isC(h, 0) && !isC(l)) return mkZExt(l, w);
  if (h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && h->aux == l->aux + l->width) return mkExtract(h->k[0], l->aux, w);
  if (l->op == Op::Concat && h->op == Op::Extract && l->k[0]->op == Op::Extract && h->k[0] == l->k[0]->k[0] && h->aux == l->k[0]->aux + l->k[0]->width)
    return mkConcat(mkExtract(h->k[0], l->k[0]->aux, h->width + l->k[0]->width), l->k[1]);
  if (h->op == Op::ZExt) return mkZExt(mkConcat(h->k[0], l), w);
  // the low part of a value, simplified on its own, below its high part
  if (h->op == Op::Extract && h->aux >= l->width && (h->k[0]->op == Op::Add || h->k[0]->op == Op::Sub || h->k[0]->op == Op::Mul) && mkExtract(h->k[0], h->aux - l->width, l->width) == l) return mkExtract(h->k[0], h->aux - l->width, w);
  // sign extension recovered from bytes: concat(extract(sext..)) handled by Extract rules
  if (h->op == Op::SExt && h->k[0]->width == 1 && h->k[0]->op == Op::Extract && l->op == Op::Extract && h->k[0]->k[0] == l->k[0] && h->k[0]->aux == l->aux + l->width - 1) return mkSExt(l, w);
  if (h->op == Op::SExt && h->k[0]->width == 1 && h->k[0]->op == Op::Extract && h->k[0]->k[0] == l && h->k[0]->aux == l->width - 1) return mkSExt(l, w);
  if (h->op == Op::Ite && l->op == Op::Ite && h->k[0] == l->k[0]) return mkIte(h->k[0], mkConcat(h->k[1], l->k[1]), mkConcat(h->k[2], l->k[2]));
  if (h->op == Op::Ite && iteConstArms(h) && isC(l)) return mkIte(h->k[0], mkConcat(h->k[1], l), mkConcat(h->k[2], l));
  return node(Op::Concat, w, 0, h, l);
}
E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkC128(w, cval(a));
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && iteConstArms(a)) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  // zext(extract(x,0,n)) where x already fits in n bits
  if (a->op == Op::Extract && a->aux == 0 && a->k[0]->width <= 64 && a->k[0]->umax <= maskw(a->width)) {
    E x = a->k[0]; if (x->width == w) return x; if (x->width < w) return mkZExt(x, w); }
  return node(Op::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return node(Op::SExt, w, 0, a);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->width <= 64 && a->smin >= 0) return mkZExt(a, w);
  if (a->op == Op::Ite && iteConstArms(a)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  if (a->op == Op::Extract && a->aux == 0 && a->k[0]->width <= 64) {
    E x = a->k[0]; int64_t mx = (int64_t)(maskw(a->width) >> 1);
    if (x->smin >= -mx - 1 && x->smax <= mx) { if (x->width == w) return x; if (x->width < w) return mkSExt(x, w); } }
  return node(Op::SExt, w, 0, a);
}
static void fpIte(E r, E c, E t, E f);
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->lo ? t : f;
  if (t == f) return t;
  if (t->width == 1) {
    if (isC(t, 1) && isC(f, 0)) return c;
    if (isC(t, 0) && isC(f, 1)) return mkNot(c);
    if (isC(t, 1)) return mkOr(c, f);
    if (isC(t, 0)) return mkAnd(mkNot(c), f);
    if (isC(f, 1)) return mkOr(mkNot(c), t);
    if (isC(f, 0)) return mkAnd(c, t);
  }
  if (c->op == Op::Xor && isC(c->k[1], 1)) return mkIte(c->k[0], f, t);
  if (t->op == Op::Ite && t->k[0] == c) t = t->k[1];
  if (f->op == Op::Ite && f->k[0] == c) f = f->k[2];
  if (t->width >= 32 && (t->hasDiv || f->hasDiv || c->hasDiv || t->op == Op::Add || f->op == Op::Add)) { E nc = mkNot(c); Assume x{c, nc, true, 120, {}}, y{c, nc, false, 120, {}}; t = assumeE(t, x); f = assumeE(f, y); }
  if (t == f) return t;
  { auto neg = [](E n, E x) { return n->op == Op::Sub && isC(n->k[0], 0) && n->k[1] == x && x->smin >= 0; };   // the magnitude of -x, x >= 0
    auto isNeg = [](E c, E n) { return c->op == Op::Slt && c->k[0] == n && isC(c->k[1], 0); };  auto isNon = [](E c, E n) { return (c->op == Op::Sle && isC(c->k[0], 0) && c->k[1] == n) || (c->op == Op::Slt && c->k[1] == n && isC(c->k[0]) && c->k[0]->smin == -1); };
    auto isPos = [](E c, E x) { return (c->op == Op::Slt && isC(c->k[0], 0) && c->k[1] == x) || (c->op == Op::Sle && isC(c->k[0], 1) && c->k[1] == x); };
    if (t->width <= 64 && neg(f, t) && (isNeg(c, f) || isPos(c, t))) return t; if (t->width <= 64 && neg(t, f) && isNon(c, t)) return f; }
  if (c->op == Op::Eq && isC(c->k[1], 0) && t->op == Op::Sub && isC(t->k[0], 0) && t->k[1] == f && (f == c->k[0] || ((f->op == Op::ZExt || f->op == Op::SExt) && f->k[0] == c->k[0]))) return f;     // x == 0 ? -x : x
  if (c->op == Op::Eq && isC(c->k[1], 0) && f->op == Op::Sub && isC(f->k[0], 0) && f->k[1] == t && (t == c->k[0] || ((t->op == Op::ZExt || t->op == Op::SExt) && t->k[0] == c->k[0]))) return f;
  if (f->op == Op::Ite && f->k[1] == t) return mkIte(mkOr(c, f->k[0]), t, f->k[2]);
  E r = node(Op::Ite, t->width, 0, c, t, f); if (t->width == 64 && !isC(r)) fpIte(r, c, t, f); return r;
}

// ---------------------------------------------------------------- floating point
// A floating-point expression may carry an exact description: value = num * 2^-scale (num an integer
// expression of width 64 within +-2^53), optionally divided by den; nz tells whether it is the negative zero.
struct FInfo { E num; E nz; E den; E dnz; unsigned scale; };
static std::unordered_map<E, FInfo> g_finfo;
static const int64_t LIM = 1ll << 53;
static bool finfo(E e, FInfo& fi) {
  auto it = g_finfo.find(e); if (it != g_finfo.end()) { fi = it->second; return true; }
  if (isC(e) && e->width == 64) {
    double d = asD(cval(e)); if (std::isnan(d) || std::isinf(d)) return false;
    for (unsigned s = 0; s <= 30; s++) { double x = std::ldexp(d, s); if (x == std::floor(x) && std::fabs(x) <= (double)LIM) { fi = {mkC(64, (uint64_t)(int64_t)x), mkC(1, d == 0 && std::signbit(d)), nullptr, nullptr, s}; return true; } }
  }
  return false;
}
static bool fits(i128 lo, i128 hi) { return lo >= -LIM && hi <= LIM; }
static E shlE(E x, unsigned s) { return s ? mkBin(Op::Mul, x, mkC(64, 1ull << s)) : x; }
static bool align(FInfo& a, FInfo& b) {
  unsigned s = std::max(a.scale, b.scale);
  for (FInfo* f : {&a, &b}) { unsigned d = s - f->scale; if (d) { if (!fits((i128)f->num->smin << d, (i128)f->num->smax << d)) return false; f->num = shlE(f->num, d); f->scale = s; } }
  return true;
}
static void fpIte(E r, E c, E t, E f) {     // a choice between two exactly known values (or one and a suitable constant)
  if (g_finfo.empty() || g_finfo.count(r) || (!g_finfo.count(t) && !g_finfo.count(f))) return;
  FInfo x, y; if (!finfo(t, x) || !finfo(f, y) || x.den || y.den || !align(x, y)) return;
  FInfo z; z.num = mkIte(c, x.num, y.num); z.nz = mkIte(c, x.nz, y.nz); z.den = z.dnz = nullptr; z.scale = x.scale; g_finfo[r] = z;
}
static E isZeroE(E n) { return mkCmp(Op::Eq, n, mkC(64, 0)); }
static E signE(const FInfo& f) { return mkOr(mkCmp(Op::Slt, f.num, mkC(64, 0)), f.nz); }
static void annotate(E r, Op op, E a, E b) {
  if (r->width != 64 || isC(r) || g_finfo.count(r)) return;
  FInfo x, y, z; if (!finfo(a, x)) return; if (b && !finfo(b, y)) return;
  if (x.den || (b && y.den)) { if (op == Op::FNeg && x.den) { FInfo n = x; n.num = mkBin(Op::Sub, mkC(64, 0), x.num); n.nz = mkAnd(isZeroE(x.num), mkNot(x.nz)); g_finfo[r] = n; } return; }
  z.den = nullptr; z.dnz = nullptr;
  switch (op) {
    case Op::FAdd: if (!align(x, y) || !fits((i128)x.num->smin + y.num->smin, (i128)x.num->smax + y.num->smax)) return;
      z.num = mkBin(Op::Add, x.num, y.num); z.scale = x.scale; z.nz = mkAnd(x.nz, y.nz); break;
    case Op::FSub: if (!align(x, y) || !fits((i128)x.num->smin - y.num->smax, (i128)x.num->smax - y.num->smin)) return;
      z.num = mkBin(Op::Sub, x.num, y.num); z.scale = x.scale; z.nz = mkAnd(x.nz, mkAnd(isZeroE(y.num), mkNot(y.nz))); break;
    case Op::FMul: { i128 p[4] = {(i128)x.num->smin * y.num->smin, (i128)x.num->smin * y.num->smax, (i128)x.num->smax * y.num->smin, (i128)x.num->smax * y.num->smax};
      if (!fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4)) || x.scale + y.scale > 40) return;
      z.num = mkBin(Op::Mul, x.num, y.num); z.scale = x.scale + y.scale; z.nz = mkAnd(isZeroE(z.num), mkBin(Op::Xor, signE(x), signE(y))); break; }
    case Op::FNeg: z.num = mkBin(Op::Sub, mkC(64, 0), x.num); z.scale = x.scale; z.nz = mkAnd(isZeroE(x.num), mkNot(x.nz)); break;
    case Op::FDiv:
      if (isC(y.num) && y.num->smin != 0 && (std::llabs(y.num->smin) & (std::llabs(y.num->smin) - 1)) == 0) {   // by a power of two: exact
        int sc = (int)x.scale + (63 - __builtin_clzll((uint64_t)std::llabs(y.num->smin))) - (int)y.scale; if (sc < 0 || sc > 40) return;
        z.num = y.num->smin < 0 ? mkBin(Op::Sub, mkC(64, 0), x.num) : x.num; z.scale = (unsigned)sc; z.nz = y.num->smin < 0 ? mkAnd(isZeroE(x.num), mkNot(x.nz)) : x.nz; break; }
      if (!align(x, y)) return;
      z.num = x.num; z.nz = x.nz; z.den = y.num; z.dnz = y.nz; z.scale = 0; break;
    default: return;
  }
  g_finfo[r] = z;
}

// ---------------------------------------------------------------- extended precision, approximately
// An 80-bit expression may carry a description with an error bound: |value - num / den| <= err, num an
// integer expression of width 64.  Where rounding could decide, a fresh truth value stands for the outcome,
// so that both are explored.
struct AInfo { E num; int64_t den; double err; };
static std::unordered_map<E, AInfo> g_ainfo;
static const i128 ALIM = (i128)1 << 61;
static bool ainfo(E e, AInfo& f) {
  if (e->width != 80) return false;
  auto it = g_ainfo.find(e); if (it != g_ainfo.end()) { f = it->second; return true; }
  if (isC(e)) { f80 d = asX(cval(e)); if (!(d == d) || std::signbit(d) || d > 1e18L || d != (f80)(int64_t)d) return false; f = {mkC(64, (uint64_t)(int64_t)d), 1, 0}; return true; }
  return false;
}
static i128 amax(E n) { i128 a = n->smin, b = n->smax; return std::max(a < 0 ? -a : a, b < 0 ? -b : b); }
static bool aMul(E n, i128 c, E& r) { if (amax(n) * (c < 0 ? -c : c) > ALIM) return false; r = c == 1 ? n : mkBin(Op::Mul, n, mkC(64, (uint64_t)(int64_t)c)); return true; }
static int64_t gcd64(int64_t a, int64_t b) { while (b) { int64_t t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
static const double AEPS = 1.1e-19;      // half a unit in the last place of the 64-bit significand, rounded up
static bool aSum(const AInfo& x, const AInfo& y, int sign, AInfo& r) {
  int64_t g = gcd64(x.den, y.den); i128 D = (i128)x.den / g * y.den; if (D > (i128)1e12) return false; E a, b;
  if (!aMul(x.num, D / x.den, a) || !aMul(y.num, D / y.den, b) || amax(a) + amax(b) > ALIM) return false;
  r = {mkBin(sign > 0 ? Op::Add : Op::Sub, a, b), (int64_t)D, (x.err + y.err) * 1.0001}; return true;
}
static void aRound(AInfo& r) { if (r.den == 1 && r.err == 0) return; r.err += ((double)amax(r.num) / (double)r.den + r.err + 1) * AEPS; r.err *= 1.0001; }
static E aFresh(E raw) { return mkVar("fp." + std::to_string(raw->id), 1); }
static E aArith(Op op, E raw, E a, E b) {
  AInfo x, y, r; if (raw->width != 80 || isC(raw) || !ainfo(a, x) || !ainfo(b, y)) return raw;
  switch (op) {
    case Op::FAdd: case Op::FSub: if (!aSum(x, y, op == Op::FAdd ? 1 : -1, r)) return raw; break;
    case Op::FMul: { if (!isC(y.num)) std::swap(x, y); if (!isC(y.num)) return raw; int64_t c = y.num->smin; if (y.den != 1 || y.err != 0 || c <= 0) return raw;
      int64_t g = gcd64(c, x.den); r.den = x.den / g; r.err = x.err * (double)c * 1.0001; if (!aMul(x.num, c / g, r.num)) return raw; break; }
    case Op::FDiv: { if (!isC(y.num) || y.den != 1 || y.err != 0) return raw; int64_t c = y.num->smin; if (c <= 0 || (i128)x.den * c > (i128)1e12) return raw; r = {x.num, x.den * c, x.err / (double)c * 1.0001}; break; }
    default: return raw;
  }
  if (r.den == 1 && r.err == 0) return mkFCast(Op::SIToF, r.num, 80);
  aRound(r); g_ainfo[raw] = r; return raw;
}
static E aCmp(Op op, E a, E b) {
  AInfo x, y, d; if (a->width != 80 || (isC(a) && isC(b)) || !ainfo(a, x) || !ainfo(b, y)) return nullptr;
  if (op == Op::FUno) return mkFalse();
  if (!aSum(x, y, -1, d) || d.err * (double)d.den >= 0.5) return nullptr;
  E z = mkC(64, 0), lt = mkCmp(Op::Slt, d.num, z), eq = mkCmp(Op::Eq, d.num, z);
  E tie = d.err == 0 ? (op == Op::FOlt ? mkFalse() : mkC(1, 1)) : aFresh(node(op, 1, 0, a, b));
  return op == Op::FOeq ? mkAnd(eq, tie) : mkOr(lt, mkAnd(eq, tie));
}
static E aToInt(E raw, E a, unsigned w) {
  AInfo f; if (w != 64 || !ainfo(a, f) || f.err * (double)f.den >= 0.5) return nullptr;
  if (f.den == 1 && f.err == 0) return f.num;
  if (f.num->smin < 0) return nullptr;
  E q = f.den == 1 ? f.num : mkBin(Op::UDiv, f.num, mkC(64, f.den)), on = f.den == 1 ? mkC(1, 1) : mkCmp(Op::Eq, mkBin(Op::URem, f.num, mkC(64, f.den)), mkC(64, 0));
  if (f.err == 0) return q;
  E down = mkAnd(mkAnd(on, mkCmp(Op::Slt, mkC(64, 0), q)), aFresh(raw));     // on an integer, rounding may fall just below it
  return mkBin(Op::Sub, q, mkZExt(down, 64));
}
E mkF1(Op op, E a, unsigned aux) { E r = node(op, a->width, aux, a); if (op == Op::FNeg) { if (a->op == Op::FNeg) return a->k[0]; annotate(r, op, a, nullptr); } return r; }
E mkF2(Op op, E a, E b) {
  E r = node(op, a->width, 0, a, b); annotate(r, op, a, b); if (isC(r)) return r; if (r->width == 80) return aArith(op, r, a, b);
  if (auto it = g_finfo.find(r); it != g_finfo.end() && !it->second.den && isC(it->second.num) && isC(it->second.nz)) { const FInfo& f = it->second; double d = std::ldexp((double)f.num->smin, -(int)f.scale); if (d == 0 && f.nz->lo) d = -0.0; uint64_t u; memcpy(&u, &d, 8); return mkC(64, u); }
  return r;
}

static E cmpInt(Op op, E a, E b) { return op == Op::FOeq ? mkCmp(Op::Eq, a, b) : op == Op::FOlt ? mkCmp(Op::Slt, a, b) : mkCmp(Op::Sle, a, b); }
static E cmpBool3(Op op, int sign) { return mkC(1, op == Op::FOeq ? sign == 0 : op == Op::FOlt ? sign < 0 : sign <= 0); }  // value vs 0 where value has given sign
E mkFCmp(Op op, E a, E b) {
  if (E r = aCmp(op, a, b)) return r;
  if (a->width == 64 && !(isC(a) && isC(b))) {
    FInfo x, y;
    // an exact value against a constant with finer bits
    for (int side = 0; side < 2; side++) { E v = side ? b : a, k = side ? a : b; FInfo f; double d; if (!isC(k) || isC(v) || !finfo(v, f) || f.den) continue; d = asD(cval(k)); if (!(std::fabs(d) < (double)LIM)) continue; const double t = std::ldexp(d, f.scale); if (!(std::fabs(t) < (double)LIM)) continue;
      const double lo = std::floor(t), hi = std::ceil(t); if (lo == hi) break; E L = mkC(64, (uint64_t)(int64_t)lo), H = mkC(64, (uint64_t)(int64_t)hi);
      if (op == Op::FUno || op == Op::FOeq) return mkFalse(); return side ? mkCmp(Op::Sle, H, f.num) : mkCmp(Op::Sle, f.num, L); }
    if (finfo(a, x) && finfo(b, y)) {
      if (!x.den && !y.den) { if (op == Op::FUno) return mkFalse(); if (align(x, y)) return cmpInt(op, x.num, y.num); }
      // (num/den) cmp c  or  c cmp (num/den), c a small integer
      bool left = x.den && !y.den && isC(y.num) && y.scale == 0 && std::llabs(y.num->smin) <= (1 << 20);
      bool right = y.den && !x.den && isC(x.num) && x.scale == 0 && std::llabs(x.num->smin) <= (1 << 20);
      if (left || right) {
        FInfo& q = left ? x : y; E c = left ? y.num : x.num;
        if (q.den->smax > (1 << 25) || q.den->smin < -(1 << 25)) return node(op, 1, 0, a, b);
        E dz = isZeroE(q.den), nzr = isZeroE(q.num);
        if (op == Op::FUno) return mkAnd(dz, nzr);
        if (fits((i128)std::min<int64_t>(q.den->smin * std::llabs(c->smin), -q.den->smax * std::llabs(c->smin)), (i128)LIM)) {
          E cd = mkBin(Op::Mul, q.den, c);
          E pos = mkCmp(Op::Slt, mkC(64, 0), q.den);
          E rp = left ? cmpInt(op, q.num, cd) : cmpInt(op, cd, q.num);      // den > 0
          E rn = left ? cmpInt(op, cd, q.num) : cmpInt(op, q.num, cd);      // den < 0
          E inf = mkBin(Op::Xor, signE(q), q.dnz);                          // sign of num/0
          E ri = left ? mkIte(inf, cmpBool3(op, -1), cmpBool3(op, 1)) : mkIte(inf, cmpBool3(op, 1), cmpBool3(op, -1));
          return mkIte(dz, mkAnd(mkNot(nzr), ri), mkIte(pos, rp, rn));
        }
      }
    }
  }
  return node(op, 1, 0, a, b);
}
E mkFCast(Op op, E a, unsigned w) {
  if (op == Op::FCvt && a->width == w) return a;
  if (op == Op::FCvt && a->op == Op::FCvt && a->k[0]->width == w && a->width > w) return a->k[0];
  if (op == Op::FCvt && w == 64 && a->width > 64 && (a->op == Op::SIToF || a->op == Op::UIToF) && a->k[0]->width <= 64 && a->k[0]->smin >= -LIM && a->k[0]->smax <= LIM) return mkFCast(a->op, a->k[0], 64);
  if ((op == Op::FToSI || op == Op::FToUI) && a->width >= 64) {
    FInfo f; if (finfo(a, f) && !f.den && f.scale == 0) {
      if (w <= 64) { int64_t mx = op == Op::FToSI ? (int64_t)(maskw(w) >> 1) : (w >= 63 ? INT64_MAX : (int64_t)maskw(w)), mn = op == Op::FToSI ? -mx - 1 : 0;
        if (f.num->smin >= mn && f.num->smax <= mx) return mkExtract(f.num, 0, w); } }
    // truncation of num / den: the rounding of the quotient cannot reach an integer, as |num| <= 2^53
    if (w == 64 && a->width == 64 && finfo(a, f) && (f.den || f.scale) && (op == Op::FToSI || f.num->smin >= 0)) {
      E den = f.den ? f.den : mkC(64, 1ull << f.scale); if ((!f.den || f.scale == 0) && den->smin > 0) return mkBin(Op::SDiv, f.num, den); }
    // truncation of the square root of an integer up to 2^50: its integral part (no root rounds up to the next integer)
    if (a->op == Op::FSqrt && a->width == 64 && w <= 64 && finfo(a->k[0], f) && !f.den && f.scale == 0 && f.num->smin >= 0 && f.num->smax <= (1ll << 50) && (w == 64 || f.num->smax < (int64_t)1 << (2 * (w - 2) > 62 ? 62 : 2 * (w - 2)))) {
      if (f.num->smax < 256 * 256) {          // small: a search tree over the constant squares
        std::function<E(int64_t, int64_t)> tr = [&](int64_t lo, int64_t hi) -> E { if (lo == hi) return mkC(w, (uint64_t)lo); int64_t m = (lo + hi + 1) / 2; return mkIte(mkCmp(Op::Sle, mkC(64, (uint64_t)(m * m)), f.num), tr(m, hi), tr(lo, m - 1)); };
        int64_t hi = 0; while ((hi + 1) * (hi + 1) <= f.num->smax) hi++; return tr(0, hi); }
      int b = 0; while ((i128)1 << (2 * (b + 1)) <= f.num->smax) b++; E r = mkC(64, 0); for (; b >= 0; b--) { E t = mkBin(Op::Or, r, mkC(64, 1ull << b)); r = mkIte(mkCmp(Op::Sle, mkBin(Op::Mul, t, t), f.num), t, r); }
      return w == 64 ? r : mkExtract(r, 0, w); }
    if ((a->op == Op::SIToF) && a->k[0]->width <= 64 && a->k[0]->width == w && (a->width == 80 || (a->k[0]->smin >= -LIM && a->k[0]->smax <= LIM)) && op == Op::FToSI) return a->k[0];
  }
  E r = node(op, w, 0, a);
  if (op == Op::FToSI && a->width == 80 && !isC(r)) if (E i = aToInt(r, a, w)) return i;
  if ((op == Op::SIToF || op == Op::UIToF) && w == 80 && !isC(r)) {
    E x = a; bool ok = op == Op::SIToF || a->smin >= 0 || a->width > 64; if (a->width > 64) { ok = (a->op == Op::ZExt && (a->k[0]->width < 64 || a->k[0]->smin >= 0)) || (a->op == Op::SExt && (op == Op::SIToF || a->k[0]->smin >= 0)); x = a->k[0]; if (ok && x->width > 64) ok = false; if (ok && x->width < 64) x = a->op == Op::ZExt ? mkZExt(x, 64) : mkSExt(x, 64); }
    else if (a->width < 64) x = op == Op::SIToF ? mkSExt(a, 64) : mkZExt(a, 64);
    if (ok && x->width == 64 && amax(x) <= ALIM) g_ainfo[r] = {x, 1, 0};
  }
  if ((op == Op::SIToF || op == Op::UIToF) && w == 64 && !isC(r) && a->width <= 64) {
    E x = a->width == 64 ? a : op == Op::SIToF ? mkSExt(a, 64) : mkZExt(a, 64);
    if (x->smin >= -LIM && x->smax <= LIM && (op == Op::SIToF || x->umax <= (uint64_t)LIM)) g_finfo[r] = {x, mkFalse(), nullptr, nullptr, 0};
  }
  return r;
}

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite",
  "fadd","fsub","fmul","fdiv","fneg","fsqrt","fabs","frint","foeq","folt","fole","funo","ftosi","ftoui","sitof","uitof","fcvt"};
std::string exprStr(E e, int d) {
  if (isC(e)) { char b[64]; if (e->hi) snprintf(b, 64, "0x%lx%016lx:%u", e->hi, e->lo, e->width); else snprintf(b, 64, "%ld:%u", (long)sxt(e->lo, e->width > 64 ? 64 : e->width), e->width); return b; }
  if (e->op == Op::Var) return g_vars[e->lo].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[(int)e->op]; if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  if (e->op == Op::ZExt || e->op == Op::SExt) s += std::to_string(e->width);
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}

E rebuild(E e, E const* k) {
  bool same = true; for (int i = 0; i < e->nk; i++) if (k[i] != e->k[i]) same = false;
  if (same) return e;
  switch (e->op) {
    case Op::Const: case Op::Var: return e;
    case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr: return mkBin(e->op, k[0], k[1]);
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: return mkCmp(e->op, k[0], k[1]);
    case Op::Concat: return mkConcat(k[0], k[1]);
    case Op::Extract: return mkExtract(k[0], e->aux, e->width);
    case Op::ZExt: return mkZExt(k[0], e->width);
    case Op::SExt: return mkSExt(k[0], e->width);
    case Op::Ite: return mkIte(k[0], k[1], k[2]);
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: return mkF2(e->op, k[0], k[1]);
    case Op::FNeg: case Op::FSqrt: case Op::FAbs: case Op::FRint: return mkF1(e->op, k[0], e->aux);
    case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: return mkFCmp(e->op, k[0], k[1]);
    case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FCvt: return mkFCast(e->op, k[0], e->width);
  }
  return e;
}
}
