#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <deque>
#include <cstdio>
#include <cstdlib>

namespace tcs {
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver::Impl {
  Z3_context c;
  std::unordered_map<E, Z3_ast> bv, bl;        // bit-vector / Bool translations
  std::unordered_map<E, Z3_ast> in, inb;       // integer-encoding translations
  std::unordered_map<uint64_t, std::vector<std::pair<std::vector<uint32_t>, std::pair<Res, std::shared_ptr<Model>>>>> cache;
  std::deque<std::shared_ptr<Model>> recent;
  // results up to renaming of variables
  struct Canon { Res r; std::vector<u128> val; };
  std::unordered_map<std::string, Canon> canon; std::unordered_map<E, uint64_t> shape;
  uint64_t shapeOf(E e) {
    auto it = shape.find(e); if (it != shape.end()) return it->second;
    uint64_t h = (uint64_t)e->op * 0x9e3779b97f4a7c15ull ^ ((uint64_t)e->width << 32 | e->aux);
    if (e->op == Op::Const) h ^= e->lo * 31 + e->hi * 17;
    for (int i = 0; i < e->nk; i++) h = (h ^ shapeOf(e->k[i])) * 0xd6e8feb86659fd93ull + (h >> 29);
    return shape[e] = h;
  }
  // canonical text of a constraint set; vars: variables in canonical order; false when too large
  bool canonKey(std::vector<E> cs, std::string& key, std::vector<uint32_t>& vars) {
    std::stable_sort(cs.begin(), cs.end(), [&](E a, E b) { return shapeOf(a) < shapeOf(b); });
    std::unordered_map<E, uint32_t> num; bool ok = true;
    auto put = [&](uint64_t v) { key.append((const char*)&v, 8); };
    std::function<uint32_t(E)> go = [&](E e) -> uint32_t {
      auto it = num.find(e); if (it != num.end()) return it->second;
      if (num.size() > 400) { ok = false; return 0; }
      uint32_t k[3] = {0, 0, 0}; for (int i = 0; i < e->nk && ok; i++) k[i] = go(e->k[i]);
      uint32_t id = num.size() + 1; num[e] = id;
      put((uint64_t)e->op | (uint64_t)e->width << 8 | (uint64_t)e->aux << 24);
      if (e->op == Op::Const) { put(e->lo); put(e->hi); } else if (e->op == Op::Var) vars.push_back((uint32_t)e->lo); else { put((uint64_t)k[0] << 32 | k[1]); put(k[2]); }
      return id; };
    for (E e : cs) { uint32_t r = go(e); if (!ok) return false; put(0xffffffff00000000ull | r); }
    return true;
  }
  std::vector<Z3_ast> intSide;                 // range constraints of integer variables
  std::set<uint32_t> intVarsDone;
  Z3_sort S32, S64, S80; Z3_ast RNE;
  Impl() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
    S32 = Z3_mk_fpa_sort(c, 8, 24); S64 = Z3_mk_fpa_sort(c, 11, 53); S80 = Z3_mk_fpa_sort(c, 15, 64);
    RNE = Z3_mk_fpa_rne(c);
  }
  Z3_ast keep(Z3_ast a) { return a; }   // plain context: garbage collected with the context
  Z3_ast cst(unsigned w, u128 v) {
    if (v >> 64 == 0) return Z3_mk_unsigned_int64(c, (uint64_t)v, Z3_mk_bv_sort(c, w));
    Z3_ast h = Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), Z3_mk_bv_sort(c, w - 64)), l = Z3_mk_unsigned_int64(c, (uint64_t)v, Z3_mk_bv_sort(c, 64));
    return Z3_mk_concat(c, h, l);
  }
  Z3_sort fs(unsigned w) { return w == 32 ? S32 : w == 64 ? S64 : S80; }
  Z3_ast toF(E e) {  // as FP term
    // keep FP operator results in FP sort
    auto f = fpterm(e); if (f) return f;
    Z3_ast b = BV(e);
    if (e->width == 80) b = Z3_mk_concat(c, Z3_mk_extract(c, 79, 64, b), Z3_mk_extract(c, 62, 0, b));
    return Z3_mk_fpa_to_fp_bv(c, b, fs(e->width));
  }
  std::unordered_map<E, Z3_ast> fp;
  Z3_ast fpterm(E e) {
    auto it = fp.find(e); if (it != fp.end()) return it->second;
    Z3_ast r = nullptr; Z3_sort s = fs(e->width);
    switch (e->op) {
      case Op::FAdd: r = Z3_mk_fpa_add(c, RNE, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FSub: r = Z3_mk_fpa_sub(c, RNE, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FMul: r = Z3_mk_fpa_mul(c, RNE, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FDiv: r = Z3_mk_fpa_div(c, RNE, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FNeg: r = Z3_mk_fpa_neg(c, toF(e->k[0])); break;
      case Op::FAbs: r = Z3_mk_fpa_abs(c, toF(e->k[0])); break;
      case Op::FSqrt: r = Z3_mk_fpa_sqrt(c, RNE, toF(e->k[0])); break;
      case Op::FRint: { Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(c) : e->aux == 1 ? Z3_mk_fpa_rtp(c) : e->aux == 2 ? Z3_mk_fpa_rtz(c) : e->aux == 3 ? Z3_mk_fpa_rna(c) : RNE; r = Z3_mk_fpa_round_to_integral(c, rm, toF(e->k[0])); break; }
      case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(c, RNE, BV(e->k[0]), s); break;
      case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(c, RNE, BV(e->k[0]), s); break;
      case Op::FCvt: r = Z3_mk_fpa_to_fp_float(c, RNE, toF(e->k[0]), s); break;
      case Op::Ite: if (e->width == 32 || e->width == 64 || e->width == 80) if (e->hasFP) { r = Z3_mk_ite(c, B(e->k[0]), toF(e->k[1]), toF(e->k[2])); } break;
      default: break;
    }
    if (r) fp[e] = r;
    return r;
  }
  Z3_ast BV(E e) {
    auto it = bv.find(e); if (it != bv.end()) return it->second;
    Z3_ast r = nullptr;
    if (e->width == 1 && e->op != Op::Const && e->op != Op::Var && e->op != Op::Extract) r = Z3_mk_ite(c, B(e), cst(1, 1), cst(1, 0));
    else switch (e->op) {
      case Op::Const: r = cst(e->width, cval(e)); break;
      case Op::Var: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->lo), Z3_mk_bv_sort(c, e->width)); break;
#define B2(OP, F) case Op::OP: r = F(c, BV(e->k[0]), BV(e->k[1])); break;
      B2(Add, Z3_mk_bvadd) B2(Sub, Z3_mk_bvsub) B2(Mul, Z3_mk_bvmul) B2(UDiv, Z3_mk_bvudiv) B2(SDiv, Z3_mk_bvsdiv) B2(URem, Z3_mk_bvurem) B2(SRem, Z3_mk_bvsrem)
      B2(And, Z3_mk_bvand) B2(Or, Z3_mk_bvor) B2(Xor, Z3_mk_bvxor) B2(Shl, Z3_mk_bvshl) B2(LShr, Z3_mk_bvlshr) B2(AShr, Z3_mk_bvashr) B2(Concat, Z3_mk_concat)
      case Op::Extract: r = Z3_mk_extract(c, e->aux + e->width - 1, e->aux, BV(e->k[0])); break;
      case Op::ZExt: r = Z3_mk_zero_ext(c, e->width - e->k[0]->width, BV(e->k[0])); break;
      case Op::SExt: r = Z3_mk_sign_ext(c, e->width - e->k[0]->width, BV(e->k[0])); break;
      case Op::Ite: r = Z3_mk_ite(c, B(e->k[0]), BV(e->k[1]), BV(e->k[2])); break;
      case Op::FToSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), toF(e->k[0]), e->width); break;
      case Op::FToUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), toF(e->k[0]), e->width); break;
      default: {
        Z3_ast f = fpterm(e); if (!f) { fprintf(stderr, "internal: cannot translate %s\n", exprStr(e).c_str()); abort(); }
        r = Z3_mk_fpa_to_ieee_bv(c, f);
        if (e->width == 80) { // restore the explicit integer bit
          Z3_ast ex = Z3_mk_extract(c, 77, 63, r); Z3_ast ib = Z3_mk_ite(c, Z3_mk_eq(c, ex, cst(15, 0)), cst(1, 0), cst(1, 1));
          r = Z3_mk_concat(c, Z3_mk_extract(c, 78, 63, r), Z3_mk_concat(c, ib, Z3_mk_extract(c, 62, 0, r))); }
      }
    }
    bv[e] = r; return r;
  }
  Z3_ast B(E e) {
    auto it = bl.find(e); if (it != bl.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
      case Op::Const: r = e->lo ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case Op::Eq: if (e->k[0]->width == 1) r = Z3_mk_iff(c, B(e->k[0]), B(e->k[1])); else r = Z3_mk_eq(c, BV(e->k[0]), BV(e->k[1])); break;
      case Op::Ult: r = Z3_mk_bvult(c, BV(e->k[0]), BV(e->k[1])); break;
      case Op::Ule: r = Z3_mk_bvule(c, BV(e->k[0]), BV(e->k[1])); break;
      case Op::Slt: r = Z3_mk_bvslt(c, BV(e->k[0]), BV(e->k[1])); break;
      case Op::Sle: r = Z3_mk_bvsle(c, BV(e->k[0]), BV(e->k[1])); break;
      case Op::And: { Z3_ast a[2] = {B(e->k[0]), B(e->k[1])}; r = Z3_mk_and(c, 2, a); break; }
      case Op::Or: { Z3_ast a[2] = {B(e->k[0]), B(e->k[1])}; r = Z3_mk_or(c, 2, a); break; }
      case Op::Xor: if (isC(e->k[1], 1)) r = Z3_mk_not(c, B(e->k[0])); else r = Z3_mk_xor(c, B(e->k[0]), B(e->k[1])); break;
      case Op::Ite: r = Z3_mk_ite(c, B(e->k[0]), B(e->k[1]), B(e->k[2])); break;
      case Op::FOeq: r = Z3_mk_fpa_eq(c, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FOlt: r = Z3_mk_fpa_lt(c, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FOle: r = Z3_mk_fpa_leq(c, toF(e->k[0]), toF(e->k[1])); break;
      case Op::FUno: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(c, toF(e->k[0])), Z3_mk_fpa_is_nan(c, toF(e->k[1]))}; r = Z3_mk_or(c, 2, a); break; }
      default: r = Z3_mk_eq(c, BV(e), cst(1, 1)); break;
    }
    bl[e] = r; return r;
  }

  // ---- integer encoding (mod-2^w semantics kept; ranges used to drop the wrap-around terms)
  Z3_ast num(i128 v) { char b[64]; bool neg = v < 0; u128 u = neg ? (u128)(-v) : (u128)v; char* p = b + 63; *p = 0; do { *--p = '0' + (char)(u % 10); u /= 10; } while (u); if (neg) *--p = '-'; return Z3_mk_numeral(c, p, Z3_mk_int_sort(c)); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(c, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(c, 2, x); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(c, 2, x); }
  i128 p2(unsigned w) { return (i128)1 << w; }
  bool intOK(E e, std::unordered_map<E, bool>& memo) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool ok = e->width <= 64 && e->op < Op::FAdd;
    if (ok) switch (e->op) {
      case Op::And: ok = e->width == 1 || (isC(e->k[1]) && (((e->k[1]->lo + 1) & e->k[1]->lo) == 0)); break;
      case Op::Or: case Op::Xor: ok = e->width == 1; break;
      case Op::Shl: case Op::LShr: case Op::AShr: ok = isC(e->k[1]); break;
      default: break;
    }
    for (int i = 0; ok && i < e->nk; i++) ok = intOK(e->k[i], memo);
    memo[e] = ok; return ok;
  }
  // integer term whose value is congruent to e mod 2^w; kind: signed value or unsigned value
  std::unordered_map<E, Z3_ast> sI, uI;
  Z3_ast wrapS(Z3_ast t, unsigned w) { return sub(Z3_mk_mod(c, add(t, num(p2(w - 1))), num(p2(w))), num(p2(w - 1))); }
  bool sFits(i128 lo, i128 hi, unsigned w) { return lo >= -p2(w - 1) && hi < p2(w - 1); }
  Z3_ast SI(E e) {  // signed value
    auto it = sI.find(e); if (it != sI.end()) return it->second;
    Z3_ast r; unsigned w = e->width; E a = e->nk ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr;
    switch (e->op) {
      case Op::Const: r = num(sxt(e->lo, w)); break;
      case Op::Add: if (sFits((i128)a->smin + b->smin, (i128)a->smax + b->smax, w)) r = add(SI(a), SI(b)); else r = wrapS(add(SI(a), SI(b)), w); break;
      case Op::Sub: if (sFits((i128)a->smin - b->smax, (i128)a->smax - b->smin, w)) r = sub(SI(a), SI(b)); else r = wrapS(sub(SI(a), SI(b)), w); break;
      case Op::Mul: { i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
        Z3_ast m = mul(SI(a), SI(b)); r = sFits(*std::min_element(p, p + 4), *std::max_element(p, p + 4), w) ? m : wrapS(m, w); break; }
      case Op::SDiv: { // truncating division
        Z3_ast x = SI(a), y = SI(b);
        if (isC(b) && b->smin > 0) { Z3_ast q = Z3_mk_div(c, x, y); Z3_ast nq = sub(num(0), Z3_mk_div(c, sub(num(0), x), y)); r = a->smin >= 0 ? q : a->smax <= 0 ? nq : Z3_mk_ite(c, Z3_mk_ge(c, x, num(0)), q, nq); }
        else { Z3_ast ax = Z3_mk_ite(c, Z3_mk_ge(c, x, num(0)), x, sub(num(0), x)), ay = Z3_mk_ite(c, Z3_mk_ge(c, y, num(0)), y, sub(num(0), y)); Z3_ast q = Z3_mk_div(c, ax, ay);
          Z3_ast same = Z3_mk_iff(c, Z3_mk_ge(c, x, num(0)), Z3_mk_ge(c, y, num(0)));
          Z3_ast v = Z3_mk_ite(c, same, q, sub(num(0), q));
          r = Z3_mk_ite(c, Z3_mk_eq(c, y, num(0)), Z3_mk_ite(c, Z3_mk_ge(c, x, num(0)), num(-1), num(1)), v);
          if (a->smin == -p2(w - 1)) r = wrapS(r, w); }
        break; }
      case Op::SRem: { E q = mkBin(Op::SDiv, a, b); Z3_ast v = sub(SI(a), mul(SI(q), SI(b))); r = isC(b) && b->smin > 0 ? v : Z3_mk_ite(c, Z3_mk_eq(c, SI(b), num(0)), SI(a), v); if (!(isC(b) && b->smin > 0)) r = wrapS(r, w); break; }
      case Op::SExt: r = SI(a); break;
      case Op::ZExt: r = UI(a); break;
      case Op::Ite: r = Z3_mk_ite(c, IB(a), SI(b), SI(e->k[2])); break;
      case Op::AShr: r = Z3_mk_div(c, SI(a), num(p2((unsigned)b->lo))); break;
      case Op::Extract: if (e->aux == 0 && sFits(a->smin, a->smax, w)) { r = SI(a); break; }
        [[fallthrough]];
      default: { Z3_ast u = UI(e); r = e->umax <= (maskw(w) >> 1) ? u : Z3_mk_ite(c, Z3_mk_ge(c, u, num(p2(w - 1))), sub(u, num(p2(w))), u); }
    }
    sI[e] = r; return r;
  }
  Z3_ast UI(E e) {  // unsigned value
    auto it = uI.find(e); if (it != uI.end()) return it->second;
    Z3_ast r; unsigned w = e->width; E a = e->nk ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr;
    if (w == 1 && e->op != Op::Const && e->op != Op::Var && e->op != Op::Extract) r = Z3_mk_ite(c, IB(e), num(1), num(0));
    else switch (e->op) {
      case Op::Const: r = num((i128)e->lo); break;
      case Op::Var: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->lo), Z3_mk_int_sort(c));
        if (intVarsDone.insert((uint32_t)e->lo).second) { intSide.push_back(Z3_mk_ge(c, r, num(0))); intSide.push_back(Z3_mk_lt(c, r, num(p2(w)))); } break;
      case Op::Add: if ((u128)a->umax + b->umax <= maskw(w)) { r = add(UI(a), UI(b)); break; } goto viaS;
      case Op::Mul: if ((u128)a->umax * b->umax <= maskw(w)) { r = mul(UI(a), UI(b)); break; } goto viaS;
      case Op::UDiv: r = isC(b) ? Z3_mk_div(c, UI(a), UI(b)) : Z3_mk_ite(c, Z3_mk_eq(c, UI(b), num(0)), num((i128)maskw(w)), Z3_mk_div(c, UI(a), UI(b))); break;
      case Op::URem: r = isC(b) ? Z3_mk_mod(c, UI(a), UI(b)) : Z3_mk_ite(c, Z3_mk_eq(c, UI(b), num(0)), UI(a), Z3_mk_mod(c, UI(a), UI(b))); break;
      case Op::And: r = Z3_mk_mod(c, UI(a), num((i128)b->lo + 1)); break;
      case Op::Shl: { Z3_ast m = mul(UI(a), num(p2((unsigned)b->lo))); r = ((u128)a->umax << b->lo) <= maskw(w) ? m : Z3_mk_mod(c, m, num(p2(w))); break; }
      case Op::LShr: r = Z3_mk_div(c, UI(a), num(p2((unsigned)b->lo))); break;
      case Op::ZExt: r = UI(a); break;
      case Op::Concat: r = add(mul(UI(a), num(p2(b->width))), UI(b)); break;
      case Op::Extract: { Z3_ast x = (e->aux == 0 && a->smin >= INT64_MIN && a->op != Op::Concat && a->op != Op::ZExt && a->op != Op::Var) ? SI(a) : UI(a);
        if (e->aux) x = Z3_mk_div(c, x, num(p2(e->aux)));
        bool fits = e->aux == 0 ? a->umax <= maskw(w) : (a->umax >> e->aux) <= maskw(w);
        r = fits ? x : Z3_mk_mod(c, x, num(p2(w))); break; }
      case Op::Ite: r = Z3_mk_ite(c, IB(a), UI(b), UI(e->k[2])); break;
      default: viaS: { Z3_ast s = SI(e); r = e->smin >= 0 ? s : Z3_mk_ite(c, Z3_mk_lt(c, s, num(0)), add(s, num(p2(w))), s); }
    }
    uI[e] = r; return r;
  }
  Z3_ast IB(E e) {
    auto it = inb.find(e); if (it != inb.end()) return it->second;
    Z3_ast r; E a = e->nk ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr;
    switch (e->op) {
      case Op::Const: r = e->lo ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case Op::Eq: if (a->width == 1) r = Z3_mk_iff(c, IB(a), IB(b)); else if (a->smin < 0 || b->smin < 0) r = Z3_mk_eq(c, SI(a), SI(b)); else r = Z3_mk_eq(c, UI(a), UI(b)); break;
      case Op::Ult: r = Z3_mk_lt(c, UI(a), UI(b)); break;
      case Op::Ule: r = Z3_mk_le(c, UI(a), UI(b)); break;
      case Op::Slt: r = Z3_mk_lt(c, SI(a), SI(b)); break;
      case Op::Sle: r = Z3_mk_le(c, SI(a), SI(b)); break;
      case Op::And: { Z3_ast x[2] = {IB(a), IB(b)}; r = Z3_mk_and(c, 2, x); break; }
      case Op::Or: { Z3_ast x[2] = {IB(a), IB(b)}; r = Z3_mk_or(c, 2, x); break; }
      case Op::Xor: r = isC(b, 1) ? Z3_mk_not(c, IB(a)) : Z3_mk_xor(c, IB(a), IB(b)); break;
      case Op::Ite: r = Z3_mk_ite(c, IB(a), IB(b), IB(e->k[2])); break;
      default: r = Z3_mk_eq(c, UI(e), num(1)); break;
    }
    inb[e] = r; return r;
  }
};

Solver::Solver() : im(new Impl) {}
Solver::~Solver() {}

Res Solver::solveSet(std::vector<E>& cs, Model* out) {
  Impl& I = *im;
  { std::set<uint32_t> vs; std::vector<E> add; for (E e : cs) for (auto v : e->vars->v) if (g_vars[v].bound && vs.insert(v).second) add.push_back(g_vars[v].bound); cs.insert(cs.end(), add.begin(), add.end()); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key; uint64_t h = 1469598103934665603ull;
  for (E e : cs) { key.push_back(e->id); h = (h ^ e->id) * 1099511628211ull; }
  for (auto& p : I.cache[h]) if (p.first == key) { st.cacheHits++; if (p.second.first == Res::Sat && out) for (auto& kv : p.second.second->v) out->v[kv.first] = kv.second; return p.second.first; }
  std::string ck; std::vector<uint32_t> cvars; bool canonOk = I.canonKey(cs, ck, cvars);
  if (canonOk) { auto it = I.canon.find(ck); if (it != I.canon.end()) {
      st.cacheHits++; std::shared_ptr<Model> m; if (it->second.r == Res::Sat) { m = std::make_shared<Model>(); for (size_t i = 0; i < cvars.size(); i++) m->v[cvars[i]] = it->second.val[i]; if (out) for (auto& kv : m->v) out->v[kv.first] = kv.second; }
      I.cache[h].push_back({key, {it->second.r, m}}); return it->second.r; } }
  auto remember = [&](Res r, const std::shared_ptr<Model>& m) { if (!canonOk) return; Impl::Canon c; c.r = r; if (r == Res::Sat) for (auto v : cvars) { auto f = m->v.find(v); c.val.push_back(f == m->v.end() ? 0 : f->second); } I.canon[ck] = std::move(c); };
  // try recent models
  for (auto it = I.recent.begin(); it != I.recent.end(); ++it) {
    Evaluator ev(**it); bool ok = true; for (E e : cs) if (!ev.eval(e)) { ok = false; break; }
    if (ok) { st.modelHits++; auto m = std::make_shared<Model>(); for (E e : cs) for (auto v : e->vars->v) { auto f = (*it)->v.find(v); m->v[v] = f == (*it)->v.end() ? 0 : f->second; }
      remember(Res::Sat, m); I.cache[h].push_back({key, {Res::Sat, m}}); if (out) for (auto& kv : m->v) out->v[kv.first] = kv.second; return Res::Sat; }
  }
  st.z3++;
  double t0 = now();
  bool hasFP = false; for (E e : cs) hasFP |= e->hasFP;
  Z3_lbool r = Z3_L_UNDEF; std::shared_ptr<Model> m; const char* how = "";
  auto getVarVal = [&](Z3_model mo, uint32_t v, bool asInt) -> u128 {
    Z3_ast x = Z3_mk_const(I.c, Z3_mk_int_symbol(I.c, (int)v), asInt ? Z3_mk_int_sort(I.c) : Z3_mk_bv_sort(I.c, g_vars[v].width)), val = nullptr;
    if (!Z3_model_eval(I.c, mo, x, true, &val)) return 0;
    const char* s = Z3_get_numeral_string(I.c, val); u128 u = 0; for (; *s; s++) if (*s >= '0' && *s <= '9') u = u * 10 + (*s - '0'); return u; };
  auto run = [&](Z3_solver s, unsigned tmo, bool asInt, const char* name) {
    Z3_solver_inc_ref(I.c, s);
    Z3_params p = Z3_mk_params(I.c); Z3_params_inc_ref(I.c, p); Z3_params_set_uint(I.c, p, Z3_mk_string_symbol(I.c, "timeout"), tmo);
    Z3_params_set_uint(I.c, p, Z3_mk_string_symbol(I.c, "random_seed"), 1);
    Z3_solver_set_params(I.c, s, p); Z3_params_dec_ref(I.c, p);
    if (asInt) { for (E e : cs) { Z3_solver_assert(I.c, s, I.IB(e)); }
      // ranges of the variables involved
      std::set<uint32_t> vs; for (E e : cs) for (auto v : e->vars->v) vs.insert(v);
      for (auto v : vs) { Z3_ast x = Z3_mk_const(I.c, Z3_mk_int_symbol(I.c, (int)v), Z3_mk_int_sort(I.c)); Z3_solver_assert(I.c, s, Z3_mk_ge(I.c, x, I.num(0))); Z3_solver_assert(I.c, s, Z3_mk_lt(I.c, x, I.num(I.p2(g_vars[v].width)))); } }
    else for (E e : cs) Z3_solver_assert(I.c, s, I.B(e));
    double a = now();
    if (getenv("TCSYM_DUMP_CS")) { for (E e : cs) fprintf(stderr, "   %s\n", exprStr(e, getenv("TCSYM_DEPTH") ? atoi(getenv("TCSYM_DEPTH")) : 6).c_str()); }
    Z3_lbool q = Z3_solver_check(I.c, s);
    if (getenv("TCSYM_TRACE_SOLVER")) fprintf(stderr, "[solver %s %d %.2fs %zu constraints]\n", name, (int)q, now() - a, cs.size());
    if (q == Z3_L_TRUE) { Z3_model mo = Z3_solver_get_model(I.c, s); Z3_model_inc_ref(I.c, mo); m = std::make_shared<Model>();
      for (E e : cs) for (auto v : e->vars->v) if (!m->v.count(v)) m->v[v] = getVarVal(mo, v, asInt);
      Z3_model_dec_ref(I.c, mo);
      Evaluator ev(*m); for (E e : cs) if (!ev.eval(e)) { // an inexact model: treat as unknown
          if (getenv("TCSYM_TRACE_SOLVER")) fprintf(stderr, "[solver %s: model does not satisfy %s]\n", name, exprStr(e, 4).c_str());
          m.reset(); q = Z3_L_UNDEF; break; } }
    Z3_solver_dec_ref(I.c, s);
    how = name; return q; };
  auto tac = [&](const char* n) { Z3_tactic t = Z3_mk_tactic(I.c, n); return Z3_mk_solver_from_tactic(I.c, t); };
  if (!hasFP) {
    // does it contain wide arithmetic?
    bool arith = false; { std::vector<E> st(cs.begin(), cs.end()); std::set<E> seen; while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue;
        if (((e->op == Op::Mul || e->op == Op::UDiv || e->op == Op::SDiv || e->op == Op::URem || e->op == Op::SRem) && e->width >= 16) || ((e->op == Op::Add || e->op == Op::Sub) && e->width >= 48)) { arith = true; break; } for (int i = 0; i < e->nk; i++) st.push_back(e->k[i]); } }
    bool iok = arith; if (iok) { std::unordered_map<E, bool> memo; for (E e : cs) if (!I.intOK(e, memo)) { iok = false; break; } }
    if (iok) { unsigned bits = 0; std::set<uint32_t> vs; for (E e : cs) for (auto v : e->vars->v) if (vs.insert(v).second) bits += g_vars[v].width;
      if (bits <= 20) r = run(tac("qfbv"), std::min(timeoutMs, 5000u), false, "bv1"); }        // few input bits: bit-blasting first
    if (iok && r == Z3_L_UNDEF) { st.intQueries++; r = run(tac("qflia"), std::min(timeoutMs, 1500u), true, "lia"); if (r == Z3_L_UNDEF) r = run(tac("qfbv"), std::min(timeoutMs, 3000u), false, "bv0"); if (r == Z3_L_UNDEF) r = run(Z3_mk_solver(I.c), std::min(timeoutMs, 20000u), true, "int"); }
    if (r == Z3_L_UNDEF) r = run(tac("qfbv"), timeoutMs, false, "bv");
  } else {
    r = run(tac("qffp"), timeoutMs, false, "fp");
    if (r == Z3_L_UNDEF) r = run(Z3_mk_solver(I.c), timeoutMs, false, "fp-smt");
  }
  double dt = now() - t0; st.z3Time += dt; st.maxTime = std::max(st.maxTime, dt);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat) st.sat++; else if (res == Res::Unsat) st.unsat++; else st.unknown++;
  if (dt > 5 && !dumpDir.empty()) {
    static int n = 0; char fn[256]; snprintf(fn, sizeof fn, "%s/q%03d.smt2", dumpDir.c_str(), n++);
    if (FILE* f = fopen(fn, "w")) { Z3_solver s = Z3_mk_simple_solver(I.c); Z3_solver_inc_ref(I.c, s); for (E e : cs) Z3_solver_assert(I.c, s, I.B(e)); fprintf(f, "; %.1fs %s\n%s(check-sat)\n", dt, how, Z3_solver_to_string(I.c, s)); Z3_solver_dec_ref(I.c, s); fclose(f); }
  }
  if (res != Res::Unknown) { remember(res, m); I.cache[h].push_back({key, {res, m}}); }
  if (res == Res::Sat) { I.recent.push_front(m); if (I.recent.size() > 16) I.recent.pop_back(); if (out) for (auto& kv : m->v) out->v[kv.first] = kv.second; }
  return res;
}

static void slice(const std::vector<E>& pc, E e, std::vector<E>& out) {
  std::set<uint32_t> vs(e->vars->v.begin(), e->vars->v.end());
  std::vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      bool hit = false; for (auto v : pc[i]->vars->v) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; vs.insert(pc[i]->vars->v.begin(), pc[i]->vars->v.end()); out.push_back(pc[i]); } } }
}

Res Solver::check(const std::vector<E>& pc, E e, Model* out) {
  st.queries++;
  if (isC(e)) return e->lo ? Res::Sat : Res::Unsat;
  std::vector<E> cs; slice(pc, e, cs); cs.push_back(e);
  return solveSet(cs, out);
}
Res Solver::fullModel(const std::vector<E>& pc, Model& out) {
  std::vector<char> done(pc.size(), 0);
  for (size_t i = 0; i < pc.size(); i++) if (!done[i]) {
    std::vector<E> cs; slice(pc, pc[i], cs); cs.push_back(pc[i]);
    std::set<E> s(cs.begin(), cs.end()); for (size_t j = 0; j < pc.size(); j++) if (s.count(pc[j])) done[j] = 1;
    Res r = solveSet(cs, &out); if (r != Res::Sat) return r; }
  return Res::Sat;
}
}
