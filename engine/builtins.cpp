// Primitives offered to the runtime models and harnesses, and LLVM intrinsics.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <algorithm>
#include <cmath>
using namespace llvm;
namespace tcs {

#define BL X(none) X(malloc) X(calloc) X(realloc) X(free) X(aligned_alloc) X(_Znwm) X(_Znam) X(_ZdlPv) X(_ZdlPvm) X(_ZdaPv) X(_ZdaPvm) X(_ZnwmSt11align_val_t) X(_ZdlPvmSt11align_val_t) X(_ZdlPvSt11align_val_t) \
  X(_ZnwmRKSt9nothrow_t) X(_ZnamRKSt9nothrow_t) X(_ZdlPvRKSt9nothrow_t) X(memcpy) X(memmove) X(memset) X(memcmp) X(bcmp) \
  X(__tc_assert) X(__tc_assume) X(__tc_lemma) X(__tc_sym) X(__tc_var) X(__tc_range) X(__tc_cover) X(__tc_concretize) X(__tc_fail) X(__tc_halt) X(__tc_unwind) X(__dynamic_cast) \
  X(__tc_mutex_lock) X(__tc_mutex_trylock) X(__tc_mutex_unlock) X(__tc_mutex_owned) X(__tc_cond_wait) X(__tc_cond_signal) X(__tc_futex_wait) X(__tc_futex_wake) X(__tc_thread_create) X(__tc_thread_join) X(__tc_thread_self) X(__tc_now) X(__tc_set_now) \
  X(__tc_sleep_until) X(__tc_quiesce) X(__tc_config) X(__tc_get_config) X(__tc_ghost) X(__tc_log) X(__tc_norace) X(__tc_unsupported) X(__tc_is_symbolic) X(__tc_thread_state) X(__tc_choose) X(__tc_static_alloc) X(__tc_threads_live) X(__tc_obj_size)
enum BI {
#define X(n) B_##n,
  BL
#undef X
};
int builtinId(const std::string& n) {
  static const std::map<std::string, int> m = {
#define X(n) {#n, B_##n},
    BL
#undef X
  };
  auto it = m.find(n); return it == m.end() || it->second == 0 ? -1 : it->second;
}

bool Executor::builtin(State& s, Frame& fr0, KInst& ki, int h, std::vector<Val>& a, std::vector<unsigned>& w) {
  Thread& t = s.th[s.cur];
  auto done = [&](Val v) { Frame& f = top(s); setDest(f, ki, v); afterCall(s, ki); return true; };
  auto C = [&](size_t i) { return concretize(s, a[i], w[i]); };
  switch (h) {
    case B_malloc: case B__Znwm: case B__Znam: case B__ZnwmSt11align_val_t: case B__ZnwmRKSt9nothrow_t: case B__ZnamRKSt9nothrow_t: {
      uint64_t n = C(0); if (n > (1u << 24)) { if (h == B__Znwm || h == B__Znam) unsupported(s, "huge allocation (std::bad_alloc path)"); return done(cv(0)); }
      return done(cv(alloc(s, s.cur + 1, n, KHeap, opt.fill, nullptr)));
    }
    case B_aligned_alloc: return done(cv(alloc(s, s.cur + 1, C(1), KHeap, opt.fill, nullptr)));
    case B___tc_static_alloc: return done(cv(alloc(s, s.cur + 1, C(0), KHeap, 0, "static")));
    case B_calloc: { uint64_t n = C(0) * C(1); return done(cv(alloc(s, s.cur + 1, n, KHeap, 0, nullptr))); }
    case B_realloc: {
      uint64_t p = C(0), n = C(1); uint64_t q = alloc(s, s.cur + 1, n, KHeap, opt.fill, nullptr);
      if (p) { Obj* o = find(s, p); if (!o || (uint32_t)p || o->kind != KHeap) violation(s, "memory", "realloc of an invalid pointer"); Obj* d = wobj(s, q); for (uint64_t i = 0; i < n && i < o->size; i++) setByte(d, i, byteAt(o, i)); release(s, p); }
      return done(cv(q));
    }
    case B_free: case B__ZdlPv: case B__ZdlPvm: case B__ZdaPv: case B__ZdaPvm: case B__ZdlPvmSt11align_val_t: case B__ZdlPvSt11align_val_t: case B__ZdlPvRKSt9nothrow_t: {
      uint64_t p = C(0); if (!p) return done(cv(0));
      Obj* o = find(s, p); if (!o) { uint32_t id = p >> 32; uint32_t r = id >> 25, i = id & ((1u << 25) - 1); if (r >= 1 && r < 62 && i < s.reg[r].n) violation(s, "memory", "double free"); violation(s, "memory", "free of a wild pointer"); }
      if (o->kind != KHeap || (uint32_t)p) violation(s, "memory", "free of a pointer that is not the start of a heap block");
      if (s.multi) race(s, p, o->size, true);
      release(s, p); return done(cv(0));
    }
    case B_memcpy: case B_memmove: {
      uint64_t n = C(2); uint64_t d = C(0), q = C(1); if (n) { checkRange(s, q, n, false, "read"); checkRange(s, d, n, true, "write"); if (s.multi) { race(s, q, n, false); race(s, d, n, true); }
        Obj* so = find(s, q); std::vector<uint8_t> tb(so->b.begin() + (uint32_t)q, so->b.begin() + (uint32_t)q + n); std::vector<E> te; if (!so->s.empty()) te.assign(so->s.begin() + (uint32_t)q, so->s.begin() + (uint32_t)q + n);
        bool sy = false; for (E e : te) if (e) sy = true;
        Obj* o = wobj(s, d); memcpy(&o->b[(uint32_t)d], tb.data(), n); if (sy && o->s.empty()) o->s.assign(o->size, nullptr); if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[(uint32_t)d + i] = sy ? te[i] : nullptr; }
      return done(cv(d));
    }
    case B_memset: {
      uint64_t n = C(2), d = C(0); Val v = a[1]; if (n) { checkRange(s, d, n, true, "write"); if (s.multi) race(s, d, n, true); Obj* o = wobj(s, d); E e = v.e ? mkExtract(v.e, 0, 8) : mkC(8, v.c & 255); for (uint64_t i = 0; i < n; i++) setByte(o, (uint32_t)d + i, e); }
      return done(cv(d));
    }
    case B_memcmp: case B_bcmp: {
      uint64_t n = C(2), p = C(0), q = C(1); if (!n) return done(cv(0));
      // reading may stop early in the real function only after a difference; standard requires both ranges valid
      checkRange(s, p, n, false, "read"); checkRange(s, q, n, false, "read"); if (s.multi) { race(s, p, n, false); race(s, q, n, false); }
      Obj *x = find(s, p), *y = find(s, q); uint32_t po = (uint32_t)p, qo = (uint32_t)q;
      E r = mkC(32, 0);
      for (uint64_t i = n; i-- > 0;) { E ex = byteAt(x, po + i), ey = byteAt(y, qo + i); if (ex == ey) continue; E df = mkBin(Op::Sub, mkZExt(ex, 32), mkZExt(ey, 32)); r = h == B_bcmp ? mkIte(mkCmp(Op::Eq, ex, ey), r, mkC(32, 1)) : mkIte(mkCmp(Op::Eq, ex, ey), r, df); }
      return done(fromE(r));
    }
    case B___tc_assert: {
      uint64_t mp = C(1); std::string msg = cstr(s, mp); asserts++; assertMsgs.insert(msg); Val c = a[0];
      if (!c.e) { if (!c.c) violation(s, "assert", msg); return done(cv(0)); }
      E ok = mkNot(mkCmp(Op::Eq, c.e, mkC(w[0], 0))); if (!isC(ok)) ok = simp(s, ok); if (isC(ok)) { if (!ok->lo) violation(s, "assert", msg); return done(cv(0)); }
      if (s.pcset.count(ok)) return done(cv(0));
      Model m; Res r = sol.check(s.pc, mkNot(ok), &m);
      if (r == Res::Sat) { Model full = s.model->m; for (auto& x : m.v) full.v[x.first] = x.second; violation(s, "assert", msg, &full); }
      if (r == Res::Unknown) { incomplete = true; incompleteWhy = "solver gave no answer for assertion: " + msg; }
      s.pcset.insert(ok); return done(cv(0));
    }
    case B___tc_lemma: {   // proves a == b, then uses b for a
      asserts++; assertMsgs.insert("lemma"); E x = a[0].e ? a[0].e : mkC(64, a[0].c), y = a[1].e ? a[1].e : mkC(64, a[1].c); E ok = mkCmp(Op::Eq, x, y); if (!isC(ok)) ok = simp(s, ok);
      if (isC(ok) && !ok->lo) violation(s, "assert", "lemma");
      if (!isC(ok) && !s.pcset.count(ok)) {
        Model m; Res r = sol.check(s.pc, mkNot(ok), &m); if (r == Res::Sat) { Model full = s.model->m; for (auto& z : m.v) full.v[z.first] = z.second; violation(s, "assert", "lemma", &full); }
        if (r == Res::Unknown) { incomplete = true; incompleteWhy = "solver gave no answer for a lemma"; return done(cv(0)); }
      }
      for (;;) {
        if (isC(x) || x == y) break; s.lem[x] = y;
        if (x->op == Op::ZExt || x->op == Op::SExt) { unsigned n = x->k[0]->width; x = x->k[0]; y = mkExtract(y, 0, n); }
        else if (x->op == Op::Add && isC(x->k[1])) { y = mkBin(Op::Sub, y, x->k[1]); x = x->k[0]; }
        else break;
      }
      return done(cv(0));
    }
    case B___tc_assume: {
      Val c = a[0]; E ok = c.e ? mkNot(mkCmp(Op::Eq, c.e, mkC(w[0], 0))) : mkC(1, c.c != 0);
      if (isC(ok)) { if (!ok->lo) { assumedAway++; throw PathEnd(); } return done(cv(0)); }
      if (!(s.model->ev.eval(ok) & 1)) { Model m; Res r = sol.check(s.pc, ok, &m); if (r == Res::Unsat) { assumedAway++; throw PathEnd(); } if (r == Res::Unknown) { incomplete = true; incompleteWhy = "solver gave no answer for an assumption"; throw PathEnd(); } addPC(s, ok); mergeModel(s, m); }
      else addPC(s, ok);
      return done(cv(0));
    }
    case B___tc_sym: {
      uint64_t p = C(0), n = C(1), np = C(2); std::string nm = cstr(s, np); checkRange(s, p, n, true, "write"); SymIn in; in.name = nm; Obj* o = wobj(s, p);
      for (uint64_t i = 0; i < n; i++) { Val v = symbolic(s, nm, 8); in.vals.push_back(v.e); in.widths.push_back(8); setByte(o, (uint32_t)p + i, v.e); }
      s.in.push_back(in); return done(cv(0));
    }
    case B___tc_var: { std::string nm = cstr(s, C(0)); unsigned b = (unsigned)C(1); Val v = symbolic(s, nm, b); s.in.push_back({nm, {v.e}, {b}}); return done(b < 64 ? fromE(mkZExt(v.e, 64)) : v); }
    case B___tc_range: {
      std::string nm = cstr(s, C(2)); int64_t lo = (int64_t)C(0), hi = (int64_t)C(1); if (lo > hi) { assumedAway++; throw PathEnd(); }
      if (lo == hi) return done(cv((uint64_t)lo));
      // value = lo + zext(v) with v of just enough bits: the interval domain sees the bounds
      uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned b = 64 - __builtin_clzll(span); Val v = symbolic(s, nm, b, span); E e = b < 64 ? mkZExt(v.e, 64) : v.e;
      E r = lo ? mkBin(Op::Add, e, mkC(64, (uint64_t)lo)) : e; s.in.push_back({nm, {r}, {64}}); return done(fromE(r));
    }
    case B___tc_choose: {   // fork over 0..n-1
      int64_t n = (int64_t)C(0); std::string nm = cstr(s, C(1)); if (n <= 0) { assumedAway++; throw PathEnd(); }
      int r = s.forkRes; if (r < 0) { for (int i = 1; i < n; i++) { auto c = clone(s); c->forkRes = i; work.push_back(std::move(c)); } r = 0; }
      s.forkRes = -1; s.in.push_back({nm, {mkC(64, r)}, {64}}); return done(cv(r));
    }
    case B___tc_cover: covers[cstr(s, C(0))]++; return done(cv(0));
    case B___tc_concretize: { uint64_t v = C(0); return done(cv(v)); }
    case B___tc_is_symbolic: return done(cv(a[0].e ? 1 : 0));
    case B___tc_fail: violation(s, "assert", cstr(s, C(0)));
    case B___tc_halt: checkLeaks(s); endPath(s); throw PathEnd();
    case B___tc_unsupported: unsupported(s, cstr(s, C(0)));
    case B___tc_unwind: unwind(s, C(0), false); return true;
    case B___dynamic_cast: return done(cv(dynCast(s, C(0), C(1), C(2))));
    case B___tc_log: { char b[64]; Val v = a[1]; snprintf(b, 64, " %lld", (long long)(v.e ? (uint64_t)s.model->ev.eval(v.e) : v.c)); s.log.push_back("T" + std::to_string(s.cur) + " " + cstr(s, C(0)) + b); return done(cv(0)); }
    case B___tc_ghost: t.ghost += (int)(int32_t)C(0); return done(cv(0));
    case B___tc_norace: { Obj* o = find(s, C(0)); if (o) wobj(s, C(0))->norace = true; return done(cv(0)); }
    case B___tc_obj_size: { Obj* o = find(s, C(0)); return done(cv(o ? o->size : ~0ull)); }
    case B___tc_config: s.cfg[(int)C(0)] = (int64_t)C(1); return done(cv(0));
    case B___tc_get_config: return done(cv((uint64_t)s.cfg[(int)C(0)]));
    case B___tc_now: return done(clockNow(s));
    case B___tc_set_now: s.now = a[0]; return done(cv(0));
    // ---- threads
    case B___tc_thread_self: return done(cv(s.cur));
    case B___tc_threads_live: { int n = 0; for (auto& x : s.th) if (x.ts != TS::Done) n++; return done(cv(n)); }
    case B___tc_thread_state: { uint64_t i = C(0); if (i >= s.th.size()) return done(cv(99)); Thread& x = s.th[i]; int r = x.ts == TS::Done ? 3 : x.ts == TS::Run ? (enabled(s, x) ? 0 : (x.pend == P_LOCK || x.pend == P_RELOCK) ? 4 : 1) : x.hasDl || x.ts == TS::Sleep ? 2 : 1; return done(cv(r)); }
    case B___tc_mutex_lock: { uint64_t m = C(0); checkRange(s, m, 1, false, "mutex access"); auto it = s.mx.find(m); (void)it; if (!grantOp(s, P_LOCK, m)) return true; lockMutex(s, m, s.cur); return done(cv(0)); }
    case B___tc_mutex_trylock: { uint64_t m = C(0); checkRange(s, m, 1, false, "mutex access"); if (!grantOp(s, P_TRYLOCK, m)) return true; auto& x = s.mx[m]; if (x.owner >= 0) return done(cv(0)); lockMutex(s, m, s.cur); return done(cv(1)); }
    case B___tc_mutex_unlock: { uint64_t m = C(0); checkRange(s, m, 1, false, "mutex access"); unlockMutex(s, m, s.cur); return done(cv(0)); }
    case B___tc_mutex_owned: { auto it = s.mx.find(C(0)); return done(cv(it != s.mx.end() && it->second.owner == s.cur)); }
    case B___tc_cond_wait: {
      uint64_t c = C(0), m = C(1), has = C(3);
      if (t.granted && t.pend == P_RELOCK) { t.granted = false; t.pend = P_NONE; checkRange(s, m, 1, false, "mutex access"); lockMutex(s, m, s.cur); return done(cv(t.wres)); }
      checkRange(s, c, 1, false, "condition variable access");
      if (!grantOp(s, P_CONDWAIT, c)) return true;
      unlockMutex(s, m, s.cur); t.ts = TS::WaitCond; t.waddr = c; t.wmutex = m; t.hasDl = has; t.dl = a[2]; t.wres = 0; needSched = true; return true;
    }
    case B___tc_cond_signal: {
      uint64_t c = C(0), all = C(1); checkRange(s, c, 1, false, "condition variable access");
      bool g = t.granted; if (!grantOp(s, P_NOTIFY, c)) return true;
      std::vector<int> ws; for (auto& x : s.th) if (x.ts == TS::WaitCond && x.waddr == c) ws.push_back(x.id);
      if (!all && ws.size() > 1) { int r = s.forkRes; if (r < 0) { for (size_t i = 1; i < ws.size(); i++) { auto n = clone(s); n->th[s.cur].granted = g; n->th[s.cur].pend = P_NOTIFY; n->forkRes = (int)i; work.push_back(std::move(n)); } r = 0; } s.forkRes = -1; s.dec.push_back({'n', r}); ws = {ws[r]}; }
      for (int i : ws) { Thread& x = s.th[i]; x.ts = TS::Run; x.pend = P_RELOCK; x.paddr = x.wmutex; x.wres = 0; x.hasDl = false; x.waddr = 0; }
      return done(cv(0));
    }
    case B___tc_futex_wait: {
      uint64_t p = C(0); uint32_t exp = (uint32_t)C(1); uint64_t has = C(3);
      if (t.granted && t.pend == P_WOKEN) { t.granted = false; t.pend = P_NONE; return done(cv(t.wres)); }
      // Not a scheduling point: the value was loaded just before, and every change is followed by a wake-up.
      checkRange(s, p, 4, false, "futex access");
      Val v = readLeaf(find(s, p), (uint32_t)p, 32); Val eq = icmp(CmpInst::ICMP_EQ, 32, v, cv(exp)); bool same = eq.e ? decide(s, eq.e) : eq.c;
      if (!same) return done(cv(0));
      t.ts = TS::WaitFutex; t.waddr = p; t.hasDl = has; t.dl = a[2]; t.wres = 0; needSched = true; return true;
    }
    case B___tc_futex_wake: {
      uint64_t p = C(0), n = C(1), k = 0;
      for (auto& x : s.th) if (k < n && x.ts == TS::WaitFutex && x.waddr == p) { x.ts = TS::Run; x.pend = P_WOKEN; x.paddr = 0; x.wres = 0; x.hasDl = false; x.waddr = 0; k++; }
      return done(cv(k));
    }
    case B___tc_thread_create: {
      uint64_t fn = C(0); if (s.th.size() >= MAXT) unsupported(s, "more than 8 threads in one execution");
      uint32_t id = fn >> 32; if ((id >> 25) != 62) violation(s, "memory", "thread entry is not a function");
      Thread nt; nt.id = s.th.size(); for (int i = 0; i < MAXT; i++) nt.vc[i] = t.vc[i]; nt.vc[nt.id] = 1; t.vc[s.cur]++; nt.pend = P_START;
      int me = s.cur; s.th.push_back(nt); s.multi = true; s.cur = nt.id; std::vector<Val> ar{a[1]}; std::vector<unsigned> an{1}; pushFrame(s, funcById[id & ((1u << 25) - 1)], nullptr, std::move(ar), std::move(an)); s.cur = me;
      return done(cv(nt.id));
    }
    case B___tc_thread_join: {
      uint64_t i = C(0); if (i >= s.th.size()) violation(s, "sync", "join of an unknown thread"); if ((int)i == s.cur) violation(s, "deadlock", "a thread joins itself");
      if (!grantOp(s, P_JOIN, i)) return true; VC v; for (int q = 0; q < MAXT; q++) v.c[q] = s.th[i].vc[q]; acq(s, v); s.th[i].joined = true;
      bool m = false; for (auto& x : s.th) if (x.id != s.cur && !(x.ts == TS::Done && x.joined)) m = true; s.multi = m || s.cur != 0; return done(cv(0));
    }
    case B___tc_sleep_until: {
      if (t.granted && t.pend == P_WOKEN) { t.granted = false; t.pend = P_NONE; return done(cv(0)); }
      t.ts = TS::Sleep; t.hasDl = true; t.dl = a[0]; needSched = true; return true;
    }
    case B___tc_quiesce: { if (t.granted) { t.granted = false; t.pend = P_NONE; return done(cv(0)); } t.pend = P_YIELD; t.paddr = C(0); needSched = true; return true; }
  }
  (void)fr0; unsupported(s, "builtin");
}

void Executor::intrinsic(State& s, Frame& fr, KInst& k) {
  auto* II = cast<IntrinsicInst>(k.I); unsigned w = k.nd ? k.w : 0;
  auto F = [](E e) { return e->width <= 64 ? fromE(e) : Val{0, e}; };
  auto done = [&](Val v) { Frame& f = top(s); setDest(f, k, v); afterCall(s, k); };
  auto A = [&](int i) -> Val { return opv(fr, k, i); };
  auto EA = [&](int i) { return toE(opv(fr, k, i), k.opw[i]); };
  std::vector<Val> a; std::vector<unsigned> aw; auto viaBuiltin = [&](int h) { for (int i = 0; i < 3; i++) { a.push_back(A(i)); aw.push_back(k.opw[i]); } builtin(s, fr, k, h, a, aw); };
  switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: viaBuiltin(B_memcpy); return;
    case Intrinsic::memmove: viaBuiltin(B_memmove); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: viaBuiltin(B_memset); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: done(A(0)); return;
    case Intrinsic::invariant_start: done(cv(0)); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "abort", "trap");
    case Intrinsic::debugtrap: done(cv(0)); return;
    case Intrinsic::is_constant: done(cv(0)); return;
    case Intrinsic::objectsize: done(cv(maskw(w))); return;
    case Intrinsic::stacksave: done(cv(0)); return;
    case Intrinsic::stackrestore: done(cv(0)); return;
    case Intrinsic::eh_typeid_for: done(cv((uint64_t)(uint32_t)typeId(dyn_cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts())))); return;
    case Intrinsic::threadlocal_address: { auto* g = cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts()); done(cv(tlsAddr(s, gid.at(g)))); return; }
    case Intrinsic::x86_sse2_pause: afterCall(s, k); return;
    case Intrinsic::vastart: { uint64_t p = concretize(s, A(0), 64); checkRange(s, p, 24, true, "write"); uint64_t va = top(s).va; Obj* o = wobj(s, p); writeLeaf(o, (uint32_t)p, 32, cv(48)); writeLeaf(o, (uint32_t)p + 4, 32, cv(176)); writeLeaf(o, (uint32_t)p + 8, 64, cv(va)); writeLeaf(o, (uint32_t)p + 16, 64, cv(0)); afterCall(s, k); return; }
    case Intrinsic::vaend: afterCall(s, k); return;
    case Intrinsic::vacopy: { uint64_t d = concretize(s, A(0), 64), q = concretize(s, A(1), 64); Obj* so = find(s, q); std::vector<uint8_t> b(so->b.begin() + (uint32_t)q, so->b.begin() + (uint32_t)q + 24); Obj* o = wobj(s, d); memcpy(&o->b[(uint32_t)d], b.data(), 24); afterCall(s, k); return; }
    case Intrinsic::abs: { Val v = A(0); E e = EA(0); (void)v; done(F(mkIte(mkCmp(Op::Slt, e, mkC128(w, 0)), mkBin(Op::Sub, mkC128(w, 0), e), e))); return; }
    case Intrinsic::smax: done(F(mkIte(mkCmp(Op::Slt, EA(0), EA(1)), EA(1), EA(0)))); return;
    case Intrinsic::smin: done(F(mkIte(mkCmp(Op::Slt, EA(1), EA(0)), EA(1), EA(0)))); return;
    case Intrinsic::umax: done(F(mkIte(mkCmp(Op::Ult, EA(0), EA(1)), EA(1), EA(0)))); return;
    case Intrinsic::umin: done(F(mkIte(mkCmp(Op::Ult, EA(1), EA(0)), EA(1), EA(0)))); return;
    case Intrinsic::usub_sat: done(F(mkIte(mkCmp(Op::Ult, EA(0), EA(1)), mkC128(w, 0), mkBin(Op::Sub, EA(0), EA(1))))); return;
    case Intrinsic::uadd_sat: { E r = mkBin(Op::Add, EA(0), EA(1)); done(F(mkIte(mkCmp(Op::Ult, r, EA(0)), mkC128(w, mask128(w)), r))); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned id = II->getIntrinsicID(); w = k.opw[0]; E x = EA(0), y = EA(1), r, o;
      if (w > 64) { if (!isC(x) || !isC(y)) unsupported(s, "wide overflow intrinsic"); }
      if (id == Intrinsic::uadd_with_overflow) { r = mkBin(Op::Add, x, y); o = mkCmp(Op::Ult, r, x); }
      else if (id == Intrinsic::usub_with_overflow) { r = mkBin(Op::Sub, x, y); o = mkCmp(Op::Ult, x, y); }
      else if (id == Intrinsic::umul_with_overflow) { unsigned w2 = w * 2; r = mkBin(Op::Mul, x, y); if (x->umax == 0 || (u128)x->umax * y->umax <= mask128(w)) o = mkFalse(); else if (isC(y) && y->lo) o = mkCmp(Op::Ult, mkC(w, maskw(w) / y->lo), x); else if (isC(x) && x->lo) o = mkCmp(Op::Ult, mkC(w, maskw(w) / x->lo), y); else { E p = mkBin(Op::Mul, mkZExt(x, w2), mkZExt(y, w2)); o = mkNot(mkCmp(Op::Eq, mkExtract(p, w, w), mkC(w, 0))); } }
      else {
        unsigned w2 = id == Intrinsic::smul_with_overflow ? w * 2 : w + 1; Op op = id == Intrinsic::sadd_with_overflow ? Op::Add : id == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul; r = mkBin(op, x, y);
        i128 lo, hi; i128 xs[2] = {x->smin, x->smax}, ys[2] = {y->smin, y->smax};
        if (op == Op::Add) { lo = xs[0] + ys[0]; hi = xs[1] + ys[1]; } else if (op == Op::Sub) { lo = xs[0] - ys[1]; hi = xs[1] - ys[0]; } else { lo = hi = xs[0] * ys[0]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { i128 p = xs[i] * ys[j]; lo = std::min(lo, p); hi = std::max(hi, p); } }
        i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1;
        if (lo >= mn && hi <= mx) o = mkFalse();
        else if (op == Op::Add) { E z = mkC(w, 0); E sx = mkCmp(Op::Slt, x, z), sy = mkCmp(Op::Slt, y, z), sr = mkCmp(Op::Slt, r, z); o = mkAnd(mkCmp(Op::Eq, sx, sy), mkNot(mkCmp(Op::Eq, sx, sr))); }
        else if (op == Op::Sub) { E z = mkC(w, 0); E sx = mkCmp(Op::Slt, x, z), sy = mkCmp(Op::Slt, y, z), sr = mkCmp(Op::Slt, r, z); o = mkAnd(mkNot(mkCmp(Op::Eq, sx, sy)), mkNot(mkCmp(Op::Eq, sx, sr))); }
        else if (isC(y) && (int64_t)sxt(y->lo, w) > 0) { int64_t c = sxt(y->lo, w); o = mkOr(mkCmp(Op::Slt, x, mkC(w, (uint64_t)(int64_t)(mn / c) & maskw(w))), mkCmp(Op::Slt, mkC(w, (uint64_t)(int64_t)(mx / c) & maskw(w)), x)); }
        else if (isC(x) && (int64_t)sxt(x->lo, w) > 0) { int64_t c = sxt(x->lo, w); o = mkOr(mkCmp(Op::Slt, y, mkC(w, (uint64_t)(int64_t)(mn / c) & maskw(w))), mkCmp(Op::Slt, mkC(w, (uint64_t)(int64_t)(mx / c) & maskw(w)), y)); }
        else { E p = mkBin(op, mkSExt(x, w2), mkSExt(y, w2)); o = mkNot(mkCmp(Op::Eq, p, mkSExt(r, w2))); }
      }
      Frame& f = top(s); f.regs[k.dest] = F(r); f.regs[k.dest + 1] = F(o); afterCall(s, k); return;
    }
    case Intrinsic::ctpop: { E x = EA(0); E r = mkC128(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), w)); done(F(r)); return; }
    case Intrinsic::ctlz: { E x = EA(0); E r = mkC128(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkC128(w, w - 1 - i), r); done(F(r)); return; }
    case Intrinsic::cttz: { E x = EA(0); E r = mkC128(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkC128(w, i), r); done(F(r)); return; }
    case Intrinsic::bswap: { E x = EA(0); E r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); done(F(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      uint64_t sh = concretize(s, A(2), k.opw[2]) % w; Frame& f = top(s); E x = toE(opv(f, k, 0), w), y = toE(opv(f, k, 1), w); E r;
      if (II->getIntrinsicID() == Intrinsic::fshl) r = sh ? mkBin(Op::Or, mkBin(Op::Shl, x, mkC128(w, sh)), mkBin(Op::LShr, y, mkC128(w, w - sh))) : x;
      else r = sh ? mkBin(Op::Or, mkBin(Op::Shl, x, mkC128(w, w - sh)), mkBin(Op::LShr, y, mkC128(w, sh))) : y;
      done(F(r)); return;
    }
    case Intrinsic::fabs: done(F(mkF1(Op::FAbs, EA(0)))); return;
    case Intrinsic::sqrt: done(F(mkF1(Op::FSqrt, EA(0)))); return;
    case Intrinsic::floor: done(F(mkF1(Op::FRint, EA(0), 0))); return;
    case Intrinsic::ceil: done(F(mkF1(Op::FRint, EA(0), 1))); return;
    case Intrinsic::trunc: done(F(mkF1(Op::FRint, EA(0), 2))); return;
    case Intrinsic::round: done(F(mkF1(Op::FRint, EA(0), 3))); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: done(F(mkF1(Op::FRint, EA(0), 4))); return;
    case Intrinsic::fmuladd: done(F(mkF2(Op::FAdd, mkF2(Op::FMul, EA(0), EA(1)), EA(2)))); return;
    case Intrinsic::minnum: { E x = EA(0), y = EA(1); done(F(mkIte(mkFCmp(Op::FUno, x, x), y, mkIte(mkFCmp(Op::FOlt, y, x), y, x)))); return; }
    case Intrinsic::maxnum: { E x = EA(0), y = EA(1); done(F(mkIte(mkFCmp(Op::FUno, x, x), y, mkIte(mkFCmp(Op::FOlt, x, y), y, x)))); return; }
    case Intrinsic::copysign: { E x = EA(0), y = EA(1); done(F(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); return; }
    case Intrinsic::is_fpclass: { E x = EA(0); unsigned m = (unsigned)cast<ConstantInt>(II->getArgOperand(1))->getZExtValue(); if (m == 3) { done(F(mkFCmp(Op::FUno, x, x))); return; } unsupported(s, "is.fpclass"); }
    case Intrinsic::load_relative: default: unsupported(s, "intrinsic " + II->getCalledFunction()->getName().str());
  }
}

uint64_t Executor::tlsAddr(State& s, int g) {
  Thread& t = s.th[s.cur]; auto it = t.tls.find(g); if (it != t.tls.end()) return (uint64_t)it->second << 32;
  auto* gv = globals[g]; uint64_t sz = DL.getTypeAllocSize(gv->getValueType()); uint64_t a = alloc(s, s.cur + 1, sz, KGlobal, 0, "tls");
  if (gv->hasInitializer()) initGlobal(s, wobj(s, a), 0, gv->getInitializer());
  s.th[s.cur].tls[g] = a >> 32; return a;
}
}
