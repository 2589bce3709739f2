// Simplification under the path condition; joining of forked states where control flow meets again.
#include "exec.h"
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <algorithm>
using namespace llvm;
namespace tcs {

// ---------------------------------------------------------------- facts
void Executor::learn(State& s, E c) {
  auto put = [&](E x, uint64_t lo, uint64_t hi) { if (isC(x)) return; auto it = s.rng.find(x); if (it == s.rng.end()) s.rng[x] = {lo, hi}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); } };
  auto narrow = [&](E x, uint64_t lo, uint64_t hi) {   // x in [lo,hi]
    if (lo > hi) return; put(x, lo, hi);
    for (int d = 0; d < 4; d++) {
      if (x->op == Op::ZExt) { x = x->k[0]; hi = std::min(hi, maskw(x->width)); if (lo > hi) return; put(x, lo, hi); }
      else if (x->op == Op::Add && isC(x->k[1])) { uint64_t m = maskw(x->width), c = x->k[1]->lo; uint64_t l = (lo - c) & m, h = (hi - c) & m; if (l > h) return; x = x->k[0]; lo = l; hi = h; put(x, lo, hi); }
      else return;
    }
  };
  if (c->k[0] && c->k[0]->width > 64) return;
  switch (c->op) {
    case Op::Eq: { E a = c->k[0], b = c->k[1]; if (isC(a)) std::swap(a, b); if (isC(b) && !isC(a)) { s.eq[a] = b; narrow(a, b->lo, b->lo); if (a->op == Op::Add && isC(a->k[1])) s.eq[a->k[0]] = mkBin(Op::Sub, b, a->k[1]); if (a->op == Op::ZExt) s.eq[a->k[0]] = mkExtract(b, 0, a->k[0]->width); } break; }
    case Op::Ult: if (isC(c->k[1])) narrow(c->k[0], 0, c->k[1]->lo - 1); else if (isC(c->k[0])) narrow(c->k[1], c->k[0]->lo + 1, maskw(c->k[1]->width)); break;
    case Op::Ule: if (isC(c->k[1])) narrow(c->k[0], 0, c->k[1]->lo); else if (isC(c->k[0])) narrow(c->k[1], c->k[0]->lo, maskw(c->k[1]->width)); break;
    default: break;
  }
}

bool Executor::range(State& s, E e, uint64_t& lo, uint64_t& hi, int d) {
  if (e->width > 64) return false;
  lo = e->umin; hi = e->umax; auto it = s.rng.find(e); if (it != s.rng.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
  if (isC(e)) { lo = hi = e->lo; return true; }
  if (d < 4) {
    uint64_t l, h;
    if (e->op == Op::ZExt && range(s, e->k[0], l, h, d + 1)) { lo = std::max(lo, l); hi = std::min(hi, h); }
    else if (e->op == Op::Add && isC(e->k[1]) && range(s, e->k[0], l, h, d + 1)) { uint64_t m = maskw(e->width), c = e->k[1]->lo; uint64_t a = (l + c) & m, b = (h + c) & m; if (a <= b) { lo = std::max(lo, a); hi = std::min(hi, b); } }
    else if (e->op == Op::Ite) { uint64_t l2, h2; if (range(s, e->k[1], l, h, d + 1) && range(s, e->k[2], l2, h2, d + 1)) { lo = std::max(lo, std::min(l, l2)); hi = std::min(hi, std::max(h, h2)); } }
  }
  return lo <= hi;
}

E Executor::simp(State& s, E e) {
  if (isC(e) || s.pcset.empty()) return e;
  std::unordered_map<E, E> memo; int budget = 1500;
  std::function<E(E)> go = [&](E x) -> E {
    if (isC(x)) return x;
    if (x->width == 1) { if (s.pcset.count(x)) return mkTrue(); if (s.pcset.count(mkNot(x))) return mkFalse(); }
    auto q = s.eq.find(x); if (q != s.eq.end()) return q->second; if (!s.lem.empty()) { q = s.lem.find(x); if (q != s.lem.end()) return q->second; }
    if (!x->nk) return x;
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    if (--budget < 0) return x;
    E k[3] = {nullptr, nullptr, nullptr}; E r;
    if (x->op == Op::Ite) {
      k[0] = go(x->k[0]);
      if (isC(k[0])) { E arm = k[0]->lo ? x->k[1] : x->k[2]; if (iteLoses(x, arm)) { memo[x] = x; return x; } r = go(arm); }
      else { k[1] = go(x->k[1]); k[2] = go(x->k[2]); r = rebuild(x, k); }
    } else { for (int i = 0; i < x->nk; i++) k[i] = go(x->k[i]); r = rebuild(x, k); }
    if (r->width == 1 && !isC(r)) {
      if (r != x) { if (s.pcset.count(r)) r = mkTrue(); else if (s.pcset.count(mkNot(r))) r = mkFalse(); }
      if ((r->op == Op::Ult || r->op == Op::Ule || r->op == Op::Eq) && r->k[0]->width <= 64) {
        uint64_t al, ah, bl, bh;
        if (range(s, r->k[0], al, ah) && range(s, r->k[1], bl, bh)) {
          if (r->op == Op::Ult) { if (ah < bl) r = mkTrue(); else if (al >= bh) r = mkFalse(); }
          else if (r->op == Op::Ule) { if (ah <= bl) r = mkTrue(); else if (al > bh) r = mkFalse(); }
          else if (ah < bl || bh < al) r = mkFalse();
        }
      }
    }
    memo[x] = r; return r;
  };
  return go(e);
}

// ---------------------------------------------------------------- join points
// join[b]: the block where all normal continuations of b's branch meet, -1: only at the function's return, -2: none.
void Executor::joins(KFunc* f) {
  if (f->joinDone) return;
  f->joinDone = true; size_t n = f->bb.size(); f->join.assign(n, -2); f->joinLoop.assign(n, 0);
  std::vector<std::vector<int>> succ(n + 1), pred(n + 1); int X = (int)n;     // X: virtual exit (normal return)
  for (size_t b = 0; b < n; b++) {
    KInst& t = f->bb[b].in.back();
    if (t.opc == Instruction::Ret) succ[b].push_back(X);
    else if (t.opc == Instruction::Invoke) succ[b].push_back(t.tgt[0]);
    else if (t.opc == Instruction::Br || t.opc == Instruction::Switch) { std::set<int> q(t.tgt.begin(), t.tgt.end()); for (int x : q) succ[b].push_back(x); }
  }
  for (size_t b = 0; b < n; b++) for (int x : succ[b]) pred[x].push_back((int)b);
  std::vector<char> reach(n + 1, 0); std::vector<int> st{X}; reach[X] = 1; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int p : pred[x]) if (!reach[p]) { reach[p] = 1; st.push_back(p); } }
  // immediate post-dominators by iteration over reverse post-order of the reversed graph; `in`: restrict to these blocks
  auto postdom = [&](const std::vector<std::vector<int>>& succ, const std::vector<std::vector<int>>& pred, int X, const std::vector<char>& reach) {
    std::vector<int> order, num(n + 1, -1); std::vector<char> seen(n + 1, 0);
    std::function<void(int)> dfs = [&](int x) { seen[x] = 1; for (int p : pred[x]) if (!seen[p]) dfs(p); order.push_back(x); };
    dfs(X); std::reverse(order.begin(), order.end()); for (size_t i = 0; i < order.size(); i++) num[order[i]] = (int)i;
    std::vector<int> ip(n + 1, -1); ip[X] = X; bool ch = true;
    auto inter = [&](int a, int b) { while (a != b) { while (num[a] > num[b]) a = ip[a]; while (num[b] > num[a]) b = ip[b]; } return a; };
    while (ch) { ch = false; for (int b : order) { if (b == X) continue; int ni = -1; for (int x : succ[b]) if (reach[x] && ip[x] >= 0) ni = ni < 0 ? x : inter(ni, x); if (ni != ip[b]) { ip[b] = ni; ch = true; } } }
    return ip; };
  std::vector<int> ip = postdom(succ, pred, X, reach);
  // loops
  DominatorTree DT(*f->F); LoopInfo LI(DT); std::map<BasicBlock*, int> id; for (size_t b = 0; b < n; b++) id[f->bb[b].B] = (int)b;
  f->joinIn.assign(n, nullptr); std::map<Loop*, std::pair<std::vector<int>, std::shared_ptr<std::vector<char>>>> lp;
  for (size_t b = 0; b < n; b++) {
    if (!reach[b]) continue;
    int cnt = 0; for (int x : succ[b]) if (reach[x]) cnt++;
    if (cnt < 2) continue;                               // the other side never returns normally: nothing to join
    Loop* L = LI.getLoopFor(f->bb[b].B); int j = ip[b];
    if (!L) { if (j == X) f->join[b] = -1; else if (j >= 0) f->join[b] = j; continue; }
    // inside a loop: where all ways that stay in the loop meet (at the latest at its header); those leaving it stay apart
    auto it = lp.find(L);
    if (it == lp.end()) {
      std::vector<std::vector<int>> s2(n + 1), p2(n + 1); auto in = std::make_shared<std::vector<char>>(n, 0); int H = id[L->getHeader()];
      for (size_t q = 0; q < n; q++) if (L->contains(f->bb[q].B)) (*in)[q] = 1;
      for (size_t q = 0; q < n; q++) if ((*in)[q]) for (int x : succ[q]) { if (x == X || !(*in)[x]) continue; int y = x == H ? X : x; s2[q].push_back(y); p2[y].push_back((int)q); }
      std::vector<char> r2(n + 1, 0); std::vector<int> st2{X}; r2[X] = 1; while (!st2.empty()) { int x = st2.back(); st2.pop_back(); for (int p : p2[x]) if (!r2[p]) { r2[p] = 1; st2.push_back(p); } }
      std::vector<int> ip2 = postdom(s2, p2, X, r2); for (size_t q = 0; q < n; q++) if (ip2[q] == X) ip2[q] = H; for (size_t q = 0; q < n; q++) if (!r2[q]) ip2[q] = -1;
      it = lp.emplace(L, std::make_pair(ip2, in)).first;
    }
    int k = it->second.first[b]; if (k < 0) continue;
    { int c2 = 0; for (int x : succ[b]) if (x != X && (*it->second.second)[x]) c2++; if (c2 < 2 && j != k) continue; }   // a plain loop exit
    f->join[b] = k; f->joinIn[b] = it->second.second;
    BasicBlock* J = f->bb[k].B; bool edge = J == L->getHeader() || L->isLoopLatch(J); if (!edge) if (auto* br = dyn_cast<BranchInst>(J->getTerminator())) if (br->isUnconditional() && br->getSuccessor(0) == L->getHeader()) edge = true;
    f->joinLoop[b] = edge;
  }
}

void Executor::leaveScope(std::shared_ptr<Scope> sc) { if (--sc->pending == 0) complete(sc); }

// the state leaves every scope whose frame no longer exists
void Executor::escape(State& s, size_t depth) {
  while (s.scope && s.scope->tid == s.cur && depth < s.scope->depth) { auto sc = s.scope; s.scope = sc->up; if (s.scope) s.scope->pending++; leaveScope(sc); }
}
void Executor::dropScopes(State& s) { while (s.scope) { auto sc = s.scope; s.scope = sc->up; if (s.scope) s.scope->pending++; leaveScope(sc); } }

void Executor::checkJoin(State& s, bool returned) {
  for (;;) {
    if (!s.scope) return;
    Scope& sc = *s.scope; size_t d = s.th[s.cur].st.size();
    if (sc.tid != s.cur) return;
    if (returned && d + 1 == sc.depth && sc.J == -1) throw Parked();
    if (d < sc.depth) { escape(s, d); continue; }
    if (d == sc.depth && sc.inLoop) { Frame& f = *s.th[s.cur].st.back(); if (f.f == sc.f && !(*sc.inLoop)[f.bb]) { auto k = s.scope; s.scope = k->up; if (s.scope) s.scope->pending++; leaveScope(k); continue; } }
    if (d == sc.depth && sc.J >= 0) { Frame& f = *s.th[s.cur].st.back(); if (f.f == sc.f && f.bb == sc.J && f.ip == 0) throw Parked(); }
    return;
  }
}

void Executor::park(std::unique_ptr<State> s) { auto sc = s->scope; s->scope.reset(); sc->arrived.push_back(std::move(s)); leaveScope(sc); }

void Executor::complete(std::shared_ptr<Scope> sc) {
  // join the arrived states pairwise into as few as possible
  std::vector<std::unique_ptr<State>> out;
  for (auto& s : sc->arrived) {
    bool ok = false;
    for (auto& o : out) if (mergeInto(*o, *s, *sc)) { ok = true; joined++; break; }
    if (!ok) out.push_back(std::move(s)); 
  }
  if (out.size() > 1) joinFail += out.size() - 1;
  sc->arrived.clear();
  auto up = sc->up;
  if (up) up->pending += out.size();
  for (auto& o : out) {
    o->scope = up; 
    if (up) { try { checkJoin(*o, sc->J == -1); } catch (Parked&) { auto sp = std::move(o); auto t = sp->scope; sp->scope.reset(); t->arrived.push_back(std::move(sp)); t->pending--; continue; } }
    work.push_back(std::move(o));
  }
  if (up) { up->pending--; if (up->pending == 0) complete(up); }
}

static bool sameVal(const Val& a, const Val& b) { return a.e == b.e && (a.e || a.c == b.c); }
static bool ptrLike(uint64_t v) { return v >= (1ull << 32) && (v >> 57) != 0x7f && (v >> 57) != 0 && v < (64ull << 57); }

// Join b into a (both at the same place).  False when they differ in something that is better kept apart.
bool Executor::mergeInto(State& a, State& b, const Scope& sc) {
  auto why = [&](int n) { if (opt.verbose) fprintf(stderr, "join refused (%d) at %s block %d\n", n, sc.f->F->getName().str().c_str(), sc.J); return false; };
  if (a.cur != b.cur || a.th.size() != b.th.size() || a.dec.size() != b.dec.size() || a.in.size() != b.in.size() || a.multi != b.multi || a.multi || a.nameCnt != b.nameCnt || a.forkRes != b.forkRes || a.forced || b.forced) return why(1);
  if (!sameVal(a.now, b.now)) return why(2);
  for (size_t i = 0; i < a.in.size(); i++) if (a.in[i].name != b.in[i].name || a.in[i].vals != b.in[i].vals) return why(3);
  if (a.mx.size() != b.mx.size()) return why(4);
  for (auto& m : a.mx) { auto it = b.mx.find(m.first); if (it == b.mx.end() || it->second.owner != m.second.owner || it->second.depth != m.second.depth) return why(5); }
  for (size_t i = 0; i < a.th.size(); i++) {
    Thread &x = a.th[i], &y = b.th[i];
    if (x.ts != y.ts || x.pend != y.pend || x.granted != y.granted || x.ghost != y.ghost || x.tls != y.tls || x.st.size() != y.st.size()) return why(6);
    for (size_t j = 0; j < x.st.size(); j++) {
      Frame &p = *x.st[j], &q = *y.st[j]; if (x.st[j] == y.st[j]) continue;
      if (p.f != q.f || p.bb != q.bb || p.ip != q.ip || p.allocas != q.allocas || p.va != q.va) return why(7);
    }
  }
  // condition under which the joined state stands for a
  std::vector<E> common, ra, rb;
  { std::unordered_set<E> sb(b.pc.begin(), b.pc.end()), sa(a.pc.begin(), a.pc.end()); for (E e : a.pc) if (sb.count(e)) common.push_back(e); else ra.push_back(e); for (E e : b.pc) if (!sa.count(e)) rb.push_back(e); }
  if (ra.size() > 24 || rb.size() > 24) return why(8);
  E ca = mkTrue(), cb = mkTrue(); for (E e : ra) ca = mkAnd(ca, e); for (E e : rb) cb = mkAnd(cb, e);
  E sel = ca; { std::unordered_set<E> sb(rb.begin(), rb.end()); for (E e : ra) if (sb.count(mkNot(e))) { sel = e; break; } }
  int mode = a.cfg.count(C_MERGE) ? (int)a.cfg[C_MERGE] : 0;
  auto joinVal = [&](const Val& x, const Val& y, unsigned w, bool concOk, Val& r) {
    if (sameVal(x, y)) { r = x; return true; }
    if (!x.e && !y.e) { if (!concOk || ptrLike(x.c) || ptrLike(y.c)) return false; }
    else if (w == 64 && ((!x.e && ptrLike(x.c)) || (!y.e && ptrLike(y.c)))) return false;
    E e = mkIte(sel, toE(x, w), toE(y, w)); r = w <= 64 ? fromE(e) : Val{0, e}; return true; };
  // registers
  struct RU { size_t t, fr; int r; Val v; }; std::vector<RU> ru;
  for (size_t i = 0; i < a.th.size(); i++) for (size_t j = 0; j < a.th[i].st.size(); j++) {
    if (a.th[i].st[j] == b.th[i].st[j]) continue;
    Frame &p = *a.th[i].st[j], &q = *b.th[i].st[j]; bool topf = j + 1 == a.th[i].st.size() && (int)i == a.cur;
    std::set<int> fresh; // values defined by the join itself
    if (topf) { if (sc.J >= 0) { if (!sc.loopEdge) for (auto& ph : p.f->bb[p.bb].phi) for (unsigned n = 0; n < ph.nd; n++) fresh.insert(ph.dest + n); }
                else { int ipc = p.ip - 1; if (ipc >= 0) { KInst& k = p.f->bb[p.bb].in[ipc]; if (k.dest >= 0) for (unsigned n = 0; n < k.nd; n++) fresh.insert(k.dest + n); } else fresh.insert(-1); } }
    for (int r : live(p.f, p.bb, p.ip)) {
      if (sameVal(p.regs[r], q.regs[r])) continue;
      unsigned w = p.f->slotW[r]; bool ok = mode >= 2 || w == 1 || fresh.count(r) || fresh.count(-1); Val v;
      if (!joinVal(p.regs[r], q.regs[r], w, ok, v)) return why(9);
      ru.push_back({i, j, r, v});
    }
  }
  // memory
  struct MU { uint64_t addr; std::vector<std::pair<uint32_t, E>> b; }; std::vector<MU> mu;
  for (int r = 0; r < 64; r++) {
    Region &A = a.reg[r], &B = b.reg[r]; size_t nc = std::max(A.d.size(), B.d.size());
    for (size_t c = 0; c < nc; c++) {
      Chunk* x = c < A.d.size() ? A.d[c].p : nullptr; Chunk* y = c < B.d.size() ? B.d[c].p : nullptr; if (x == y) continue;
      for (int i = 0; i < 128; i++) {
        Obj* o = x ? x->o[i].p : nullptr; Obj* p = y ? y->o[i].p : nullptr; if (o == p) continue;
        if (!o || !p || o->size != p->size || o->kind != p->kind || o->ro != p->ro || o->sh || p->sh) return why(10);
        MU m; m.addr = ((uint64_t)(((uint32_t)r << 25) | (uint32_t)(c * 128 + i))) << 32;
        for (uint32_t k = 0; k < o->size; k++) {
          E e = o->s.empty() ? nullptr : o->s[k], g = p->s.empty() ? nullptr : p->s[k]; if (e == g && (e || o->b[k] == p->b[k])) continue;
          if (!e && !g && mode < 1) return why(11);
          if (m.b.size() > 256) return why(12);
          m.b.push_back({k, mkIte(sel, byteAt(o, k), byteAt(p, k))});
        }
        if (mode >= 1) { // pointers must agree
          for (uint32_t k = 0; k + 8 <= o->size; k += 8) { bool d = false; for (auto& q : m.b) if (q.first >= k && q.first < k + 8) d = true; if (!d) continue; uint64_t u, v; bool uc = true, vc = true; for (int z = 0; z < 8; z++) { if (!o->s.empty() && o->s[k + z]) uc = false; if (!p->s.empty() && p->s[k + z]) vc = false; } memcpy(&u, &o->b[k], 8); memcpy(&v, &p->b[k], 8); if ((uc && ptrLike(u)) || (vc && ptrLike(v))) return why(13); }
        }
        if (!m.b.empty()) mu.push_back(std::move(m));
      }
    }
  }
  // commit
  for (auto& u : ru) { auto& f = a.th[u.t].st[u.fr]; if (f.use_count() > 1) f = std::make_shared<Frame>(*f); f->regs[u.r] = u.v; }
  for (int r = 0; r < 64; r++) if (b.reg[r].n > a.reg[r].n) { while (a.reg[r].d.size() < b.reg[r].d.size()) a.reg[r].d.push_back(Ref<Chunk>(new Chunk)); a.reg[r].n = b.reg[r].n; }
  for (auto& m : mu) { Obj* o = wobj(a, m.addr); for (auto& q : m.b) setByte(o, q.first, q.second); }
  for (auto it = a.pcset.begin(); it != a.pcset.end();) { if (b.pcset.count(*it)) ++it; else it = a.pcset.erase(it); }
  for (auto it = a.lem.begin(); it != a.lem.end();) { auto q = b.lem.find(it->first); if (q != b.lem.end() && q->second == it->second) ++it; else it = a.lem.erase(it); }
  a.pc = common; a.eq.clear(); a.rng.clear(); for (E e : common) { a.pcset.insert(e); learn(a, e); }
  addPC(a, mkOr(ca, cb));
  a.steps = std::max(a.steps, b.steps); a.schedPts = std::max(a.schedPts, b.schedPts);
  return true;
}
}
