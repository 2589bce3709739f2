// Threads, synchronisation, virtual time; exceptions.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <algorithm>
using namespace llvm;
namespace tcs {

bool Executor::enabled(State& s, Thread& t) {
  if (t.ts != TS::Run) return false;
  switch (t.pend) {
    case P_NONE: return t.id == s.cur;
    case P_LOCK: case P_RELOCK: { auto it = s.mx.find(t.paddr); return it == s.mx.end() || it->second.owner < 0; }
    case P_JOIN: return t.paddr < s.th.size() && s.th[t.paddr].ts == TS::Done;
    case P_YIELD: return false;        // quiescence: handled separately
    default: return true;
  }
}

bool Executor::grantOp(State& s, Pend p, uint64_t addr) {
  Thread& t = s.th[s.cur];
  if (t.granted) { t.granted = false; t.pend = P_NONE; return true; }
  if (!s.multi) { t.pend = p; t.paddr = addr; if (enabled(s, t)) { t.pend = P_NONE; return true; } }
  t.pend = p; t.paddr = addr; needSched = true; return false;
}

void Executor::lockMutex(State& s, uint64_t m, int tid) { auto& x = s.mx[m]; x.owner = tid; x.depth = 1; acq(s, x.vc); }
void Executor::unlockMutex(State& s, uint64_t m, int tid) {
  auto it = s.mx.find(m); if (it == s.mx.end() || it->second.owner != tid) violation(s, "sync", "unlock of a mutex not held by this thread");
  it->second.owner = -1; rel(s, it->second.vc, true);
}

bool Executor::deadlineLE(State& s, const Val& a, const Val& b) {
  if (!a.e && !b.e) return (int64_t)a.c <= (int64_t)b.c;
  return decide(s, mkCmp(Op::Sle, toE(a, 64), toE(b, 64)));
}

Val Executor::clockNow(State& s) {
  if (s.cfg[C_JITTER] && s.nameCnt["jitter"] < s.cfg[C_JITTERN]) {
    Val j = symbolic(s, "jitter", 64, s.cfg[C_JITTER]);
    s.in.push_back({"jitter", {j.e}, {64}}); s.now = fromE(mkBin(Op::Add, toE(s.now, 64), j.e));
  }
  return s.now;
}

void Executor::schedule(State& s) {
  struct C { char k; int t; }; std::vector<C> ch; bool anyRun = false; s.schedPts++; if (s.scope) dropScopes(s);
  std::vector<int> order; if (s.cur >= 0) order.push_back(s.cur); for (auto& t : s.th) if (t.id != s.cur) order.push_back(t.id);
  bool curEn = enabled(s, s.th[s.cur]);
  for (int i : order) if (enabled(s, s.th[i])) { ch.push_back({CH_RUN, i}); anyRun = true; }
  int mode = s.cfg[C_TIMEOUTS]; std::vector<int> waiting;
  // A step independent of every other thread's (first step of a new thread, return from a futex wait or sleep, join of
  // a finished thread) is taken at once, unless time may pass before it.
  if (mode != 1 && !s.cfg[C_JITTER]) for (auto& c : ch) { Thread& t = s.th[c.t]; if (t.pend == P_START || t.pend == P_WOKEN || t.pend == P_JOIN) { applyChoice(s, {CH_RUN, c.t}); return; } }
  for (int i : order) {
    Thread& t = s.th[i]; if (!(t.ts == TS::Sleep || ((t.ts == TS::WaitCond || t.ts == TS::WaitFutex) && t.hasDl))) continue;
    if (t.ts != TS::Sleep && mode == 0) continue;
    if (deadlineLE(s, t.dl, s.now)) { ch.push_back({CH_TIMEOUT, i}); if (t.ts == TS::Sleep) anyRun = true; continue; }
    if (mode == 1 && (int64_t)s.timeouts < s.cfg[C_MAXTIMEOUTS]) { ch.push_back({CH_TIMEOUT, i}); continue; }
    waiting.push_back(i);
  }
  if (s.spur < (uint32_t)s.cfg[C_SPURIOUS]) for (int i : order) if (s.th[i].ts == TS::WaitCond) ch.push_back({CH_SPUR, i});
  if (!anyRun && ch.empty()) for (int i : order) if (s.th[i].ts == TS::Run && s.th[i].pend == P_YIELD && s.th[i].paddr == 0) { ch.push_back({CH_RUN, i}); anyRun = true; break; }
  bool onlySpur = true; for (auto& c : ch) if (c.k != CH_SPUR) onlySpur = false;
  if (onlySpur && !waiting.empty()) {
    // idle: time passes until the earliest deadline
    for (int i : waiting) { bool min = true; for (int j : waiting) if (j != i && !deadlineLE(s, s.th[i].dl, s.th[j].dl)) { min = false; break; } if (min) ch.push_back({CH_TIMEOUT, i}); }
  }
  if (ch.empty()) for (int i : order) if (s.th[i].ts == TS::Run && s.th[i].pend == P_YIELD) { ch.push_back({CH_RUN, i}); break; }
  if (ch.empty()) {
    bool mainDone = s.th[0].ts == TS::Done; (void)mainDone;
    if (s.cfg[C_ALLOWBLOCK]) { blockedEnds++; endPath(s); throw PathEnd(); }
    s.cur = 0; violation(s, "deadlock", "no thread can ever continue");
  }
  if (opt.dedup && s.multi) { if (!seen.insert(stateHash(s)).second) { merged++; throw PathEnd(); } }
  if (s.cfg[C_PREEMPT] && curEn && s.preempt >= s.cfg[C_PREEMPT] - 1) { ch.resize(1); }
  for (size_t i = 1; i < ch.size(); i++) { auto n = clone(s); schedForks++; if (curEn) n->preempt++; n->forced = true; n->fc = {ch[i].k, ch[i].t}; work.push_back(std::move(n)); }
  applyChoice(s, {ch[0].k, ch[0].t});
}

void Executor::applyChoice(State& s, Decision d) {
  int i = (int)d.v; Thread& t = s.th[i];
  if (d.k == CH_TIMEOUT) {
    bool due = deadlineLE(s, t.dl, s.now);
    if (!due) {
      s.now = t.dl;
      if (s.cfg[C_MAXLATE] && s.nameCnt["late"] < s.cfg[C_LATEN]) {
        Val j = symbolic(s, "late", 64, s.cfg[C_MAXLATE]); s.in.push_back({"late", {j.e}, {64}});
        s.now = fromE(mkBin(Op::Add, toE(s.now, 64), j.e));
      }
      s.timeouts++;
    }
    t.wres = 1;
  }
  d.op = t.pend; d.addr = t.paddr; s.dec.push_back(d);
  if (d.k == CH_RUN) { s.cur = i; if (t.pend == P_START) t.pend = P_NONE; else t.granted = true; return; }
  if (d.k == CH_SPUR) { s.spur++; t.wres = 0; }
  bool cond = t.ts == TS::WaitCond; t.ts = TS::Run; t.pend = cond ? P_RELOCK : P_WOKEN; t.paddr = t.wmutex; t.hasDl = false; if (!cond) t.paddr = 0; t.waddr = 0;
  needSched = true; s.forced = false;
}

bool Executor::invisibleAtomic(State& s, uint64_t addr) {
  Obj* o = find(s, addr); if (!o) return false;
  if (o->kind == KGlobal && o->name && (!strncmp(o->name, "_ZGV", 4))) return true;
  uint32_t off = (uint32_t)addr; bool vc = o->size >= 16; if (vc && !o->s.empty()) for (int i = 0; i < 8; i++) vc = vc && !o->s[i];
  if (vc && off >= 8 && off < 16) { uint64_t vp; memcpy(&vp, &o->b[0], 8); if (auto* g = gvAt(vp)) { StringRef n = g->getName(); if (n.starts_with("_ZTV") && (n.contains("_Sp_counted") )) return true; } }
  return false;
}

void Executor::atomicOp(State& s, Frame& fr, KInst& k) {
  unsigned pi = k.opc == Instruction::Store ? 1 : 0; uint64_t a = concretize(s, opv(fr, k, pi), 64);
  unsigned w = k.opc == Instruction::Load ? k.w : k.opc == Instruction::Store ? k.opw[0] : k.w; uint64_t n = (w + 7) / 8;
  Frame* f = &top(s); bool inv = invisibleAtomic(s, a);
  if (!inv && !s.th[s.cur].ghost && !grantOp(s, P_ATOMIC, a)) return;
  f = &top(s);
  checkRange(s, a, n, k.opc != Instruction::Load, "atomic access");
  if (s.multi && s.cfg[C_RACE]) {   // atomic access against earlier plain accesses
    Obj* o = find(s, a); Thread& t = s.th[s.cur]; uint64_t off = (uint32_t)a;
    if (o->sh && !o->norace && !t.ghost) for (uint64_t i = off; i < off + n; i++) { uint32_t wv = o->sh->w[i]; int wt = wv >> 24; if (wv && wt != s.cur && (wv & 0xffffff) > t.vc[wt]) violation(s, "race", "data race: atomic access after unordered plain write"); if (k.opc != Instruction::Load) for (int u = 0; u < (int)s.th.size(); u++) if (u != s.cur && o->sh->r[i * MAXT + u] > t.vc[u]) violation(s, "race", "data race: atomic write after unordered plain read"); }
  }
  Loc l; l.addr = a; Val old = load(s, l, 0, w);
  AtomicOrdering ord = AtomicOrdering::SequentiallyConsistent; VC& vc = s.avc[a];
  if (auto* i = dyn_cast<LoadInst>(k.I)) { ord = i->getOrdering(); if (isAcquireOrStronger(ord)) acq(s, vc); f->regs[k.dest] = old; f->ip++; return; }
  if (auto* i = dyn_cast<StoreInst>(k.I)) { ord = i->getOrdering(); if (isReleaseOrStronger(ord)) rel(s, vc, false); else vc = VC(); store(s, l, 0, w, opv(*f, k, 0)); f->ip++; return; }
  if (auto* i = dyn_cast<AtomicRMWInst>(k.I)) {
    Val v = opv(*f, k, 1), r; unsigned op = 0;
    switch (i->getOperation()) {
      case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: op = Instruction::Add; break; case AtomicRMWInst::Sub: op = Instruction::Sub; break; case AtomicRMWInst::And: op = Instruction::And; break; case AtomicRMWInst::Or: op = Instruction::Or; break; case AtomicRMWInst::Xor: op = Instruction::Xor; break;
      default: unsupported(s, "atomicrmw operation");
    }
    if (op) r = binop(s, op, w, old, v);
    ord = i->getOrdering(); if (isAcquireOrStronger(ord)) acq(s, vc); if (isReleaseOrStronger(ord)) rel(s, vc, true);
    store(s, l, 0, w, r); f->regs[k.dest] = old; f->ip++; return;
  }
  auto* cx = cast<AtomicCmpXchgInst>(k.I);
  Val eq = icmp(CmpInst::ICMP_EQ, w, old, opv(*f, k, 1)); bool hit; if (eq.e) { s.th[s.cur].granted = !inv && s.multi; hit = decide(s, eq.e); s.th[s.cur].granted = false; } else hit = eq.c;
  f = &top(s); ord = hit ? cx->getSuccessOrdering() : cx->getFailureOrdering(); VC& vc2 = s.avc[a]; if (isAcquireOrStronger(ord)) acq(s, vc2); if (hit) { if (isReleaseOrStronger(ord)) rel(s, vc2, true); store(s, l, 0, w, opv(*f, k, 2)); }
  f->regs[k.dest] = old; f->regs[k.dest + 1] = cv(hit); f->ip++;
}

// ---------------------------------------------------------------- exceptions
int Executor::typeId(const Value* ti) { auto it = tiId.find(ti); if (it != tiId.end()) return it->second; int n = tiId.size() + 1; tiId[ti] = n; return n; }
const GlobalVariable* Executor::gvAt(uint64_t a) { uint32_t id = a >> 32; if ((id >> 25) != 63) return nullptr; uint32_t i = id & ((1u << 25) - 1); return i < globals.size() ? globals[i] : nullptr; }

static std::string tiKind(const GlobalVariable* g) {
  if (!g || !g->hasInitializer()) return ""; auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return "";
  auto* v = dyn_cast<GlobalVariable>(cs->getOperand(0)->stripInBoundsConstantOffsets()); return v ? v->getName().str() : "";
}

// enumerate all sub-objects of type `want` inside an object of dynamic type `ti` at address obj
void Executor::findBases(State& s, const GlobalVariable* ti, uint64_t obj, const GlobalVariable* want, std::vector<uint64_t>& out, int depth) {
  if (ti == want || (ti && want && ti->getName() == want->getName())) { if (std::find(out.begin(), out.end(), obj) == out.end()) out.push_back(obj); return; }
  std::string k = tiKind(ti); if (depth > 30) return;
  auto* cs = ti && ti->hasInitializer() ? dyn_cast<ConstantStruct>(ti->getInitializer()) : nullptr; if (!cs) return;
  if (k.find("si_class_type_info") != std::string::npos && k.find("vmi") == std::string::npos) { findBases(s, dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()), obj, want, out, depth + 1); return; }
  if (k.find("vmi_class_type_info") == std::string::npos) return;
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
    auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()); int64_t fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue(); int64_t off = fl >> 8;
    if (fl & 1) { Obj* o = find(s, obj); uint64_t vp = readLeaf(o, (uint32_t)obj, 64).c; uint64_t va = vp + off; Obj* vo = find(s, va); if (!vo) return; off = (int64_t)readLeaf(vo, (uint32_t)va, 64).c; }
    findBases(s, b, obj + off, want, out, depth + 1);
  }
}

bool Executor::tiMatch(State& s, const GlobalVariable* thrown, const GlobalVariable* want, uint64_t obj, uint64_t& adj, int) {
  std::vector<uint64_t> r; findBases(s, thrown, obj, want, r, 0); if (r.size() != 1) return false; adj = r[0]; return true;
}

uint64_t Executor::dynCast(State& s, uint64_t obj, uint64_t, uint64_t dst) {
  Obj* o = find(s, obj); if (!o) violation(s, "memory", "dynamic_cast of an invalid object");
  uint64_t vp = readLeaf(o, (uint32_t)obj, 64).c; Obj* v = find(s, vp); if (!v || (uint32_t)vp < 16) violation(s, "memory", "dynamic_cast of an object without virtual table");
  int64_t ot = (int64_t)readLeaf(v, (uint32_t)vp - 16, 64).c; uint64_t ti = readLeaf(v, (uint32_t)vp - 8, 64).c;
  std::vector<uint64_t> r; findBases(s, gvAt(ti), obj + ot, gvAt(dst), r, 0); return r.size() == 1 ? r[0] : 0;
}

void Executor::unwind(State& s, uint64_t exc, bool resume) {
  auto& t = s.th[s.cur]; (void)resume;
  Obj* eo = find(s, exc); if (!eo) violation(s, "memory", "throwing an invalid exception object");
  const GlobalVariable* ty = gvAt(readLeaf(eo, (uint32_t)exc, 64).c); uint64_t objAddr = readLeaf(eo, (uint32_t)exc + 40, 64).c;
  int handler = -1, sel = 0; uint64_t adj = 0;
  auto pad = [&](int i) -> KInst* { Frame& f = *t.st[i]; KInst& k = f.f->bb[f.bb].in[f.ip]; if (k.opc != Instruction::Invoke) return nullptr; return &f.f->bb[k.tgt[1]].in[0]; };
  for (int i = (int)t.st.size() - 1; i >= 0 && handler < 0; i--) {
    KInst* p = pad(i); if (!p) continue; auto* lp = cast<LandingPadInst>(p->I);
    for (unsigned c = 0; c < lp->getNumClauses(); c++) {
      if (lp->isFilter(c)) { handler = i; sel = -1; break; }
      auto* want = dyn_cast<GlobalVariable>(lp->getClause(c)->stripPointerCasts());
      if (!want) { handler = i; sel = typeId(nullptr); adj = objAddr; break; }
      if (ty && tiMatch(s, ty, want, objAddr, adj)) { handler = i; sel = typeId(want); break; }
    }
  }
  std::string tn = ty ? ty->getName().str() : "?";
  if (handler < 0) violation(s, "exception", "uncaught exception of type " + tn + " terminates the program");
  while (true) {
    int i = (int)t.st.size() - 1; KInst* p = pad(i);
    if (p) {
      auto* lp = cast<LandingPadInst>(p->I);
      if (i == handler || lp->isCleanup()) {
        Frame& f = top(s); KInst& k = f.f->bb[f.bb].in[f.ip]; enterBlock(s, f, k.tgt[1]); KInst& L = f.f->bb[f.bb].in[0];
        f.regs[L.dest] = cv(exc); f.regs[L.dest + 1] = cv(i == handler ? (uint32_t)sel : 0); f.ip = 1;
        if (i == handler) writeLeaf(wobj(s, exc), (uint32_t)exc + 16, 64, cv(adj));
        if (s.scope) escape(s, t.st.size());
        if (s.scope) checkJoin(s, false);
        return;
      }
    }
    for (uint32_t a : t.st.back()->allocas) release(s, (uint64_t)a << 32);
    t.st.pop_back();
  }
}
}
