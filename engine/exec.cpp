// The interpreter loop: instructions, forking, reporting.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <stdexcept>
using namespace llvm;
namespace tcs {

double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int builtinId(const std::string& name);

Executor::Executor(Module& m, const Options& o) : M(m), DL(m.getDataLayout()), opt(o) {
  sol.timeoutMs = o.solverTimeout; sol.dumpDir = o.dumpDir;
  for (auto& F : M) { auto* k = new KFunc; k->F = &F; k->id = funcById.size(); funcById.push_back(k); kf[&F] = k; k->handler = builtinId(F.getName().str()); }
  int i = 0; for (auto& G : M.globals()) { gid[&G] = i++; globals.push_back(&G); }
}

// ---------------------------------------------------------------- states
std::unique_ptr<State> Executor::clone(State& s) { auto n = std::make_unique<State>(s); n->id = nextId++; forks++; return n; }

void Executor::addPC(State& s, E c) {
  if (isC(c)) return;
  if (c->op == Op::And) { addPC(s, c->k[0]); addPC(s, c->k[1]); s.pcset.insert(c); return; }
  if (s.pcset.insert(c).second) { s.pc.push_back(c); learn(s, c); }
}

void Executor::mergeModel(State& s, const Model& m) {
  Model n = s.model->m; for (auto& x : m.v) n.v[x.first] = x.second;
  s.model = std::make_shared<ModelCtx>(n);
}

bool Executor::decide(State& s, E c) {
  if (isC(c)) return c->lo & 1;
  c = simp(s, c); if (isC(c)) return c->lo & 1;
  if (s.pcset.count(c)) return true;
  E nc = mkNot(c); if (s.pcset.count(nc)) return false;
  bool mv = s.model->ev.eval(c) & 1; E taken = mv ? c : nc, other = mv ? nc : c;
  Model m; Res r = sol.check(s.pc, other, &m);
  if (r == Res::Unsat) { s.pcset.insert(taken); learn(s, taken); return mv; }
  if (r == Res::Sat) { if (opt.verbose) { std::string tr; where(s, &tr); forkSites[tr.substr(0, tr.find('\n'))]++; } auto n = clone(s); addPC(*n, other); mergeModel(*n, m); n->pcset.insert(other); if (n->scope) n->scope->pending++; work.push_back(std::move(n)); }
  else { incomplete = true; incompleteWhy = "solver gave no answer for a branch"; }
  addPC(s, taken); s.pcset.insert(taken); return mv;
}

uint64_t Executor::concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  E se = simp(s, v.e); if (isC(se)) return se->lo;
  uint64_t x = (uint64_t)s.model->ev.eval(v.e);
  if (!isC(v.e)) decide(s, mkCmp(Op::Eq, v.e, mkC128(w, (u128)x)));
  return x;
}

Val Executor::symbolic(State& s, const std::string& name, unsigned w, uint64_t umax) {
  int& n = s.nameCnt[name]; std::string full = name + "#" + std::to_string(n++);
  return {0, mkVar(full + ":" + std::to_string(w), w, umax)};
}

// ---------------------------------------------------------------- reporting
std::string Executor::where(State& s, std::string* trace) {
  std::string best, any; auto& t = s.th[s.cur];
  for (size_t i = t.st.size(); i-- > 0;) {
    Frame& f = *t.st[i]; KBlock& kb = f.f->bb[f.bb]; if (f.ip >= (int)kb.in.size()) continue;
    Instruction* I = kb.in[f.ip].I; std::string at = f.f->F->getName().str();
    if (auto& dl = I->getDebugLoc()) {
      const DILocation* L = dl.get();
      for (const DILocation* q = L; q; q = q->getInlinedAt()) {
        std::string d = q->getDirectory().str(), fn = q->getFilename().str(); std::string p = (!fn.empty() && fn[0] == '/') ? fn : d + "/" + fn;
        std::string e = p + ":" + std::to_string(q->getLine()); if (trace) { *trace += "    " + e + "  " + at + "\n"; }
        if (any.empty()) any = e;
        if (best.empty() && p.find("/repo/") != std::string::npos) best = e;
      }
    } else if (trace) *trace += "    ?  " + at + "\n";
  }
  return best.empty() ? any : best;
}

void Executor::writeWitness(State& s, const Model& m, const std::string& path, const std::string& kind, const std::string& msg) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) return;
  Evaluator ev(m);
  fprintf(f, "entry %s\nkind %s\n", opt.entry.c_str(), kind.c_str());
  std::string one = msg; for (auto& c : one) if (c == '\n') c = ' '; fprintf(f, "msg %s\n", one.c_str());
  for (auto& in : s.in) {
    fprintf(f, "in %s %zu", in.name.c_str(), in.vals.size());
    for (size_t i = 0; i < in.vals.size(); i++) { u128 v = ev.eval(in.vals[i]); fprintf(f, " %u:%llx", in.widths[i], (unsigned long long)(v & ~0ull)); }
    fprintf(f, "\n");
  }
  for (auto& d : s.dec) fprintf(f, "sched %c %lld # %d %llx\n", d.k, (long long)d.v, d.op, (unsigned long long)d.addr);
  if (!s.log.empty()) for (auto& l : s.log) fprintf(f, "log %s\n", l.c_str());
  std::string tr; std::string w = where(s, &tr); fprintf(f, "where %s\ntrace\n%s", w.c_str(), tr.c_str());
  if (s.th.size() > 1) for (auto& t : s.th) if (t.id != s.cur) { fprintf(f, "thread %d state %d pend %d\n", t.id, (int)t.ts, t.pend); int sv = s.cur; s.cur = t.id; std::string t2; if (!t.st.empty()) where(s, &t2); s.cur = sv; fprintf(f, "%s", t2.c_str()); }
  fclose(f);
}

void Executor::report(State& s, const std::string& kind, const std::string& msg, const Model* m) {
  std::string w = where(s); std::string key = kind + "|" + msg + "|" + w; if (!reported.insert(key).second) return;
  Model full; Res r = m ? Res::Sat : sol.fullModel(s.pc, full);
  if (m) full = *m; else if (r != Res::Sat) full = s.model->m;
  std::string p = opt.outDir + "/" + opt.entry + ".viol" + std::to_string(viol.size()) + ".txt";
  writeWitness(s, full, p, kind, msg); viol.push_back({kind, msg, w, p});
  if (opt.verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str());
}
void Executor::violation(State& s, const std::string& kind, const std::string& msg, const Model* m, bool) { report(s, kind, msg, m); throw PathEnd(); }
void Executor::unsupported(State& s, const std::string& what) { errs++; std::string tr; std::string w = where(s, &tr); if (opt.verbose && !errors.count(what + " at " + w)) fprintf(stderr, "UNSUPPORTED %s at %s\n%s", what.c_str(), w.c_str(), tr.c_str()); errors[what + " at " + w]++; incomplete = true; incompleteWhy = "unsupported: " + what; throw PathEnd(); }

void Executor::checkLeaks(State& s) {
  if (!s.cfg[C_LEAK]) return;
  for (int r = 1; r < 62; r++) for (auto& c : s.reg[r].d) for (int i = 0; i < 128; i++) { Obj* o = c->o[i].p; if (o && o->kind == KHeap && !(o->name && !strcmp(o->name, "static"))) { report(s, "leak", "heap block of " + std::to_string(o->size) + " bytes never released", nullptr); return; } }
}

void Executor::endPath(State& s) {
  paths++;
  if ((int)sampleFiles.size() < opt.samples && (paths & (paths - 1)) == 0) {
    Model full; if (sol.fullModel(s.pc, full) == Res::Sat) { std::string p = opt.outDir + "/" + opt.entry + ".pass" + std::to_string(sampleFiles.size()) + ".txt"; writeWitness(s, full, p, "pass", ""); sampleFiles.push_back(p); }
  }
}

// ---------------------------------------------------------------- arithmetic
static Op bop(unsigned opc) {
  switch (opc) { case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul; case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv; case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem; case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor; case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; default: return Op::AShr; }
}

Val Executor::binop(State& s, unsigned opc, unsigned w, const Val& a, const Val& b) {
  bool div = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem;
  if (div) {
    if (b.e) { if (decide(s, mkCmp(Op::Eq, b.e, mkC(w, 0)))) violation(s, "arithmetic", "division by zero"); }
    else if (!b.c) violation(s, "arithmetic", "division by zero");
    if ((opc == Instruction::SDiv || opc == Instruction::SRem) && w <= 64) {
      uint64_t mn = 1ull << (w - 1);
      if (!a.e && !b.e) { if (a.c == mn && b.c == maskw(w)) violation(s, "arithmetic", "signed division overflow"); }
      else if (b.e || b.c == maskw(w)) { E c = mkAnd(mkCmp(Op::Eq, toE(a, w), mkC(w, mn)), mkCmp(Op::Eq, toE(b, w), mkC(w, maskw(w)))); if (decide(s, c)) violation(s, "arithmetic", "signed division overflow"); }
    }
  }
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, m = maskw(w), r = 0;
    switch (opc) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break;
      case Instruction::SDiv: r = (uint64_t)(sxt(x, w) / sxt(y, w)); break; case Instruction::SRem: r = (uint64_t)(sxt(x, w) % sxt(y, w)); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: { int64_t sx = sxt(x, w); r = (uint64_t)(y >= w ? (sx < 0 ? -1 : 0) : sx >> y); break; }
    }
    return cv(r & m);
  }
  E r = mkBin(bop(opc), toE(a, w), toE(b, w)); return w <= 64 ? fromE(r) : Val{0, r};
}

Val Executor::icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = sxt(x, w), sy = sxt(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; }
    return cv(r);
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkCmp(Op::Eq, x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkCmp(Op::Eq, x, y)));
    case CmpInst::ICMP_UGT: return fromE(mkCmp(Op::Ult, y, x)); case CmpInst::ICMP_UGE: return fromE(mkCmp(Op::Ule, y, x)); case CmpInst::ICMP_ULT: return fromE(mkCmp(Op::Ult, x, y)); case CmpInst::ICMP_ULE: return fromE(mkCmp(Op::Ule, x, y));
    case CmpInst::ICMP_SGT: return fromE(mkCmp(Op::Slt, y, x)); case CmpInst::ICMP_SGE: return fromE(mkCmp(Op::Sle, y, x)); case CmpInst::ICMP_SLT: return fromE(mkCmp(Op::Slt, x, y)); default: return fromE(mkCmp(Op::Sle, x, y));
  }
}

Val Executor::fbin(unsigned opc, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e && w == 64) {
    double x, y, r = 0; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
    switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); }
    uint64_t c; memcpy(&c, &r, 8); return cv(c);
  }
  Op o = opc == Instruction::FAdd ? Op::FAdd : opc == Instruction::FSub ? Op::FSub : opc == Instruction::FMul ? Op::FMul : Op::FDiv;
  if (opc == Instruction::FRem) throw std::runtime_error("symbolic frem");
  E r = mkF2(o, toE(a, w), toE(b, w)); return w <= 64 ? fromE(r) : Val{0, r};
}

Val Executor::fcmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  E x = toE(a, w), y = toE(b, w); E un = mkFCmp(Op::FUno, x, y); E r = nullptr;
  switch (p) {
    case CmpInst::FCMP_FALSE: return cv(0); case CmpInst::FCMP_TRUE: return cv(1);
    case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_OEQ: r = mkFCmp(Op::FOeq, x, y); break; case CmpInst::FCMP_UNE: r = mkNot(mkFCmp(Op::FOeq, x, y)); break;
    case CmpInst::FCMP_OLT: r = mkFCmp(Op::FOlt, x, y); break; case CmpInst::FCMP_OLE: r = mkFCmp(Op::FOle, x, y); break;
    case CmpInst::FCMP_OGT: r = mkFCmp(Op::FOlt, y, x); break; case CmpInst::FCMP_OGE: r = mkFCmp(Op::FOle, y, x); break;
    case CmpInst::FCMP_UGE: r = mkNot(mkFCmp(Op::FOlt, x, y)); break; case CmpInst::FCMP_UGT: r = mkNot(mkFCmp(Op::FOle, x, y)); break;
    case CmpInst::FCMP_ULE: r = mkNot(mkFCmp(Op::FOlt, y, x)); break; case CmpInst::FCMP_ULT: r = mkNot(mkFCmp(Op::FOle, y, x)); break;
    case CmpInst::FCMP_ONE: r = mkOr(mkFCmp(Op::FOlt, x, y), mkFCmp(Op::FOlt, y, x)); break;
    case CmpInst::FCMP_UEQ: r = mkNot(mkOr(mkFCmp(Op::FOlt, x, y), mkFCmp(Op::FOlt, y, x))); break;
  }
  return fromE(r);
}

Val Executor::castop(State& s, unsigned opc, unsigned wf, unsigned wt, const Val& a, Type*, Type*) {
  auto F = [](E e) { return e->width <= 64 ? fromE(e) : Val{0, e}; };
  switch (opc) {
    case Instruction::Trunc: if (!a.e) return cv(a.c & maskw(wt)); return F(mkExtract(a.e, 0, wt));
    case Instruction::ZExt: if (!a.e && wt <= 64) return a; return F(mkZExt(toE(a, wf), wt));
    case Instruction::SExt: if (!a.e && wt <= 64) return cv((uint64_t)sxt(a.c, wf) & maskw(wt)); return F(mkSExt(toE(a, wf), wt));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (wf == wt) return a; if (wf > wt) { if (!a.e) return cv(a.c & maskw(wt)); return F(mkExtract(a.e, 0, wt)); } return F(mkZExt(toE(a, wf), wt));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPToSI: return F(mkFCast(Op::FToSI, toE(a, wf), wt)); case Instruction::FPToUI: return F(mkFCast(Op::FToUI, toE(a, wf), wt));
    case Instruction::SIToFP: return F(mkFCast(Op::SIToF, toE(a, wf), wt));
    case Instruction::UIToFP: return F(mkFCast(Op::SIToF, mkZExt(toE(a, wf), wf >= 128 ? 128 : wf + 1), wt));
    case Instruction::FPExt: case Instruction::FPTrunc: return F(mkFCast(Op::FCvt, toE(a, wf), wt));
  }
  unsupported(s, "cast");
}

// ---------------------------------------------------------------- control flow
void Executor::enterBlock(State& s, Frame& f, int to) {
  KBlock& kb = f.f->bb[to]; int from = f.bb;
  if (!kb.phi.empty()) {
    std::vector<Val> tmp;
    for (auto& p : kb.phi) { int sl = p.from.at(from); for (unsigned j = 0; j < p.nd; j++) tmp.push_back(sl >= 0 ? f.regs[sl + j] : f.f->consts[~sl + j]); }
    size_t k = 0; for (auto& p : kb.phi) for (unsigned j = 0; j < p.nd; j++) f.regs[p.dest + j] = tmp[k++];
  }
  f.prev = from; f.bb = to; f.ip = 0;
}

void Executor::pushFrame(State& s, KFunc* f, KInst* ki, std::vector<Val>&& args, std::vector<unsigned>&& argn) {
  decode(f); f->calls++;
  auto& t = s.th[s.cur]; if (t.st.size() > 400) violation(s, "recursion", "stack overflow");
  auto fr = std::make_shared<Frame>(); fr->f = f; fr->regs.resize(f->slots);
  size_t pos = 0, i = 0;
  for (; i < f->argSlot.size() && i < argn.size(); i++) {
    Argument* A = f->F->getArg(i);
    if (A->hasByValAttr()) {
      uint64_t sz = DL.getTypeAllocSize(A->getParamByValType()); uint64_t src = concretize(s, args[pos], 64); checkRange(s, src, sz, false, "argument copy");
      uint64_t d = alloc(s, s.cur + 16, sz, KStack, 0, nullptr); Obj* so = find(s, src); Obj* dn = wobj(s, d); for (uint64_t b = 0; b < sz; b++) setByte(dn, b, byteAt(so, (src & 0xffffffffu) + b));
      fr->allocas.push_back(d >> 32); fr->regs[f->argSlot[i]] = cv(d);
    } else for (unsigned j = 0; j < argn[i]; j++) fr->regs[f->argSlot[i] + j] = args[pos + j];
    pos += argn[i];
  }
  if (f->F->isVarArg() && i < argn.size()) {
    std::vector<std::pair<Val, unsigned>> ex; size_t p = pos;
    CallBase* cb = ki ? cast<CallBase>(ki->I) : nullptr; uint64_t size = 0;
    for (size_t q = i; q < argn.size(); q++) { unsigned w = ki ? ki->opw[q] : 64; ex.push_back({args[p], w}); p += argn[q]; size += w > 64 ? 16 : 8; (void)cb; }
    uint64_t a = alloc(s, s.cur + 16, size, KStack, 0, "varargs"); Obj* o = wobj(s, a); uint64_t off = 0;
    for (auto& x : ex) { if (x.second > 64) off = (off + 15) & ~15ull; if (off + 16 > o->size && x.second > 64) break; writeLeaf(o, off, x.second, x.first); off += x.second > 64 ? 16 : 8; }
    fr->allocas.push_back(a >> 32); fr->va = a;
  }
  t.st.push_back(fr);
}

void Executor::afterCall(State& s, KInst& ki) {
  Frame& fr = top(s);
  if (ki.opc == Instruction::Invoke) enterBlock(s, fr, ki.tgt[0]); else fr.ip++;
}

void Executor::doRet(State& s, std::vector<Val>&& v) {
  auto& t = s.th[s.cur];
  { auto& f = t.st.back(); for (uint32_t a : f->allocas) release(s, (uint64_t)a << 32); }
  t.st.pop_back();
  if (t.st.empty()) {
    t.ts = TS::Done; t.pend = P_NONE;
    if (s.cur == 0) { checkLeaks(s); endPath(s); throw PathEnd(); }
    needSched = true; return;
  }
  Frame& fr = top(s); KInst& ki = fr.f->bb[fr.bb].in[fr.ip];
  if (ki.dest >= 0) for (size_t i = 0; i < v.size() && i < ki.nd; i++) fr.regs[ki.dest + i] = v[i];
  afterCall(s, ki);
  if (s.scope) checkJoin(s, true);
}

void Executor::doCall(State& s, Frame& fr, KInst& ki) {
  if (ki.handler == -2) {   // inline assembly: only empty barriers
    auto* ia = cast<InlineAsm>(cast<CallBase>(ki.I)->getCalledOperand()); if (ia->getAsmString().empty() || ia->getAsmString() == "pause") { afterCall(s, ki); return; }
    unsupported(s, "inline assembly");
  }
  KFunc* f = ki.callee; size_t na = cast<CallBase>(ki.I)->arg_size();
  if (!f) {
    uint64_t a = concretize(s, opv(fr, ki, na), 64); uint32_t id = a >> 32;
    if ((id >> 25) != 62 || (a & 0xffffffffu) || (id & ((1u << 25) - 1)) >= funcById.size()) violation(s, "memory", "call through invalid function pointer");
    f = funcById[id & ((1u << 25) - 1)];
  }
  if (f->F->isIntrinsic()) { intrinsic(s, fr, ki); return; }
  std::vector<Val> args; std::vector<unsigned> argn, argw;
  for (size_t i = 0; i < na; i++) { for (unsigned j = 0; j < ki.opn[i]; j++) args.push_back(opv(fr, ki, i, j)); argn.push_back(ki.opn[i]); argw.push_back(ki.opw[i]); }
  if (f->handler >= 0) { if (builtin(s, fr, ki, f->handler, args, argw)) return; }
  if (f->F->isDeclaration()) unsupported(s, "call to external function " + f->F->getName().str());
  pushFrame(s, f, &ki, std::move(args), std::move(argn));
}

// Executes one instruction; results equal to the left side of a proven lemma are replaced by its right side.
void Executor::step(State& s) {
  if (s.lem.empty()) { step1(s); return; }
  Frame& fr = top(s); KInst& k = fr.f->bb[fr.bb].in[fr.ip]; const int cur = s.cur; const size_t depth = s.th[cur].st.size();
  step1(s);
  if (k.dest < 0 || s.cur != cur || s.th[cur].st.size() != depth) return;
  Frame& g = top(s); for (unsigned j = 0; j < k.nd; j++) { Val& v = g.regs[k.dest + j]; if (!v.e) continue; auto q = s.lem.find(v.e); if (q != s.lem.end()) v = fromE(q->second); }
}
void Executor::step1(State& s) {
  Frame& fr = top(s); KBlock& kb = fr.f->bb[fr.bb]; KInst& k = kb.in[fr.ip];
  s.steps++; steps++;
  switch (k.opc) {
    case Instruction::Br:
      if (k.tgt.size() == 1) { enterBlock(s, fr, k.tgt[0]); if (s.scope) checkJoin(s, false); return; }
      else {
        size_t w0 = work.size(); KFunc* kf0 = fr.f; int b0 = fr.bb; bool c = decideV(s, opv(fr, k, 0)); State* twin = work.size() > w0 ? work.back().get() : nullptr;
        if (twin && !s.multi && (!s.cfg.count(C_MERGE) || s.cfg.at(C_MERGE) >= 0)) {
          joins(kf0);
          if (kf0->join[b0] != -2) {
            auto sc = std::make_shared<Scope>(); sc->up = s.scope; sc->tid = s.cur; sc->depth = s.th[s.cur].st.size(); sc->f = kf0; sc->J = kf0->join[b0]; sc->loopEdge = kf0->joinLoop[b0]; sc->inLoop = kf0->joinIn[b0].get(); sc->pending = 2;
            if (sc->up) sc->up->pending--;          // two states of the enclosing scope become one unit
            s.scope = sc; twin->scope = sc;
          }
        }
        enterBlock(s, top(s), k.tgt[c ? 0 : 1]);
      }
      if (s.scope) checkJoin(s, false);
      return;
    case Instruction::Switch: {
      Val v = opv(fr, k, 0); unsigned w = k.opw[0]; int to = k.tgt[0];
      if (!v.e) { for (size_t i = 1; i < k.tgt.size(); i++) if (fr.f->consts[~k.ops[i]].c == v.c) { to = k.tgt[i]; break; } }
      else {
        uint64_t x = (uint64_t)s.model->ev.eval(v.e); for (size_t i = 1; i < k.tgt.size(); i++) if (fr.f->consts[~k.ops[i]].c == x) { to = k.tgt[i]; break; }
        E hit = mkFalse(), oth = mkFalse();
        for (size_t i = 1; i < k.tgt.size(); i++) { E q = mkCmp(Op::Eq, v.e, mkC(w, fr.f->consts[~k.ops[i]].c)); if (k.tgt[i] == to) hit = mkOr(hit, q); else oth = mkOr(oth, q); }
        E c = to == k.tgt[0] ? mkNot(oth) : hit; decide(s, c);
      }
      enterBlock(s, top(s), to); if (s.scope) checkJoin(s, false); return;
    }
    case Instruction::Ret: { std::vector<Val> v; if (!k.ops.empty()) for (unsigned j = 0; j < k.opn[0]; j++) v.push_back(opv(fr, k, 0, j)); doRet(s, std::move(v)); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, fr, k); return;
    case Instruction::Unreachable: violation(s, "unreachable", "executed unreachable code (undefined behaviour)");
    case Instruction::Resume: { uint64_t e = concretize(s, opv(fr, k, 0, 0), 64); unwind(s, e, true); return; }
    case Instruction::Alloca: {
      uint64_t n = concretize(s, opv(fr, k, 0), k.opw[0]); Frame& f2 = top(s);
      uint64_t a = alloc(s, s.cur + 16, k.size * n, KStack, opt.fill, nullptr); f2.allocas.push_back(a >> 32); f2.regs[k.dest] = cv(a); f2.ip++; return;
    }
    case Instruction::Load: {
      auto* ld = cast<LoadInst>(k.I); Val a = opv(fr, k, 0);
      if (ld->isAtomic()) { atomicOp(s, fr, k); return; }
      if (k.size == 0) { fr.ip++; return; }
      Loc l = resolve(s, a, k.size, false, "read"); Frame& f2 = top(s);
      for (size_t i = 0; i < k.lay.size(); i++) f2.regs[k.dest + i] = load(s, l, k.lay[i].first, k.lay[i].second);
      f2.ip++; return;
    }
    case Instruction::Store: {
      auto* st = cast<StoreInst>(k.I); Val a = opv(fr, k, 1);
      if (st->isAtomic()) { atomicOp(s, fr, k); return; }
      if (k.size == 0) { fr.ip++; return; }
      Loc l = resolve(s, a, k.size, true, "write"); Frame& f2 = top(s);
      for (size_t i = 0; i < k.lay.size(); i++) store(s, l, k.lay[i].first, k.lay[i].second, opv(f2, k, 0, i));
      f2.ip++; return;
    }
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: atomicOp(s, fr, k); return;
    case Instruction::Fence: fr.ip++; return;
    case Instruction::GetElementPtr: {
      Val b = opv(fr, k, 0); bool conc = !b.e; for (auto& g : k.gep) if (opv(fr, k, g.op).e) conc = false;
      if (conc) { uint64_t r = b.c + k.coff; for (auto& g : k.gep) r += (uint64_t)sxt(opv(fr, k, g.op).c, g.w) * (uint64_t)g.scale; fr.regs[k.dest] = cv(r); }
      else {
        E r = mkBin(Op::Add, toE(b, 64), mkC(64, k.coff));
        for (auto& g : k.gep) { E i = toE(opv(fr, k, g.op), g.w); i = g.w < 64 ? mkSExt(i, 64) : g.w > 64 ? mkExtract(i, 0, 64) : i; r = mkBin(Op::Add, r, mkBin(Op::Mul, i, mkC(64, g.scale))); }
        fr.regs[k.dest] = fromE(r);
      }
      fr.ip++; return;
    }
    case Instruction::ICmp: for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = icmp(k.pred, k.opw[0], opv(fr, k, 0, j), opv(fr, k, 1, j)); fr.ip++; return;
    case Instruction::FCmp: for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = fcmp(k.pred, k.opw[0], opv(fr, k, 0, j), opv(fr, k, 1, j)); fr.ip++; return;
    case Instruction::FNeg: for (unsigned j = 0; j < k.nd; j++) { E r = mkF1(Op::FNeg, toE(opv(fr, k, 0, j), k.w)); fr.regs[k.dest + j] = k.w <= 64 ? fromE(r) : Val{0, r}; } fr.ip++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      try { for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = fbin(k.opc, k.w, opv(fr, k, 0, j), opv(fr, k, 1, j)); } catch (std::runtime_error& e) { unsupported(s, e.what()); }
      fr.ip++; return;
    case Instruction::Select: {
      Val c = opv(fr, k, 0);
      for (unsigned j = 0; j < k.nd; j++) {
        Val cc = k.opn[0] == 1 ? c : opv(fr, k, 0, j); Val a = opv(fr, k, 1, j), b = opv(fr, k, 2, j);
        if (!cc.e) fr.regs[k.dest + j] = (cc.c & 1) ? a : b;
        else { unsigned w = k.w; std::vector<std::pair<uint32_t, unsigned>> l; if (k.nd > 1) { leaves(k.I->getType(), 0, l); w = l[j].second; } E r = mkIte(cc.e, toE(a, w), toE(b, w)); fr.regs[k.dest + j] = w <= 64 ? fromE(r) : Val{0, r}; }
      }
      fr.ip++; return;
    }
    case Instruction::Freeze: for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = opv(fr, k, 0, j); fr.ip++; return;
    case Instruction::ExtractValue: for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = opv(fr, k, 0, k.xoff + j); fr.ip++; return;
    case Instruction::InsertValue: { std::vector<Val> t; for (unsigned j = 0; j < k.nd; j++) t.push_back(opv(fr, k, 0, j)); for (unsigned j = 0; j < k.opn[1]; j++) t[k.xoff + j] = opv(fr, k, 1, j); for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = t[j]; fr.ip++; return; }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, opv(fr, k, 1), k.opw[1]); Frame& f2 = top(s); if (i >= k.opn[0]) unsupported(s, "extractelement index"); f2.regs[k.dest] = opv(f2, k, 0, i); f2.ip++; return; }
    case Instruction::InsertElement: { uint64_t i = concretize(s, opv(fr, k, 2), k.opw[2]); Frame& f2 = top(s); std::vector<Val> t; for (unsigned j = 0; j < k.nd; j++) t.push_back(opv(f2, k, 0, j)); if (i >= t.size()) unsupported(s, "insertelement index"); t[i] = opv(f2, k, 1); for (unsigned j = 0; j < k.nd; j++) f2.regs[k.dest + j] = t[j]; f2.ip++; return; }
    case Instruction::ShuffleVector: { std::vector<Val> t; unsigned n = k.opn[0]; for (int m : k.tgt) t.push_back(m < 0 ? cv(0) : m < (int)n ? opv(fr, k, 0, m) : opv(fr, k, 1, m - n)); for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = t[j]; fr.ip++; return; }
    case Instruction::BitCast: {
      if (k.opn[0] == k.nd) { for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = opv(fr, k, 0, j); fr.ip++; return; }
      E all = nullptr; for (unsigned j = 0; j < k.opn[0]; j++) { E e = toE(opv(fr, k, 0, j), k.w); all = all ? mkConcat(e, all) : e; }
      for (unsigned j = 0; j < k.nd; j++) { E e = mkExtract(all, j * k.w2, k.w2); fr.regs[k.dest + j] = k.w2 <= 64 ? fromE(e) : Val{0, e}; }
      fr.ip++; return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
      for (unsigned j = 0; j < k.nd; j++) fr.regs[k.dest + j] = castop(s, k.opc, k.w, k.w2, opv(fr, k, 0, j), nullptr, nullptr);
      fr.ip++; return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (k.nd == 1) { Val r = binop(s, k.opc, k.w, opv(fr, k, 0), opv(fr, k, 1)); Frame& f2 = top(s); f2.regs[k.dest] = r; f2.ip++; return; }
      std::vector<Val> t; for (unsigned j = 0; j < k.nd; j++) t.push_back(binop(s, k.opc, k.w, opv(fr, k, 0, j), opv(fr, k, 1, j)));
      Frame& f2 = top(s); for (unsigned j = 0; j < k.nd; j++) f2.regs[k.dest + j] = t[j]; f2.ip++; return;
    }
    case Instruction::VAArg: default: unsupported(s, std::string("instruction ") + k.I->getOpcodeName());
  }
}

void Executor::runState(std::unique_ptr<State> sp) {
  State& s = *sp;
  try {
    if (s.forced) { Decision d = s.fc; applyChoice(s, d); s.forced = false; }
    needSched = s.th[s.cur].ts != TS::Run || (s.th[s.cur].pend && !s.th[s.cur].granted);
    unsigned tick = 0;
    for (;;) {
      if (needSched) { needSched = false; schedule(s); continue; }
      step(s);
      if ((++tick & 0xfff) == 0) {
        if (opt.maxTime && nowS() - t0 > opt.maxTime) { incomplete = true; incompleteWhy = "time limit"; throw PathEnd(); }
        if (s.steps > opt.maxSteps) violation(s, "nontermination", "no end within the step limit");
      }
    }
  } catch (PathEnd&) { if (sp->scope) { auto sc = sp->scope; sp->scope.reset(); sp.reset(); leaveScope(sc); } }
  catch (Parked&) { park(std::move(sp)); }
}

void Executor::run() {
  t0 = nowS();
  auto s = std::make_unique<State>(); s->id = nextId++; s->model = std::make_shared<ModelCtx>(Model());
  s->cfg = opt.cfg; s->th.emplace_back(); s->th[0].id = 0; s->th[0].vc[0] = 1; s->now = cv(1000000000ull * 1000);
  for (size_t i = 0; i < funcById.size(); i++) { Region& R = s->reg[62]; uint64_t a = alloc(*s, 62, 0, KFunction, 0, nullptr); (void)a; (void)R; }
  for (size_t i = 0; i < globals.size(); i++) {
    auto* g = globals[i]; uint64_t sz = 64; if (g->getValueType()->isSized()) sz = DL.getTypeAllocSize(g->getValueType()); if (g->isDeclaration() && sz < 64) sz = 64;
    std::string* nm = new std::string(g->getName().str()); alloc(*s, 63, sz, KGlobal, 0, nm->c_str());
  }
  for (size_t i = 0; i < globals.size(); i++) { auto* g = globals[i]; if (!g->hasInitializer() || g->getName().starts_with("llvm.")) continue; Obj* o = wobj(*s, (uint64_t)((63u << 25) | i) << 32); initGlobal(*s, o, 0, g->getInitializer()); o->ro = g->isConstant(); }
  // type descriptions that live in the C++ runtime library: their name is the rest of the symbol
  for (size_t i = 0; i < globals.size(); i++) {
    auto* g = globals[i]; if (!g->isDeclaration() || !g->getName().starts_with("_ZTI")) continue;
    std::string n = g->getName().substr(4).str(); uint64_t at = alloc(*s, 63, n.size() + 1, KGlobal, 0, "type name");
    Obj* t = wobj(*s, at); memcpy(&t->b[0], n.c_str(), n.size() + 1); t->ro = true;
    Obj* o = wobj(*s, (uint64_t)((63u << 25) | i) << 32); writeLeaf(o, 8, 64, cv(at));
  }
  std::vector<std::pair<int, Function*>> ctors; 
  if (auto* gc = M.getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* ef = M.getFunction(opt.entry); if (!ef) throw std::runtime_error("entry function not found: " + opt.entry);
  // Stack: the entry below, the constructors above it (last pushed runs first)
  pushFrame(*s, kf[ef], nullptr, {}, {});
  // a constructor returning pops to the frame below, whose instruction must not be advanced: run them one by one
  auto entryFrame = s->th[0].st; s->th[0].st.clear(); size_t before = 0; (void)before;
  for (auto& c : ctors) {
    pushFrame(*s, kf[c.second], nullptr, {}, {});
    try { while (!s->th[0].st.empty()) { if (s->th[0].st.size() == 1) { Frame& f = top(*s); if (f.f->bb[f.bb].in[f.ip].opc == Instruction::Ret) { for (uint32_t a : f.allocas) release(*s, (uint64_t)a << 32); s->th[0].st.clear(); break; } } step(*s); } } catch (PathEnd&) { throw std::runtime_error("global constructor failed: " + c.second->getName().str() + (errors.empty() ? "" : " " + errors.begin()->first)); }
    if (!work.empty()) throw std::runtime_error("global constructor forked");
  }
  s->th[0].st = entryFrame; s->steps = 0;
  for (int r = 1; r < 62; r++) for (auto& c : s->reg[r].d) for (int i = 0; i < 128; i++) if (c->o[i]) c->o[i]->name = "static";
  for (auto* f : funcById) f->calls = 0;
  kf[ef]->calls = 1;
  work.push_back(std::move(s));
  while (!work.empty()) {
    maxQueue = std::max<uint64_t>(maxQueue, work.size());
    auto st = std::move(work.back()); work.pop_back();
    runState(std::move(st));
    if ((int)viol.size() >= opt.maxViol) break;
    if (opt.maxTime && nowS() - t0 > opt.maxTime) { incomplete = true; incompleteWhy = "time limit"; break; }
    if (opt.maxPaths && paths >= opt.maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
  }
  wall = nowS() - t0;
  if (opt.verbose) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& x : forkSites) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 20; i++) fprintf(stderr, "forks %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
}

static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

std::string Executor::resultJson() {
  std::string o = "{\n"; char buf[512];
  o += "\"entry\":" + jstr(opt.entry) + ",\n";
  snprintf(buf, sizeof buf, "\"paths\":%llu,\"forks\":%llu,\"schedule_forks\":%llu,\"merged\":%llu,\"joined\":%llu,\"join_failed\":%llu,\"steps\":%llu,\"asserts\":%llu,\"assumed_away\":%llu,\"blocked_ends\":%llu,\"wall\":%.3f,\n", (unsigned long long)paths, (unsigned long long)forks, (unsigned long long)schedForks, (unsigned long long)merged, (unsigned long long)joined, (unsigned long long)joinFail, (unsigned long long)steps, (unsigned long long)asserts, (unsigned long long)assumedAway, (unsigned long long)blockedEnds, wall); o += buf;
  snprintf(buf, sizeof buf, "\"queries\":%llu,\"z3_calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"int_queries\":%llu,\"solver_time\":%.3f,\"solver_max\":%.3f,\n", (unsigned long long)sol.st.queries, (unsigned long long)sol.st.z3, (unsigned long long)sol.st.sat, (unsigned long long)sol.st.unsat, (unsigned long long)sol.st.unknown, (unsigned long long)sol.st.cacheHits, (unsigned long long)sol.st.modelHits, (unsigned long long)sol.st.intQueries, sol.st.z3Time, sol.st.maxTime); o += buf;
  o += std::string("\"incomplete\":") + (incomplete ? "true" : "false") + ",\"incomplete_why\":" + jstr(incompleteWhy) + ",\n";
  o += "\"violations\":["; for (size_t i = 0; i < viol.size(); i++) o += std::string(i ? "," : "") + "{\"kind\":" + jstr(viol[i].kind) + ",\"msg\":" + jstr(viol[i].msg) + ",\"where\":" + jstr(viol[i].where) + ",\"file\":" + jstr(viol[i].file) + "}"; o += "],\n";
  o += "\"errors\":["; bool first = true; for (auto& e : errors) { o += std::string(first ? "" : ",") + jstr(e.first); first = false; } o += "],\n";
  o += "\"covers\":{"; first = true; for (auto& e : covers) { o += std::string(first ? "" : ",") + jstr(e.first) + ":" + std::to_string(e.second); first = false; } o += "},\n";
  o += "\"assert_msgs\":["; first = true; for (auto& e : assertMsgs) { o += std::string(first ? "" : ",") + jstr(e); first = false; } o += "],\n";
  o += "\"samples\":["; first = true; for (auto& e : sampleFiles) { o += std::string(first ? "" : ",") + jstr(e); first = false; } o += "],\n";
  o += "\"functions\":["; first = true; for (auto* f : funcById) if (f->calls && f->file.find("/repo/") != std::string::npos) { o += std::string(first ? "" : ",") + "{\"f\":" + jstr(f->F->getName().str()) + ",\"file\":" + jstr(f->file) + ",\"n\":" + std::to_string(f->ninst) + "}"; first = false; } o += "]\n}\n";
  return o;
}
}
