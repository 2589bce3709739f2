// Decoding of LLVM functions into flat register form; constants; global initialisers; liveness.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/ADT/APInt.h>
#include <cstdio>
#include <stdexcept>
using namespace llvm;
namespace tcs {

unsigned scalarW(const DataLayout& DL, Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  std::string s; raw_string_ostream os(s); t->print(os);
  throw std::runtime_error("unsupported scalar type " + s);
}

void Executor::leaves(Type* t, uint64_t off, std::vector<std::pair<uint32_t, unsigned>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL.getTypeSizeInBits(vt->getElementType()) / 8; if (!es) es = 1; for (uint64_t i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + i * es, out); return; }
  if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
  out.push_back({(uint32_t)off, scalarW(DL, t)});
}

static Val fromAP(const APInt& a) {
  unsigned w = a.getBitWidth();
  if (w <= 64) return cv(a.getZExtValue());
  if (w > 128) throw std::runtime_error("integer constant wider than 128 bits");
  u128 v = ((u128)a.getRawData()[1] << 64) | a.getRawData()[0];
  return {0, mkC128(w, v)};
}
static uint64_t lowC(const Val& v) { return v.e ? v.e->lo : v.c; }

uint64_t Executor::constAddr(Constant* c) { std::vector<Val> v; constLeaves(c, v); return lowC(v.at(0)); }

void Executor::constLeaves(Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(fromAP(ci->getValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(fromAP(cf->getValueAPF().bitcastToAPInt())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
  if (auto* f = dyn_cast<Function>(c)) { auto it = kf.find(f); if (it == kf.end()) throw std::runtime_error("unknown function"); out.push_back(cv(((uint64_t)((62u << 25) | it->second->id)) << 32)); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(cv(((uint64_t)((63u << 25) | gid.at(g))) << 32)); return; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) { constLeaves(a->getAliasee(), out); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<std::pair<uint32_t, unsigned>> l; leaves(t, 0, l);
    for (auto& p : l) out.push_back(p.second > 64 ? Val{0, mkC128(p.second, 0)} : cv(0)); return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constLeaves(ca->getOperand(i), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantTokenNone>(c)) return;
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce); APInt off(64, 0); if (!gep->accumulateConstantOffset(DL, off)) throw std::runtime_error("constant gep");
        out.push_back(cv(constAddr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue())); return;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { uint64_t v = constAddr(ce->getOperand(0)); out.push_back(cv(v & maskw(scalarW(DL, t)))); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: constLeaves(ce->getOperand(0), out); return;
      case Instruction::Add: out.push_back(cv((constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1))) & maskw(scalarW(DL, t)))); return;
      case Instruction::Sub: out.push_back(cv((constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & maskw(scalarW(DL, t)))); return;
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw std::runtime_error("unsupported constant " + s);
}

int Executor::operand(KFunc* f, Value* v, std::unordered_map<const Value*, int>& slot) {
  auto it = slot.find(v); if (it != slot.end()) return it->second;
  if (auto* c = dyn_cast<Constant>(v)) { int idx = (int)f->consts.size(); constLeaves(c, f->consts); slot[v] = ~idx; return ~idx; }
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return ~0;
  throw std::runtime_error("operand without slot");
}

void Executor::decode(KFunc* f) {
  if (f->decoded) return;
  f->decoded = true;
  Function* F = f->F; std::unordered_map<const Value*, int> slot; std::map<BasicBlock*, int> bid;
  f->consts.push_back(cv(0));
  auto nl = [&](Type* t) { std::vector<std::pair<uint32_t, unsigned>> l; leaves(t, 0, l); return (unsigned)l.size(); };
  for (auto& a : F->args()) { unsigned n = nl(a.getType()); f->argSlot.push_back(f->slots); f->argN.push_back(n); slot[&a] = f->slots; f->slots += n; }
  int b = 0; for (auto& B : *F) bid[&B] = b++;
  for (auto& B : *F) for (auto& I : B) { if (I.getType()->isVoidTy()) continue; unsigned n = nl(I.getType()); slot[&I] = f->slots; f->slots += n; }
  f->slotW.assign(f->slots, 64);
  auto widths = [&](Value* v) { std::vector<std::pair<uint32_t, unsigned>> l; leaves(v->getType(), 0, l); for (size_t i = 0; i < l.size(); i++) f->slotW[slot[v] + i] = l[i].second; };
  for (auto& a : F->args()) widths(&a);
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) widths(&I);
  f->bb.resize(b);
  for (auto& B : *F) {
    KBlock& kb = f->bb[bid[&B]]; kb.B = &B;
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) { KPhi p; p.dest = slot[P]; p.nd = nl(P->getType()); for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.from[bid[P->getIncomingBlock(i)]] = operand(f, P->getIncomingValue(i), slot); kb.phi.push_back(p); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: continue;
        default: break;
      }
      f->ninst++;
      KInst k; k.I = &I; k.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) { k.dest = slot[&I]; k.nd = nl(I.getType()); }
      auto addOp = [&](Value* v) { k.ops.push_back(operand(f, v, slot)); std::vector<std::pair<uint32_t, unsigned>> l; if (!v->getType()->isMetadataTy() && !v->getType()->isLabelTy()) leaves(v->getType(), 0, l); k.opn.push_back(l.size()); k.opw.push_back(l.empty() ? 0 : l[0].second); };
      auto firstW = [&](Type* t) { std::vector<std::pair<uint32_t, unsigned>> l; leaves(t, 0, l); return l.empty() ? 0u : l[0].second; };
      if (k.nd) k.w = firstW(I.getType());
      if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) addOp(br->getCondition()); for (unsigned i = 0; i < br->getNumSuccessors(); i++) k.tgt.push_back(bid[br->getSuccessor(i)]); }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { addOp(sw->getCondition()); k.tgt.push_back(bid[sw->getDefaultDest()]); for (auto c : sw->cases()) { k.tgt.push_back(bid[c.getCaseSuccessor()]); k.ops.push_back(operand(f, c.getCaseValue(), slot)); } }
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) addOp(a.get());
        if (!isa<InlineAsm>(cb->getCalledOperand())) addOp(cb->getCalledOperand()); else k.handler = -2;
        Value* cal = cb->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliaseeObject();
        if (auto* cf = dyn_cast<Function>(cal)) { auto it = kf.find(cf); if (it != kf.end()) k.callee = it->second; }
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { k.tgt.push_back(bid[inv->getNormalDest()]); k.tgt.push_back(bid[inv->getUnwindDest()]); }
      }
      else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        if (gep->getType()->isVectorTy()) throw std::runtime_error("vector gep");
        addOp(gep->getPointerOperand());
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          Value* ix = gi.getOperand();
          if (auto* st = gi.getStructTypeOrNull()) { k.coff += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t es = DL.getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { k.coff += es * ci->getSExtValue(); continue; }
          addOp(ix); k.gep.push_back({(int)k.ops.size() - 1, es, k.opw.back()});
        }
      }
      else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { addOp(ev->getAggregateOperand()); Type* t = ev->getAggregateOperand()->getType(); for (unsigned i : ev->indices()) { for (unsigned j = 0; j < i; j++) k.xoff += nl(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); } }
      else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { addOp(iv->getAggregateOperand()); addOp(iv->getInsertedValueOperand()); Type* t = iv->getType(); for (unsigned i : iv->indices()) { for (unsigned j = 0; j < i; j++) k.xoff += nl(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); } }
      else if (isa<LandingPadInst>(&I)) {}
      else {
        for (auto& o : I.operands()) addOp(o.get());
        if (auto* ld = dyn_cast<LoadInst>(&I)) { leaves(ld->getType(), 0, k.lay); k.size = DL.getTypeStoreSize(ld->getType()); }
        if (auto* stx = dyn_cast<StoreInst>(&I)) { leaves(stx->getValueOperand()->getType(), 0, k.lay); k.size = DL.getTypeStoreSize(stx->getValueOperand()->getType()); }
        if (auto* al = dyn_cast<AllocaInst>(&I)) k.size = DL.getTypeAllocSize(al->getAllocatedType());
        if (auto* cm = dyn_cast<CmpInst>(&I)) k.pred = cm->getPredicate();
        if (auto* ci = dyn_cast<CastInst>(&I)) { k.w = firstW(ci->getSrcTy()); k.w2 = firstW(ci->getDestTy()); }
        if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) k.w = firstW(rm->getValOperand()->getType());
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) k.w = firstW(cx->getCompareOperand()->getType());
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { for (int m : sv->getShuffleMask()) k.tgt.push_back(m); }
      }
      kb.in.push_back(std::move(k));
    }
  }
  if (auto* sp = F->getSubprogram()) { std::string d = sp->getDirectory().str(), n = sp->getFilename().str(); f->file = (!n.empty() && n[0] == '/') ? n : d + "/" + n; }
}

void Executor::liveness(KFunc* f) {
  f->liveDone = true; size_t n = f->bb.size(); f->liveIn.assign(n, std::vector<bool>(f->slots, false));
  auto useOps = [&](KInst& k, std::vector<bool>& L) { for (size_t i = 0; i < k.opn.size() && i < k.ops.size(); i++) if (k.ops[i] >= 0) for (unsigned j = 0; j < k.opn[i]; j++) L[k.ops[i] + j] = true; };
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t bi = n; bi-- > 0;) {
      KBlock& kb = f->bb[bi]; std::vector<bool> L(f->slots, false);
      if (!kb.in.empty()) {
        std::set<int> succ; KInst& t = kb.in.back(); if (t.opc != Instruction::ShuffleVector) for (int s : t.tgt) succ.insert(s);
        for (int s : succ) { std::vector<bool> S = f->liveIn[s]; for (auto& p : f->bb[s].phi) { auto it = p.from.find((int)bi); if (it != p.from.end() && it->second >= 0) for (unsigned j = 0; j < p.nd; j++) S[it->second + j] = true; } for (unsigned i = 0; i < f->slots; i++) if (S[i]) L[i] = true; }
      }
      for (size_t i = kb.in.size(); i-- > 0;) { KInst& k = kb.in[i]; if (k.dest >= 0) for (unsigned j = 0; j < k.nd; j++) L[k.dest + j] = false; useOps(k, L); }
      for (auto& p : kb.phi) for (unsigned j = 0; j < p.nd; j++) L[p.dest + j] = false;
      if (L != f->liveIn[bi]) { f->liveIn[bi] = L; ch = true; }
    }
  }
}

const std::vector<int>& Executor::live(KFunc* f, int bb, int ip) {
  if (!f->liveDone) liveness(f);
  uint64_t key = ((uint64_t)bb << 32) | ip; auto it = f->liveAt.find(key); if (it != f->liveAt.end()) return it->second;
  KBlock& kb = f->bb[bb]; std::vector<bool> L(f->slots, false); KInst& t = kb.in.back(); std::set<int> succ(t.tgt.begin(), t.tgt.end());
  for (int s : succ) { std::vector<bool> S = f->liveIn[s]; for (auto& p : f->bb[s].phi) { auto i2 = p.from.find(bb); if (i2 != p.from.end() && i2->second >= 0) for (unsigned j = 0; j < p.nd; j++) S[i2->second + j] = true; } for (unsigned i = 0; i < f->slots; i++) if (S[i]) L[i] = true; }
  for (size_t i = kb.in.size(); i-- > (size_t)ip;) { KInst& k = kb.in[i]; if (k.dest >= 0) for (unsigned j = 0; j < k.nd; j++) L[k.dest + j] = false; for (size_t q = 0; q < k.opn.size() && q < k.ops.size(); q++) if (k.ops[q] >= 0) for (unsigned j = 0; j < k.opn[q]; j++) L[k.ops[q] + j] = true; }
  std::vector<int> r; for (unsigned i = 0; i < f->slots; i++) if (L[i]) r.push_back(i);
  return f->liveAt[key] = r;
}

void Executor::initGlobal(State& s, Obj* o, uint64_t off, Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
  if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* sl = DL.getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) initGlobal(s, o, off + sl->getElementOffset(i), st->getOperand(i)); return; }
  if (auto* ar = dyn_cast<ConstantArray>(c)) { uint64_t es = DL.getTypeAllocSize(ar->getType()->getElementType()); for (unsigned i = 0; i < ar->getNumOperands(); i++) initGlobal(s, o, off + i * es, ar->getOperand(i)); return; }
  std::vector<std::pair<uint32_t, unsigned>> l; leaves(c->getType(), off, l); std::vector<Val> v; constLeaves(c, v);
  for (size_t i = 0; i < l.size(); i++) writeLeaf(o, l[i].first, l[i].second, v[i]);
}
}
