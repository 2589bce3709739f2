// Prepares bitcode for native schedule replay: a call before every atomic access, and the table of
// shared_ptr control-block virtual tables (whose reference counts are not scheduling points).
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
int instrument(const char* in, const char* out) {
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx); if (!m) { fprintf(stderr, "cannot read %s\n", in); return 2; }
  auto* ptr = PointerType::get(ctx, 0); auto fn = m->getOrInsertFunction("__tc_atomic", Type::getVoidTy(ctx), ptr);
  std::vector<std::pair<Instruction*, Value*>> at;
  for (auto& F : *m) for (auto& I : instructions(F)) {
    Value* p = nullptr;
    if (auto* l = dyn_cast<LoadInst>(&I)) { if (l->isAtomic()) p = l->getPointerOperand(); }
    else if (auto* s = dyn_cast<StoreInst>(&I)) { if (s->isAtomic()) p = s->getPointerOperand(); }
    else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) p = r->getPointerOperand();
    else if (auto* c = dyn_cast<AtomicCmpXchgInst>(&I)) p = c->getPointerOperand();
    if (!p) continue;
    auto* b = dyn_cast<GlobalVariable>(p->stripInBoundsConstantOffsets()); if (b && b->getName().starts_with("_ZGV")) continue;
    at.push_back({&I, p});
  }
  for (auto& x : at) IRBuilder<>(x.first).CreateCall(fn, {x.second});
  std::vector<Constant*> vt; auto* i64 = Type::getInt64Ty(ctx); auto* st = StructType::get(ctx, {ptr, i64});
  for (auto& G : m->globals()) if (!G.isDeclaration() && G.getName().starts_with("_ZTV") && G.getName().contains("_Sp_counted")) vt.push_back(ConstantStruct::get(st, {&G, ConstantInt::get(i64, m->getDataLayout().getTypeAllocSize(G.getValueType()))}));
  size_t n = vt.size(); vt.push_back(ConstantStruct::get(st, {ConstantPointerNull::get(ptr), ConstantInt::get(i64, 0)}));
  auto* a = ArrayType::get(st, vt.size()); new GlobalVariable(*m, a, true, GlobalValue::ExternalLinkage, ConstantArray::get(a, vt), "__tc_spvt");
  new GlobalVariable(*m, i64, true, GlobalValue::ExternalLinkage, ConstantInt::get(i64, n), "__tc_nspvt");
  std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 2; WriteBitcodeToFile(*m, os); return 0;
}
