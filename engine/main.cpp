#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstdlib>
#include <sys/resource.h>
#include <unistd.h>
using namespace tcs;
int selftest(int);
int instrument(const char*, const char*);
int main(int argc, char** argv) {
  if (argc == 3 && std::string(argv[1]) == "--selftest") { int r = selftest(atoi(argv[2])); fflush(nullptr); _exit(r); }
  if (argc == 4 && std::string(argv[1]) == "--instrument") { int r = instrument(argv[2], argv[3]); fflush(nullptr); _exit(r); }
  Options o; std::string bc, out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") o.entry = nx(); else if (a == "--bc") bc = nx(); else if (a == "--out") out = nx(); else if (a == "--outdir") o.outDir = nx();
    else if (a == "--max-time") o.maxTime = atof(nx().c_str()); else if (a == "--max-steps") o.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--no-dedup") o.dedup = false; else if (a == "--max-viol") o.maxViol = atoi(nx().c_str());
    else if (a == "--samples") o.samples = atoi(nx().c_str()); else if (a == "--solver-timeout") o.solverTimeout = atoi(nx().c_str()); else if (a == "--fill") o.fill = atoi(nx().c_str()); else if (a == "-v") o.verbose++; else if (a == "--dump") o.dumpDir = nx(); else if (a == "--max-paths") o.maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cfg") { std::string kv = nx(); auto p = kv.find('='); o.cfg[atoi(kv.substr(0, p).c_str())] = atoll(kv.substr(p + 1).c_str()); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  struct rlimit rl { 1ull << 29, 1ull << 29 }; setrlimit(RLIMIT_STACK, &rl);
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto m = llvm::parseIRFile(bc, err, ctx); if (!m) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 2; }
  try {
    Executor ex(*m, o); ex.run(); std::string j = ex.resultJson();
    if (out.empty()) fputs(j.c_str(), stdout); else { FILE* f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); }
  } catch (std::exception& e) { fprintf(stderr, "engine error: %s\n", e.what()); return 3; }
  _exit(0);
}
