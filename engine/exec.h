// Symbolic executor for LLVM IR: states, memory, threads.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <vector>
#include <memory>

namespace tcs {

// A scalar value: concrete (e == null) or symbolic.  Scalars wider than 64 bits always carry an expression.
struct Val { uint64_t c = 0; E e = nullptr; };
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }
inline Val fromE(E e) { if (e->op == Op::Const && e->width <= 64) return {e->lo, nullptr}; return {0, e}; }
inline Val cv(uint64_t c) { return {c, nullptr}; }

template <class T> struct Ref {
  T* p = nullptr; Ref() {} Ref(T* x) : p(x) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; } ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; } explicit operator bool() const { return p; }
};
enum { KGlobal = 0, KStack = 1, KHeap = 2, KFunction = 3 };
constexpr int MAXT = 8;                                   // threads per execution
struct Shadow { std::vector<uint32_t> w, r; };            // per byte: write epoch (tid<<24|clock), read clock of every thread
struct Obj {
  int rc = 0; uint32_t size = 0; uint8_t kind = 0; bool ro = false, hv = false, norace = false; uint64_t h = 0;
  std::vector<uint8_t> b; std::vector<E> s;               // s: empty when fully concrete, else per byte (null: concrete)
  std::unique_ptr<Shadow> sh; const char* name = nullptr;
  Obj() {}
  Obj(const Obj& o) : rc(0), size(o.size), kind(o.kind), ro(o.ro), hv(o.hv), norace(o.norace), h(o.h), b(o.b), s(o.s), sh(o.sh ? new Shadow(*o.sh) : nullptr), name(o.name) {}
};
struct Chunk { int rc = 0; Ref<Obj> o[128]; bool hv = false; uint64_t h = 0; Chunk() {} Chunk(const Chunk& c) : rc(0), hv(c.hv), h(c.h) { for (int i = 0; i < 128; i++) o[i] = c.o[i]; } };
struct Region { std::vector<Ref<Chunk>> d; uint32_t n = 0; };

struct KFunc; struct KInst; struct KBlock;
struct Frame { KFunc* f = nullptr; int bb = 0, ip = 0, prev = -1; std::vector<Val> regs; std::vector<uint32_t> allocas; uint64_t va = 0; };
enum class TS : uint8_t { Run, WaitCond, WaitFutex, Sleep, Done };
enum Pend : uint8_t { P_NONE, P_START, P_LOCK, P_TRYLOCK, P_RELOCK, P_CONDWAIT, P_NOTIFY, P_FUTEXWAIT, P_FUTEXWAKE, P_ATOMIC, P_JOIN, P_SLEEP, P_YIELD, P_WOKEN };
struct Thread {
  int id = 0; std::vector<std::shared_ptr<Frame>> st; TS ts = TS::Run;
  bool granted = false, joined = false; uint8_t pend = P_NONE; uint64_t paddr = 0;
  uint64_t waddr = 0, wmutex = 0; bool hasDl = false; Val dl; uint8_t wres = 0;
  uint32_t vc[MAXT] = {0}; std::map<int, uint32_t> tls; int ghost = 0;
};
struct Decision { char k; int64_t v; uint8_t op = 0; uint64_t addr = 0; };
struct SymIn { std::string name; std::vector<E> vals; std::vector<unsigned> widths; };
struct VC { uint32_t c[MAXT] = {0}; };
struct MutexSt { int owner = -1; int depth = 0; VC vc; };
struct ModelCtx { Model m; Evaluator ev; ModelCtx() : ev(m) {} explicit ModelCtx(const Model& x) : m(x), ev(m) {} };
struct State;
// A region of the program in which forked states are joined again: frame `depth` of thread `tid` reaching block J
// (J < 0: the frame returning).
struct Scope { std::shared_ptr<Scope> up; int tid = 0; size_t depth = 0; KFunc* f = nullptr; int J = -1; bool loopEdge = false; const std::vector<char>* inLoop = nullptr; size_t pending = 0; std::vector<std::unique_ptr<State>> arrived; };
enum ChoiceK : char { CH_RUN = 'r', CH_SPUR = 's', CH_TIMEOUT = 't' };
struct State {
  uint64_t id = 0;
  std::vector<E> pc; std::unordered_set<E> pcset; std::shared_ptr<ModelCtx> model;
  Region reg[64];
  std::vector<Thread> th; int cur = 0; bool multi = false;
  std::map<uint64_t, MutexSt> mx; std::map<uint64_t, VC> avc;
  Val now; std::vector<Decision> dec; std::vector<SymIn> in; std::map<std::string, int> nameCnt;
  std::map<int, int64_t> cfg; int forkRes = -1; bool forced = false; Decision fc{0, 0};
  int preempt = 0; uint64_t steps = 0; uint32_t schedPts = 0, timeouts = 0, spur = 0;
  std::vector<uint32_t> shObjs; std::vector<std::string> log;
  std::unordered_map<E, E> eq, lem; std::unordered_map<E, std::pair<uint64_t, uint64_t>> rng; std::shared_ptr<Scope> scope;
};

struct KInst {
  llvm::Instruction* I = nullptr; unsigned opc = 0; int dest = -1; unsigned nd = 0; unsigned w = 0, w2 = 0;
  std::vector<int> ops; std::vector<unsigned> opn, opw;    // first slot (or ~const index); leaves; scalar width
  std::vector<int> tgt; int64_t coff = 0; struct G { int op; int64_t scale; unsigned w; }; std::vector<G> gep;
  std::vector<std::pair<uint32_t, unsigned>> lay; uint64_t size = 0; KFunc* callee = nullptr; int handler = -1; unsigned pred = 0; unsigned xoff = 0;
};
struct KPhi { int dest; unsigned nd; std::map<int, int> from; };   // predecessor block -> first slot/~const
struct KBlock { std::vector<KPhi> phi; std::vector<KInst> in; llvm::BasicBlock* B = nullptr; };
struct KFunc {
  int id = 0; llvm::Function* F = nullptr; unsigned slots = 0; std::vector<KBlock> bb; std::vector<Val> consts; std::vector<unsigned> argSlot, argN; bool decoded = false;
  std::string file; uint64_t calls = 0; unsigned ninst = 0; int handler = -1;
  std::vector<unsigned> slotW; std::vector<int> join; std::vector<char> joinLoop; std::vector<std::shared_ptr<std::vector<char>>> joinIn; bool joinDone = false; std::vector<std::vector<bool>> liveIn; std::unordered_map<uint64_t, std::vector<int>> liveAt; bool liveDone = false;
};
struct Violation { std::string kind, msg, where, file; };
struct Options {
  std::string entry, outDir = "."; uint64_t maxSteps = 30000000; double maxTime = 0; bool dedup = true; int maxViol = 1; int samples = 3; int verbose = 0; uint64_t maxPaths = 0;
  unsigned solverTimeout = 60000; std::map<int, int64_t> cfg; int fill = 0xCD; std::string dumpDir; uint64_t memLimitMB = 6000;
};
enum Cfg { C_TIMEOUTS = 1, C_MAXLATE = 2, C_JITTER = 3, C_JITTERN = 4, C_SPURIOUS = 5, C_ALLOWBLOCK = 6, C_HWTHREADS = 7, C_RACE = 8, C_LATEN = 10, C_PREEMPT = 11, C_MAXTIMEOUTS = 12, C_LEAK = 13, C_MERGE = 14 };

struct PathEnd { };      // thrown to stop executing the current state
struct Parked { };       // thrown when the current state reached the join point of its scope
struct Executor {
  llvm::Module& M; const llvm::DataLayout& DL; Options opt; Solver sol;
  explicit Executor(llvm::Module& m, const Options& o);
  void run();
  // results
  uint64_t paths = 0, forks = 0, steps = 0, merged = 0, asserts = 0, schedForks = 0, errs = 0, assumedAway = 0, blockedEnds = 0; bool incomplete = false; std::string incompleteWhy;
  std::vector<Violation> viol; std::map<std::string, int> errors; std::map<std::string, uint64_t> covers; std::vector<std::string> sampleFiles; std::set<std::string> assertMsgs;
  uint64_t maxQueue = 0; double wall = 0;
  std::string resultJson();
 private:
  std::vector<std::unique_ptr<State>> work; uint64_t nextId = 1; std::unordered_set<uint64_t> seen; std::set<std::string> reported;
  std::unordered_map<const llvm::Function*, KFunc*> kf; std::vector<KFunc*> funcById; std::unordered_map<const llvm::GlobalVariable*, int> gid; std::vector<llvm::GlobalVariable*> globals;
  std::map<const llvm::Value*, int> tiId; double t0 = 0;
  // decode
  void decode(KFunc* f); int operand(KFunc* f, llvm::Value* v, std::unordered_map<const llvm::Value*, int>& slot); void constLeaves(llvm::Constant* c, std::vector<Val>& out); void leaves(llvm::Type* t, uint64_t off, std::vector<std::pair<uint32_t, unsigned>>& out);
  uint64_t constAddr(llvm::Constant* c); void liveness(KFunc* f); const std::vector<int>& live(KFunc* f, int bb, int ip);
  // memory
  Obj* find(State& s, uint64_t addr); Obj* wobj(State& s, uint64_t addr); uint64_t alloc(State& s, int region, uint64_t size, int kind, int fill, const char* name); void release(State& s, uint64_t addr);
  struct Loc { uint64_t addr = 0; E off = nullptr; uint64_t lo = 0, hi = 0, step = 1; };
  Loc resolve(State& s, const Val& a, uint64_t n, bool wr, const char* what); Val readLeaf(Obj* o, uint64_t off, unsigned w); void writeLeaf(Obj* o, uint64_t off, unsigned w, const Val& v);
  Val load(State& s, const Loc& l, uint64_t delta, unsigned w); void store(State& s, const Loc& l, uint64_t delta, unsigned w, const Val& v);
  E byteAt(Obj* o, uint64_t off); void setByte(Obj* o, uint64_t off, E e);
  uint64_t checkRange(State& s, uint64_t addr, uint64_t n, bool wr, const char* what);
  std::string cstr(State& s, uint64_t addr); void initGlobal(State& s, Obj* o, uint64_t off, llvm::Constant* c);
  uint64_t tlsAddr(State& s, int g);
  void race(State& s, uint64_t addr, uint64_t n, bool wr);
  // control
  Frame& top(State& s) { auto& t = s.th[s.cur]; auto& f = t.st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
  std::unique_ptr<State> clone(State& s); bool decide(State& s, E c); bool decideV(State& s, const Val& v) { return v.e ? decide(s, v.e) : (v.c & 1); } uint64_t concretize(State& s, const Val& v, unsigned w); void addPC(State& s, E c); void mergeModel(State& s, const Model& m);
  E simp(State& s, E e); void learn(State& s, E c); bool range(State& s, E e, uint64_t& lo, uint64_t& hi, int depth = 0);
  // joining of states
  void joins(KFunc* f); void checkJoin(State& s, bool returned); void escape(State& s, size_t depth); void dropScopes(State& s); void leaveScope(std::shared_ptr<Scope> sc); void park(std::unique_ptr<State> s); void complete(std::shared_ptr<Scope> sc); bool mergeInto(State& a, State& b, const Scope& sc);
  uint64_t joined = 0, joinFail = 0; std::map<std::string, uint64_t> forkSites;
  void runState(std::unique_ptr<State> s); void step(State& s); void step1(State& s); void enterBlock(State& s, Frame& f, int to); void pushFrame(State& s, KFunc* f, KInst* ki, std::vector<Val>&& args, std::vector<unsigned>&& argn); void doRet(State& s, std::vector<Val>&& v); void afterCall(State& s, KInst& ki); void setDest(Frame& f, KInst& ki, const Val& v) { if (ki.dest >= 0) f.regs[ki.dest] = v; }
  void doCall(State& s, Frame& fr, KInst& ki); bool builtin(State& s, Frame& fr, KInst& ki, int h, std::vector<Val>& a, std::vector<unsigned>& w); void intrinsic(State& s, Frame& fr, KInst& ki);
  Val binop(State& s, unsigned opc, unsigned w, const Val& a, const Val& b); Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b); Val fcmp(unsigned pred, unsigned w, const Val& a, const Val& b); Val fbin(unsigned opc, unsigned w, const Val& a, const Val& b); Val castop(State& s, unsigned opc, unsigned wf, unsigned wt, const Val& a, llvm::Type* ft, llvm::Type* tt);
  Val& opv(Frame& f, KInst& ki, int i, unsigned leaf = 0) { int sl = ki.ops[i]; return sl >= 0 ? f.regs[sl + leaf] : f.f->consts[~sl + leaf]; }
  void atomicOp(State& s, Frame& fr, KInst& ki); bool invisibleAtomic(State& s, uint64_t addr);
  // exceptions
  void unwind(State& s, uint64_t exc, bool resume); bool tiMatch(State& s, const llvm::GlobalVariable* thrown, const llvm::GlobalVariable* want, uint64_t obj, uint64_t& adj, int depth = 0); int typeId(const llvm::Value* ti); const llvm::GlobalVariable* gvAt(uint64_t addr);
  uint64_t dynCast(State& s, uint64_t obj, uint64_t src, uint64_t dst); void findBases(State& s, const llvm::GlobalVariable* ti, uint64_t obj, const llvm::GlobalVariable* want, std::vector<uint64_t>& out, int depth);
  // threads
  bool visible(State& s, Pend p, uint64_t addr); void schedule(State& s); void applyChoice(State& s, Decision d); bool enabled(State& s, Thread& t); bool needSched = false; void lockMutex(State& s, uint64_t m, int tid); void unlockMutex(State& s, uint64_t m, int tid);
  void acq(State& s, const VC& v); void rel(State& s, VC& v, bool join); bool grantOp(State& s, Pend p, uint64_t addr); uint64_t stateHash(State& s);
  bool deadlineLE(State& s, const Val& a, const Val& b); Val clockNow(State& s);
  // reporting
  [[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr, bool cont = false); void report(State& s, const std::string& kind, const std::string& msg, const Model* m); [[noreturn]] void unsupported(State& s, const std::string& what);
  std::string where(State& s, std::string* trace = nullptr); void writeWitness(State& s, const Model& m, const std::string& path, const std::string& kind, const std::string& msg); void endPath(State& s);
  Val symbolic(State& s, const std::string& name, unsigned w, uint64_t umax = ~0ull); void checkLeaks(State& s);
};
}
