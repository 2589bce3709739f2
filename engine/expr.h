// Symbolic expressions: hash-consed bit-vector / floating-point DAG with constant folding,
// local rewriting, and signed/unsigned interval information.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>

namespace tcs {

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Concat, Extract, ZExt, SExt, Ite,
  // floating point; operands/results are bit patterns of width 32, 64 or 80
  FAdd, FSub, FMul, FDiv, FNeg, FSqrt, FAbs, FRint /*aux: 0=floor 1=ceil 2=trunc 3=nearest-away 4=nearest-even*/,
  FOeq, FOlt, FOle, FUno,
  FToSI, FToUI, SIToF, UIToF, FCvt,
};

struct VarSet { std::vector<uint32_t> v; };  // sorted

struct Expr {
  Op op; uint8_t hasFP; uint16_t width; uint16_t aux; uint8_t nk; uint8_t hasDiv;
  uint32_t id; uint32_t hash;
  uint64_t lo, hi;          // Const: value; Var: lo = variable index
  const Expr* k[3];
  const VarSet* vars;
  int64_t smin, smax;       // signed interval (width<=64)
  uint64_t umin, umax;      // unsigned interval (width<=64)
  uint32_t depth;
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned width; uint64_t umax; E bound; };   // bound: the constraint var <= umax, or null
extern std::vector<VarInfo> g_vars;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

inline u128 cval(E e) { return ((u128)e->hi << 64) | e->lo; }
inline bool isC(E e) { return e->op == Op::Const; }
inline bool isC(E e, uint64_t v) { return e->op == Op::Const && e->lo == v && e->hi == 0; }

E mkC(unsigned w, uint64_t v);
E mkC128(unsigned w, u128 v);
E mkVar(const std::string& name, unsigned w, uint64_t umax = ~0ull);   // named; same name => same variable
E mkBin(Op op, E a, E b);
E mkCmp(Op op, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkNot(E a);                                                        // width 1
E mkAnd(E a, E b);                                                   // width 1
E mkOr(E a, E b);
E mkF1(Op op, E a, unsigned aux = 0);
E mkF2(Op op, E a, E b);
E mkFCmp(Op op, E a, E b);
E mkFCast(Op op, E a, unsigned w);
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(1, 0); }

// Concrete evaluation under an assignment (variable index -> value; missing = 0)
struct Model { std::unordered_map<uint32_t, u128> v; };
struct Evaluator {
  const Model& m; std::unordered_map<E, u128> memo;
  Evaluator(const Model& mm) : m(mm) {}
  u128 eval(E e);
};
u128 foldOp(Op op, unsigned w, unsigned aux, E const* k, const u128* kv);   // semantics of every operator on constants
bool iteLoses(E ite, E arm);
E rebuild(E e, E const* k);                                           // same operator, other operands
std::string exprStr(E e, int depth = 6);
size_t exprCount();
}
