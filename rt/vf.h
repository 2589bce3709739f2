// Harness API.  The same harness source runs under the symbolic engine and, compiled natively against
// the real build, under the replay library.
#pragma once
#include "tc_prim.h"
#include <cstddef>
#include <cstdint>
#include <string>
#include <type_traits>

extern "C" {
void vf_setenv(const char* name, const char* value);
extern size_t vf_out_count[2];
extern char vf_out_text[2][512];
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define CHECK(c, msg) __tc_assert((c) ? 1 : 0, msg)
#define ASSUME(c) __tc_assume((c) ? 1 : 0)
#define COVER(tag) __tc_cover(tag)
#define ENTRY(name) extern "C" void name()
namespace vf {
enum { TIMEOUTS = 1, MAXLATE = 2, JITTER = 3, JITTERN = 4, SPURIOUS = 5, ALLOWBLOCK = 6, HWTHREADS = 7, RACE = 8, LATEN = 10, PREEMPT = 11, MAXTIMEOUTS = 12, LEAK = 13 };
template <class T> inline T any(const char* name) { if constexpr (std::is_same_v<T, bool>) return (bool)(__tc_var(name, 1) & 1); else return (T)__tc_var(name, sizeof(T) * 8); }
template <class T = int64_t> inline T range(int64_t lo, int64_t hi, const char* name) { return (T)__tc_range(lo, hi, name); }
inline int choose(int n, const char* name) { return (int)__tc_choose(n, name); }          // forks
inline void assume(bool c) { __tc_assume(c ? 1 : 0); }
inline void config(int k, int64_t v) { __tc_config(k, v); }
inline int64_t param(int i = 0) { return __tc_get_config(101 + i); }                          // job split parameter
inline bool thorough() { return __tc_get_config(100) != 0; }
inline void fill(void* p, size_t n, const char* name) { __tc_sym(p, n, name); }
// text of exactly n arbitrary non-zero bytes
inline std::string text(size_t n, const char* name) { std::string s(n, ' '); if (n) __tc_sym(&s[0], n, name); return s; }
inline bool is_digit(char c) { return (unsigned char)(c - '0') < 10; }
inline int64_t now() { return __tc_now(); }
inline void sleep_until(int64_t t) { __tc_sleep_until(t); }
struct ghost { ghost() { __tc_ghost(1); } ~ghost() { __tc_ghost(-1); } };
// Runs f; true if it threw an exception of type X; any other exception propagates.
template <class X, class F> inline bool throws(F&& f) { try { f(); } catch (const X&) { return true; } return false; }
}
