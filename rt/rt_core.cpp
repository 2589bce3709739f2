// Runtime models for symbolic execution: C library, exception handling, threads, clocks.
#include "tc_prim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <new>
#include <typeinfo>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <future>
#include <random>
#include <chrono>
#include <pthread.h>
#include <csignal>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <cxxabi.h>

struct Ghost { Ghost() { __tc_ghost(1); } ~Ghost() { __tc_ghost(-1); } };

// ---------------------------------------------------------------- C library
extern "C" {
static thread_local int tc_errno_v;
int* __errno_location() noexcept { return &tc_errno_v; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
}
extern "C" void* tc_memchr(const void* p, int c, size_t n) __asm__("memchr");
extern "C" void* tc_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
extern "C" void* tc_memrchr(const void* p, int c, size_t n) __asm__("memrchr");
extern "C" void* tc_memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return nullptr; }
extern "C" char* tc_strchr(const char* s, int c) __asm__("strchr");
extern "C" char* tc_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* tc_strstr(const char* h, const char* n) __asm__("strstr");
extern "C" char* tc_strstr(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char*)h; if (!*h) return nullptr; } }
extern "C" {
static inline unsigned in(int c, int lo, int hi) { return (unsigned)(c - lo) <= (unsigned)(hi - lo); }
int isdigit(int c) { return in(c, '0', '9'); }
int isupper(int c) { return in(c, 'A', 'Z'); }
int islower(int c) { return in(c, 'a', 'z'); }
int isalpha(int c) { return in(c, 'A', 'Z') | in(c, 'a', 'z'); }
int isalnum(int c) { return in(c, '0', '9') | in(c, 'A', 'Z') | in(c, 'a', 'z'); }
int isxdigit(int c) { return in(c, '0', '9') | in(c, 'A', 'F') | in(c, 'a', 'f'); }
int isspace(int c) { return (c == ' ') | in(c, '\t', '\r'); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int iscntrl(int c) { return in(c, 0, 31) | (c == 127); }
int isprint(int c) { return in(c, 32, 126); }
int isgraph(int c) { return in(c, 33, 126); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int toupper(int c) { return in(c, 'a', 'z') ? c - 32 : c; }
int tolower(int c) { return in(c, 'A', 'Z') ? c + 32 : c; }

// returns magnitude, sign, overflow of magnitude (64 bit)
static const char* parse_int(const char* s, int base, unsigned long long& mag, bool& neg, bool& ovf) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  mag = 0; ovf = false; bool any = false;
  for (;; p++) {
    int c = (unsigned char)*p; int d;
    if (in(c, '0', '9')) d = c - '0'; else if (base > 10 && in(c, 'a', 'z')) d = c - 'a' + 10; else if (base > 10 && in(c, 'A', 'Z')) d = c - 'A' + 10; else break;
    if (base != 10 && d >= base) break;
    any = true; if (!ovf && mag > (~0ull - (unsigned)d) / (unsigned)base) ovf = true; else mag = mag * base + d;
  }
  return any ? p : s;
}
long strtol(const char* s, char** e, int base) noexcept {
  unsigned long long m; bool n, o; const char* p = parse_int(s, base, m, n, o); if (e) *e = (char*)p;
  if (o || (n ? m > 0x8000000000000000ull : m > 0x7fffffffffffffffull)) { errno = ERANGE; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; }
  return n ? (long)(0 - m) : (long)m;
}
long long strtoll(const char* s, char** e, int base) noexcept { return strtol(s, e, base); }
unsigned long strtoul(const char* s, char** e, int base) noexcept {
  unsigned long long m; bool n, o; const char* p = parse_int(s, base, m, n, o); if (e) *e = (char*)p;
  if (o) { errno = ERANGE; return ~0ul; } return n ? 0 - m : m;
}
unsigned long long strtoull(const char* s, char** e, int base) noexcept { return strtoul(s, e, base); }
extern "C" long tc_strtol_old(const char*, char**, int) __asm__("strtol"); long tc_strtol_old(const char* s, char** e, int b) { return strtol(s, e, b); }
extern "C" long tc_strtoll_old(const char*, char**, int) __asm__("strtoll"); long tc_strtoll_old(const char* s, char** e, int b) { return strtol(s, e, b); }
extern "C" unsigned long tc_strtoul_old(const char*, char**, int) __asm__("strtoul"); unsigned long tc_strtoul_old(const char* s, char** e, int b) { return strtoul(s, e, b); }
extern "C" unsigned long tc_strtoull_old(const char*, char**, int) __asm__("strtoull"); unsigned long tc_strtoull_old(const char* s, char** e, int b) { return strtoul(s, e, b); }
// decimal digits with optional fraction, at most 15 significant digits: exact
double strtod(const char* s, char** e) noexcept {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  int c0 = (unsigned char)*p | 32; if (c0 == 'i' || c0 == 'n') __tc_unsupported("strtod of inf/nan");
  long m = 0; int digits = 0, frac = 0; bool any = false;
  for (; in((unsigned char)*p, '0', '9'); p++) { any = true; m = m * 10 + (*p - '0'); if (++digits > 15) __tc_unsupported("strtod of a long number"); }
  if (*p == '.' && (any || in((unsigned char)p[1], '0', '9'))) for (p++; in((unsigned char)*p, '0', '9'); p++) { any = true; m = m * 10 + (*p - '0'); frac++; if (++digits > 15) __tc_unsupported("strtod of a long number"); }
  if (!any) { if (e) *e = (char*)s; return 0; }
  if ((*p | 32) == 'e' || (*p | 32) == 'x') __tc_unsupported("strtod exponent");
  if (e) *e = (char*)p; double d = (double)m; static const double P[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15}; if (frac) d = d / P[frac]; return neg ? -d : d;
}
float strtof(const char* s, char** e) noexcept { return (float)strtod(s, e); }
long double powl(long double b, long double x) noexcept { long n = (long)x; if ((long double)n != x) __tc_unsupported("powl"); long double r = 1; if (n >= 0) for (; n; n--) r *= b; else for (; n; n++) r /= b; return r; }
double pow(double b, double x) noexcept { long n = (long)x; if ((double)n != x || n < 0 || n > 22) __tc_unsupported("pow"); double r = 1; for (; n; n--) r *= b; return r; }
void abort() noexcept { __tc_fail("abort() called"); }
void exit(int) noexcept { __tc_fail("exit() called"); }
int __cxa_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
void* __dso_handle = nullptr;
char __libc_single_threaded = 0;
void __cxa_pure_virtual() { __tc_fail("pure virtual function called"); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { __tc_fail(e); }

// environment variables
static struct { const char* n; const char* v; } tc_env[16]; static int tc_nenv;
void vf_setenv(const char* n, const char* v) { if (tc_nenv >= 16) __tc_unsupported("too many environment variables"); tc_env[tc_nenv++] = {n, v}; }
char* getenv(const char* n) noexcept { if (!n) __tc_fail("getenv(null)"); for (int i = tc_nenv; i-- > 0;) if (!strcmp(tc_env[i].n, n)) return (char*)tc_env[i].v; return nullptr; }
// signals
static __sighandler_t tc_sig[65];
__sighandler_t signal(int s, __sighandler_t h) noexcept { if (s < 1 || s > 64) return SIG_ERR; auto o = tc_sig[s]; tc_sig[s] = h; return o; }
int raise(int s) noexcept { if (s < 1 || s > 64) return -1; auto h = tc_sig[s]; if (h == SIG_DFL) __tc_fail("signal with default action terminates the program"); if (h != SIG_IGN) h(s); return 0; }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) noexcept { if (s < 1 || s > 64) return -1; if (o) { memset(o, 0, sizeof *o); o->sa_handler = tc_sig[s]; } if (a) tc_sig[s] = a->sa_handler; return 0; }

}
// ---------------------------------------------------------------- parts of libstdc++ threads
namespace std {
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
void __future_base::_State_baseV2::_Make_ready::_M_set() { __tc_unsupported("set_value_at_thread_exit"); }
thread::_State::~_State() = default;
}

// ---------------------------------------------------------------- exceptions
struct Exc { std::type_info* type; void (*dtor)(void*); void* adj; int handlers; int refs; Exc* next; void* obj; Exc* primary; };
static_assert(sizeof(Exc) == 64 || sizeof(Exc) <= 64);
static thread_local Exc* tc_caught; static thread_local int tc_uncaught;
static inline Exc* hdr(void* obj) { return (Exc*)((char*)obj - 64); }
static void unref(Exc* h) {
  int r; { Ghost g; r = __atomic_sub_fetch(&h->refs, 1, __ATOMIC_ACQ_REL); }
  if (r == 0) { if (h->primary) unref(h->primary); else if (h->dtor) h->dtor(h->obj); free(h); }
}
static void addref(Exc* h) { Ghost g; __atomic_add_fetch(&h->refs, 1, __ATOMIC_ACQ_REL); }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Exc* h = (Exc*)malloc(64 + n); memset(h, 0, 64); h->obj = (char*)h + 64; return h->obj; }
void __cxa_free_exception(void* o) noexcept { free(hdr(o)); }
Exc* tc_init_exc(void* o, std::type_info* t, void (*d)(void*)) { Exc* h = hdr(o); h->type = t; h->dtor = d; return h; }
void __cxa_throw(void* o, std::type_info* t, void (*d)(void*)) { Exc* h = tc_init_exc(o, t, d); h->refs = 1; tc_uncaught++; __tc_unwind(h); }
void* __cxa_begin_catch(void* e) noexcept {
  Exc* h = (Exc*)e; tc_uncaught--; h->handlers = h->handlers < 0 ? 1 - h->handlers : h->handlers + 1;
  if (tc_caught != h) { h->next = tc_caught; tc_caught = h; } return h->adj;
}
void* __cxa_get_exception_ptr(void* e) noexcept { return ((Exc*)e)->adj; }
void __cxa_end_catch() {
  Exc* h = tc_caught; if (!h) return;
  if (h->handlers < 0) { if (++h->handlers == 0) tc_caught = h->next; return; }
  if (--h->handlers == 0) { tc_caught = h->next; unref(h); }
}
void __cxa_rethrow() { Exc* h = tc_caught; if (!h) std::terminate(); h->handlers = -h->handlers; tc_uncaught++; __tc_unwind(h); }
int __gxx_personality_v0() { return 0; }
void __cxa_call_unexpected(void*) { __tc_fail("unexpected exception"); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}
namespace __cxxabiv1 { extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* t, void (*d)(void*)) noexcept { Exc* h = tc_init_exc(o, t, d); h->refs = 0; return (__cxa_refcounted_exception*)h; } }
namespace std {
void terminate() noexcept { __tc_fail("std::terminate called (an exception left a noexcept function, or a joinable thread was destroyed)"); }
int uncaught_exceptions() noexcept { return tc_uncaught; }
bool uncaught_exception() noexcept { return tc_uncaught > 0; }
namespace __exception_ptr {
// a pointer refers to the primary exception
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) addref(hdr(_M_exception_object)); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { unref(hdr(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return hdr(_M_exception_object)->type; }
}
exception_ptr current_exception() noexcept { Exc* h = tc_caught; if (!h) return exception_ptr(); return __exception_ptr::exception_ptr((h->primary ? h->primary : h)->obj); }
void rethrow_exception(exception_ptr p) {
  struct Peek { void* o; }; void* o = ((Peek*)&p)->o; Exc* pr = hdr(o); Exc* h = (Exc*)malloc(64); memset(h, 0, 64); h->type = pr->type; h->obj = o; h->primary = pr; addref(pr); h->refs = 1; tc_uncaught++; p = nullptr; __tc_unwind(h);
}
}
// ---- libm functions with exact encodings
extern "C" {
double sqrt(double x) { return __builtin_elementwise_sqrt(x); } float sqrtf(float x) { return __builtin_elementwise_sqrt(x); }
double floor(double x) { return __builtin_elementwise_floor(x); } float floorf(float x) { return __builtin_elementwise_floor(x); }
double ceil(double x) { return __builtin_elementwise_ceil(x); } float ceilf(float x) { return __builtin_elementwise_ceil(x); }
double trunc(double x) { return __builtin_elementwise_trunc(x); } float truncf(float x) { return __builtin_elementwise_trunc(x); }
double fabs(double x) { return __builtin_elementwise_abs(x); } float fabsf(float x) { return __builtin_elementwise_abs(x); }
}
