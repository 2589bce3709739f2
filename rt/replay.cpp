// Native replay of a witness.  Two builds:
//  VF_SEQ: harness + real sources compiled by g++ with sanitizers and the real standard library; no scheduler.
//  otherwise: harness + real sources + rt_thr as native code from the same compiler output the engine ran,
//  threads as coroutines following the recorded schedule, freed memory unmapped.
#include "tc_prim.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#include <thread>
#include <dlfcn.h>
extern "C" { void vf_setenv(const char*, const char*); size_t vf_out_count[2]; char vf_out_text[2][512]; }
// exit status: 42 property violated, 0 passed to the end, 43 schedule followed to its end, 44 witness not followed
[[noreturn]] static void out(int code, const char* what, const char* msg) { char b[1024]; int n = snprintf(b, sizeof b, "%s %s\n", what, msg); if (write(1, b, n)) {} _exit(code); }
[[noreturn]] static void violated(const char* m) { out(42, "REPLAYED", m); }
[[noreturn]] static void diverged(const char* m) { out(44, "DIVERGED", m); }
static std::map<std::string, std::deque<std::vector<uint64_t>>> inputs; struct SD { char first; long second; int op; }; static std::deque<SD> sched; static std::string kind, entryName; static std::map<int, int64_t> cfg;
static std::vector<uint64_t> next(const char* n) { auto& q = inputs[n]; if (q.empty()) diverged(n); auto v = q.front(); q.pop_front(); return v; }
struct obuf : std::streambuf {
  int k = 0; void put(const char* s, size_t n) { for (size_t i = 0; i < n; i++) { if (vf_out_count[k] < 511) vf_out_text[k][vf_out_count[k]] = s[i]; vf_out_count[k]++; } }
  int overflow(int c) override { char x = (char)c; if (c != EOF) put(&x, 1); return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, n); return n; }
};
extern "C" {
static int ghost_d;
void vf_setenv(const char* n, const char* v) { setenv(n, v, 1); }
void __tc_assert(int c, const char* m) { if (!c) violated(m); }
void __tc_assume(int c) { if (!c) diverged("assumption does not hold"); }
void __tc_sym(void* p, size_t n, const char* name) { auto v = next(name); if (v.size() != n) diverged(name); for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)v[i]; }
uint64_t __tc_var(const char* name, int) { return next(name)[0]; }
void __tc_lemma(int64_t a, int64_t b) { __tc_assert(a == b, "lemma"); }
int64_t __tc_range(int64_t lo, int64_t hi, const char* name) { if (lo > hi) diverged(name); if (lo == hi) return lo; return (int64_t)next(name)[0]; }
int64_t __tc_choose(int64_t n, const char* name) { if (n <= 0) diverged(name); return (int64_t)next(name)[0]; }
uint64_t __tc_concretize(uint64_t v) { return v; }
void __tc_cover(const char* t) { char b[300]; int n = snprintf(b, sizeof b, "COVER %s\n", t); if (write(1, b, n)) {} }
void __tc_fail(const char* m) { violated(m); }
void __tc_halt() { out(0, "END", ""); }
void __tc_unsupported(const char* m) { diverged(m); }
int __tc_is_symbolic(uint64_t) { return 0; }
void __tc_log(const char*, int64_t) {}
void __tc_norace(void*) {}
uint64_t __tc_obj_size(void*) { return ~0ull; }
void __tc_config(int k, int64_t v) { cfg[k] = v; }
int64_t __tc_get_config(int k) { return cfg[k]; }
void* __tc_static_alloc(size_t n) { return calloc(1, n); }
}
#ifdef VF_SEQ
extern "C" { int64_t __tc_now() { return 0; } void __tc_set_now(int64_t) {} void __tc_sleep_until(int64_t) {} void __tc_quiesce(int) {} int __tc_thread_self() { return 0; } int __tc_threads_live() { return 1; } int __tc_thread_state(int) { return 0; } void __tc_ghost(int) {} }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() { return (unsigned)__tc_var("random", 32); }
#else
enum TS { Run, WaitCond, WaitFutex, Sleep, Done };
enum P { NONE, START, LOCK, TRYLOCK, RELOCK, CONDWAIT, NOTIFY, FUTEXWAIT, FUTEXWAKE, ATOMIC, JOIN, SLEEP_, YIELD, WOKEN };
struct T { int id; ucontext_t uc; TS ts = Run; P pend = NONE; uint64_t paddr = 0; uint64_t waddr = 0, wmutex = 0; bool hasDl = false; int64_t dl = 0; int wres = 0; bool joined = false; void (*f)(void*) = nullptr; void* arg = nullptr; char eh[16] = {0}; int ghost = 0; };
static bool started; static std::vector<T*>* thp; static std::vector<T*>& th() { if (!thp) thp = new std::vector<T*>(1, new T{0}); return *thp; }
static int cur; static bool multi; static int64_t nowv; static std::map<uint64_t, int> owner; static int nlate, njit, spawned;
extern "C" void* __cxa_get_globals() noexcept;
extern "C" { extern const struct { void* p; uint64_t n; } __tc_spvt[]; extern const uint64_t __tc_nspvt; }
static bool enabled(T& t) { if (t.ts != Run) return false; switch (t.pend) { case NONE: return t.id == cur; case LOCK: case RELOCK: { auto i = owner.find(t.paddr); return i == owner.end() || i->second < 0; } case JOIN: return t.paddr < th().size() && th()[t.paddr]->ts == Done; case YIELD: return false; default: return true; } }
static void switchTo(int i) { if (i == cur) return; T *a = th()[cur], *b = th()[i]; memcpy(a->eh, __cxa_get_globals(), 16); memcpy(__cxa_get_globals(), b->eh, 16); cur = i; swapcontext(&a->uc, &b->uc); }
static void atEnd() {
  if (kind == "deadlock") { for (auto t : th()) if (enabled(*t)) diverged("a thread can still run"); violated("no thread can ever continue"); }
  out(43, "FOLLOWED", "schedule followed to its end");
}
// called by the current thread at a scheduling point; returns when it is granted
static void reschedule() {
  while (true) {
    if (sched.empty()) atEnd();
    auto [k, v, op] = sched.front(); extern void tracep2(char, long); tracep2(k, v); if (k == 'n') diverged("notify decision"); sched.pop_front(); if (v < 0 || v >= (long)th().size()) diverged("unknown thread"); T& t = *th()[v];
    if (k == 't') { if (!(t.ts == Sleep || ((t.ts == WaitCond || t.ts == WaitFutex) && t.hasDl))) diverged("no timed wait"); if (t.dl > nowv) { nowv = t.dl; if (cfg[2] && nlate < cfg[10]) { nlate++; nowv += (int64_t)next("late")[0]; } } t.wres = 1; }
    if (k == 'r') { if (op >= 0 && op != t.pend) diverged("another operation"); if (!(enabled(t) || (t.ts == Run && t.pend == YIELD))) diverged("thread not enabled"); int me = cur; (void)me; if (t.pend == START) t.pend = NONE; switchTo((int)v); th()[cur]->pend = NONE; return; }
    if (k == 's') { if (t.ts != WaitCond) diverged("no spurious wake-up possible"); t.wres = 0; }
    bool c = t.ts == WaitCond; t.ts = Run; t.pend = c ? RELOCK : WOKEN; t.paddr = c ? t.wmutex : 0; t.hasDl = false; t.waddr = 0;
  }
}
static void tracep(const char* w, long a, long b) { static int on = -1; if (on < 0) on = getenv("VF_TRACE") != nullptr; if (on) { char x[100]; int n = snprintf(x, 100, "%s %ld %lx\n", w, a, b); if (write(2, x, n)) {} } }
static void grant(P p, uint64_t a) { tracep("op", cur * 100 + p, a); T& t = *th()[cur]; t.pend = p; t.paddr = a; if (!multi && enabled(t)) { t.pend = NONE; return; } reschedule(); }
static void tramp() { T* t = th()[cur]; t->f(t->arg); t->ts = Done; t->pend = NONE; reschedule(); diverged("finished thread resumed"); }
void tracep2(char k, long v) { char b[3] = {'s', k, 0}; tracep(b, v, 0); }
extern "C" {
void __tc_atomic(void* p) {
  if (!started) return;
  T& t = *th()[cur]; if (t.ghost || !multi) return;
  for (int d : {8, 12}) { if (((uint64_t)p - d) % 8) continue; uint64_t base = (uint64_t)p - d; static long pg = 4096; if ((base & ~(pg - 1)) != ((uint64_t)p & ~(pg - 1))) continue; uint64_t vp = *(uint64_t*)base; for (uint64_t i = 0; i < __tc_nspvt; i++) if (vp >= (uint64_t)__tc_spvt[i].p && vp < (uint64_t)__tc_spvt[i].p + __tc_spvt[i].n) return; }
  grant(ATOMIC, (uint64_t)p);
}
void __tc_ghost(int d) { if (!started) return; th()[cur]->ghost += d; }
int __tc_thread_self() { return cur; }
int __tc_threads_live() { int n = 0; for (auto t : th()) if (t->ts != Done) n++; return n; }
int __tc_thread_state(int i) { if (i >= (int)th().size()) return 99; T& x = *th()[i]; return x.ts == Done ? 3 : x.ts == Run ? (enabled(x) ? 0 : (x.pend == LOCK || x.pend == RELOCK) ? 4 : 1) : x.hasDl || x.ts == Sleep ? 2 : 1; }
int64_t __tc_now() { if (cfg[3] && njit < cfg[4]) { njit++; nowv += (int64_t)next("jitter")[0]; } return nowv; }
void __tc_set_now(int64_t t) { nowv = t; }
void __tc_sleep_until(int64_t d) { T& t = *th()[cur]; t.ts = Sleep; t.hasDl = true; t.dl = d; reschedule(); }
void __tc_quiesce(int a) { T& t = *th()[cur]; t.pend = YIELD; t.paddr = a; reschedule(); }
void __tc_mutex_lock(void* m) { if (!started) return; grant(LOCK, (uint64_t)m); owner[(uint64_t)m] = cur; }
int __tc_mutex_trylock(void* m) { if (!started) return 1; grant(TRYLOCK, (uint64_t)m); auto i = owner.find((uint64_t)m); if (i != owner.end() && i->second >= 0) return 0; owner[(uint64_t)m] = cur; return 1; }
void __tc_mutex_unlock(void* m) { if (!started) return; auto i = owner.find((uint64_t)m); if (i == owner.end() || i->second != cur) violated("unlock of a mutex not held by this thread"); i->second = -1; }
int __tc_mutex_owned(void* m) { auto i = owner.find((uint64_t)m); return i != owner.end() && i->second == cur; }
int __tc_cond_wait(void* c, void* m, int64_t dl, int has) {
  grant(CONDWAIT, (uint64_t)c); T& t = *th()[cur]; __tc_mutex_unlock(m); t.ts = WaitCond; t.waddr = (uint64_t)c; t.wmutex = (uint64_t)m; t.hasDl = has; t.dl = dl; t.wres = 0; reschedule(); owner[(uint64_t)m] = cur; return t.wres;
}
void __tc_cond_signal(void* c, int all) {
  if (!started) return;
  grant(NOTIFY, (uint64_t)c); std::vector<int> ws; for (auto t : th()) if (t->ts == WaitCond && t->waddr == (uint64_t)c) ws.push_back(t->id);
  if (!all && ws.size() > 1) { if (sched.empty() || sched.front().first != 'n') diverged("notify decision missing"); long r = sched.front().second; sched.pop_front(); ws = {ws[r]}; }
  for (int i : ws) { T& x = *th()[i]; x.ts = Run; x.pend = RELOCK; x.paddr = x.wmutex; x.wres = 0; x.hasDl = false; x.waddr = 0; }
}
int __tc_futex_wait(void* p, uint32_t e, int64_t dl, int has) { if (*(volatile uint32_t*)p != e) return 0; T& t = *th()[cur]; t.ts = WaitFutex; t.waddr = (uint64_t)p; t.hasDl = has; t.dl = dl; t.wres = 0; reschedule(); return t.wres; }
int __tc_futex_wake(void* p, int n) { if (!started) return 0; int k = 0; for (auto x : th()) if (k < n && x->ts == WaitFutex && x->waddr == (uint64_t)p) { x->ts = Run; x->pend = WOKEN; x->paddr = 0; x->wres = 0; x->hasDl = false; x->waddr = 0; k++; } return k; }
int __tc_thread_create(void (*f)(void*), void* arg) {
  T* t = new T{(int)th().size()}; t->f = f; t->arg = arg; t->pend = START; getcontext(&t->uc); size_t sz = 1 << 20; char* st = (char*)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(st, 4096, PROT_NONE);
  t->uc.uc_stack.ss_sp = st; t->uc.uc_stack.ss_size = sz; t->uc.uc_link = nullptr; makecontext(&t->uc, tramp, 0); th().push_back(t); multi = true; return t->id;
}
void __tc_thread_join(int i) {
  if (i < 0 || i >= (int)th().size()) violated("join of an unknown thread"); if (i == cur) violated("a thread joins itself");
  grant(JOIN, i); th()[i]->joined = true; bool m = false; for (auto x : th()) if (x->id != cur && !(x->ts == Done && x->joined)) m = true; multi = m || cur != 0;
}
// every block on its own pages, ending at the page end; freed blocks become inaccessible
static size_t up(size_t n) { return (n + 4095) & ~4095ul; }
static char* boot; static size_t bootn;
void* malloc(size_t n) { size_t a = (n + 15) & ~15ul; if (!a) a = 16; size_t tot = up(a + 16) + 4096; char* m = (char*)mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) _exit(44); mprotect(m + tot - 4096, 4096, PROT_NONE); char* p = m + tot - 4096 - a; ((size_t*)p)[-1] = n; ((size_t*)p)[-2] = (size_t)m ^ 0x5a5a5a5a5a5aull; memset(p, 0xcd, a); return p; }
void free(void* q) { if (!q) return; char* p = (char*)q; size_t n = ((size_t*)p)[-1]; char* m = (char*)(((size_t*)p)[-2] ^ 0x5a5a5a5a5a5aull); size_t a = (n + 15) & ~15ul; if (!a) a = 16; if (m + up(a + 16) - a != p) violated("free of an invalid pointer"); mprotect(m, up(a + 16), PROT_NONE); madvise(m, up(a + 16), MADV_DONTNEED); }
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = malloc(n); if (q) { size_t o = ((size_t*)q)[-1]; memcpy(p, q, o < n ? o : n); free(q); } return p; }
void* memalign(size_t al, size_t n) { if (al <= 16) return malloc(n); _exit(44); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return 0; }
size_t malloc_usable_size(void* p) { return p ? ((size_t*)p)[-1] : 0; }
}
#endif
static void onsig(int s) { char b[64]; snprintf(b, 64, "signal %d", s); violated(b); }
int main(int argc, char** argv) {
  if (argc < 2) return 44;
  { std::ifstream f(argv[1]); std::string l;
    while (std::getline(f, l)) { std::istringstream is(l); std::string w; is >> w;
      if (w == "entry") is >> entryName; else if (w == "kind") is >> kind; else if (w == "cfg") { int k; int64_t v; is >> k >> v; cfg[k] = v; }
      else if (w == "in") { std::vector<std::string> t; std::string x, n; while (is >> x) t.push_back(x); size_t k = t.size(); while (k && t[k - 1].find(':') != std::string::npos) k--; for (size_t i = 0; i + 1 < k; i++) n += (i ? " " : "") + t[i]; std::vector<uint64_t> v; for (size_t i = k; i < t.size(); i++) v.push_back(strtoull(t[i].c_str() + t[i].find(':') + 1, nullptr, 16)); inputs[n].push_back(v); }
      else if (w == "sched") { char k; long v; std::string h; int op = -1; is >> k >> v; if (is >> h >> op) {} else op = -1; sched.push_back({k, v, op}); } else if (w == "where") break; } }
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
#ifndef VF_SEQ
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) { struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
#endif
  std::set_terminate([] { violated("std::terminate called"); });
  static obuf o0, o1; o0.k = 0; o1.k = 1; std::cout.rdbuf(&o0); std::cerr.rdbuf(&o1);
  auto f = (void (*)())dlsym(nullptr, entryName.c_str()); if (!f) diverged("no such entry");
#ifndef VF_SEQ
  started = true;
#endif
  f();
  out(0, "END", "entry returned");
}
