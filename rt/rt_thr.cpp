// Threads, synchronisation and clocks on top of the primitives; used by the engine and by native schedule replay.
#include "tc_prim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <new>
#include <typeinfo>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <future>
#include <random>
#include <chrono>
#include <pthread.h>
#include <csignal>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <cxxabi.h>

struct Ghost { Ghost() { __tc_ghost(1); } ~Ghost() { __tc_ghost(-1); } };

// ---------------------------------------------------------------- threads
extern "C" {
pthread_t pthread_self() noexcept { return (pthread_t)(__tc_thread_self() + 1); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (m->__data.__kind == 1 && __tc_mutex_owned(m)) { m->__data.__count++; return 0; } __tc_mutex_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (m->__data.__kind == 1 && __tc_mutex_owned(m)) { m->__data.__count++; return 0; } return __tc_mutex_trylock(m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (m->__data.__kind == 1 && m->__data.__count) { m->__data.__count--; return 0; } __tc_mutex_unlock(m); return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { __tc_cond_wait(c, m, 0, 0); return 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { __tc_cond_signal(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { __tc_cond_signal(c, 1); return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return __tc_cond_wait(c, m, t->tv_sec * 1000000000l + t->tv_nsec, 1) ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return pthread_cond_clockwait(c, m, 0, t); }
int pthread_once(pthread_once_t* o, void (*f)()) { int r; { Ghost g; r = __atomic_load_n(o, __ATOMIC_ACQUIRE); } if (r != 2) { f(); Ghost g; __atomic_store_n(o, 2, __ATOMIC_RELEASE); } return 0; }
// shared locks: two counters guarded by an internal mutex
struct RW { int readers, writer; char mx[8], cv[8]; };
static void rwin(RW* r) { __tc_mutex_lock(r->mx); }
static void rwout(RW* r) { __tc_mutex_unlock(r->mx); }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { RW* r = (RW*)l; rwin(r); while (r->writer) __tc_cond_wait(r->cv, r->mx, 0, 0); r->readers++; rwout(r); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { RW* r = (RW*)l; rwin(r); while (r->writer || r->readers) __tc_cond_wait(r->cv, r->mx, 0, 0); r->writer = 1; rwout(r); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { RW* r = (RW*)l; rwin(r); bool ok = !r->writer; if (ok) r->readers++; rwout(r); return ok ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { RW* r = (RW*)l; rwin(r); bool ok = !r->writer && !r->readers; if (ok) r->writer = 1; rwout(r); return ok ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { RW* r = (RW*)l; rwin(r); if (r->writer) r->writer = 0; else r->readers--; __tc_cond_signal(r->cv, 1); rwout(r); return 0; }
int sched_yield() noexcept { return 0; }
int nanosleep(const timespec* t, timespec*) { __tc_sleep_until(__tc_now() + t->tv_sec * 1000000000l + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int fl, const timespec* t, timespec*) { __tc_sleep_until((fl & 1 ? 0 : __tc_now()) + t->tv_sec * 1000000000l + t->tv_nsec); return 0; }
int clock_gettime(clockid_t, timespec* t) noexcept { int64_t n = __tc_now(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int usleep(unsigned us) { __tc_sleep_until(__tc_now() + (int64_t)us * 1000); return 0; }
long syscall(long nr, ...) noexcept {
  va_list ap; va_start(ap, nr); if (nr != SYS_futex) __tc_unsupported("system call");
  void* p = va_arg(ap, void*); long op = va_arg(ap, long); long v = va_arg(ap, long); op &= 127 & ~FUTEX_CLOCK_REALTIME;
  if (op == FUTEX_WAKE) return __tc_futex_wake(p, (int)v);
  if (op == FUTEX_WAIT) { const timespec* t = va_arg(ap, const timespec*); if (t) __tc_unsupported("timed futex"); __tc_futex_wait(p, (uint32_t)v, 0, 0); return 0; }
  va_end(ap); __tc_unsupported("futex operation");
}
int __cxa_guard_acquire(__cxxabiv1::__guard* g) { __tc_mutex_lock(g); if (*(char*)g) { __tc_mutex_unlock(g); return 0; } return 1; }
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); __tc_mutex_unlock(g); }
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { __tc_mutex_unlock(g); }
}

namespace std {
static void tc_tramp(void* p) { thread::_State* s = (thread::_State*)p; s->_M_run(); delete s; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { int id = __tc_thread_create(tc_tramp, st.get()); st.release(); _M_id = thread::id((__gthread_t)(id + 1)); }
void thread::join() {
  auto h = *reinterpret_cast<unsigned long*>(&_M_id); if (!h) __throw_system_error(EINVAL); if ((int)h - 1 == __tc_thread_self()) __throw_system_error(EDEADLK);
  __tc_thread_join((int)h - 1); _M_id = thread::id();
}
void thread::detach() { if (!joinable()) __throw_system_error(EINVAL); _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { int64_t v = __tc_get_config(7); return v == 0 ? 4 : v < 0 ? 0 : (unsigned)v; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { __tc_cond_wait(this, l.mutex()->native_handle(), 0, 0); }
void condition_variable::notify_one() noexcept { __tc_cond_signal(this, 0); }
void condition_variable::notify_all() noexcept { __tc_cond_signal(this, 1); }
// condition_variable's own pthread_cond_t is its first member: &cv == native_handle
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) { return !__tc_futex_wait(a, v, s.count() * 1000000000l + ns.count(), has); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) { return !__tc_futex_wait(a, v, s.count() * 1000000000l + ns.count(), has); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { __tc_futex_wake(a, 0x7fffffff); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(__tc_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(__tc_now())); }
} }
void random_device::_M_init(const string&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return (unsigned)__tc_var("random", 32); }
}

