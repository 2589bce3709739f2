// Primitives: implemented by the symbolic engine, and by the replay library for native runs.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void __tc_assert(int cond, const char* msg);
void __tc_assume(int cond);
void __tc_lemma(int64_t a, int64_t b);     // asserts a == b and lets the engine replace a by b from here on
void __tc_sym(void* p, size_t n, const char* name);
uint64_t __tc_var(const char* name, int bits);
int64_t __tc_range(int64_t lo, int64_t hi, const char* name);
int64_t __tc_choose(int64_t n, const char* name);
uint64_t __tc_concretize(uint64_t v);
void __tc_cover(const char* tag);
[[noreturn]] void __tc_fail(const char* msg);
[[noreturn]] void __tc_halt();
[[noreturn]] void __tc_unsupported(const char* what);
int __tc_is_symbolic(uint64_t v);
void __tc_log(const char* what, int64_t v);
void __tc_ghost(int delta);
void __tc_norace(void* p);
uint64_t __tc_obj_size(void* p);
void __tc_config(int key, int64_t v);
int64_t __tc_get_config(int key);
int64_t __tc_now();
void __tc_set_now(int64_t t);
void __tc_sleep_until(int64_t t);
void __tc_quiesce(int afterTimeouts);
int __tc_thread_self();
int __tc_threads_live();
int __tc_thread_state(int id);          // 0 runnable 1 blocked 2 waiting with deadline 3 finished 4 waiting for a mutex
int __tc_thread_create(void (*f)(void*), void* arg);
void __tc_thread_join(int id);
void __tc_mutex_lock(void* m);
int __tc_mutex_trylock(void* m);
void __tc_mutex_unlock(void* m);
int __tc_mutex_owned(void* m);
int __tc_cond_wait(void* c, void* m, int64_t deadline, int has);   // 1: timed out
void __tc_cond_signal(void* c, int all);
int __tc_futex_wait(void* p, uint32_t expect, int64_t deadline, int has);
int __tc_futex_wake(void* p, int n);
[[noreturn]] void __tc_unwind(void* exc);
void* __tc_static_alloc(size_t n);
}
