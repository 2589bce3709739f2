// Forced include: every random engine of <random> and random_device returns values chosen by the harness
// (contract: an engine returns arbitrary values of its result type).
#pragma once
#include <random>
#include <cstdint>
extern "C" uint32_t vf_next_random();
namespace std {
template <class T> struct vf_engine {
  using result_type = T; static constexpr T min() { return 0; } static constexpr T max() { return ~T(0); }
  static constexpr T default_seed = 1;
  vf_engine() {} template <class X> explicit vf_engine(X&&) {} vf_engine(const vf_engine&) {} vf_engine(vf_engine&) {} vf_engine& operator=(const vf_engine&) { return *this; }
  template <class... X> void seed(X&&...) {} void discard(unsigned long long n) { while (n--) (*this)(); }
  T operator()() { if constexpr (sizeof(T) == 8) { T h = vf_next_random(); return h << 32 | vf_next_random(); } else return vf_next_random(); }
};
struct vf_device { using result_type = unsigned; vf_device() {} explicit vf_device(const string&) {} static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } unsigned operator()() { return vf_next_random(); } double entropy() const { return 32; } };
using vf_engine32 = vf_engine<uint32_t>; using vf_engine64 = vf_engine<uint64_t>;
}
#define mt19937 vf_engine32
#define mt19937_64 vf_engine64
#define minstd_rand vf_engine32
#define minstd_rand0 vf_engine32
#define default_random_engine vf_engine32
#define random_device vf_device
