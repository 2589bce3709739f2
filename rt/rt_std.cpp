// Out-of-line parts of libstdc++ needed by the code under test.
#include "tc_prim.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <future>
#include <ios>
#include <list>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <any>
namespace std {
exception::~exception() noexcept = default; const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept = default; const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept = default; const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept = default; const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept = default; const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept = default; const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept = default; const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept = default; const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() = default; bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
static char* tc_dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = tc_dup("", 0); }
__cow_string::__cow_string(const string& s) { _M_p = tc_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = tc_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = tc_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = tc_dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = tc_dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept = default; const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept = default; const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SUB(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept = default;
SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error)
SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)
system_error::~system_error() noexcept = default;
future_error::~future_error() noexcept = default; const char* future_error::what() const noexcept { return logic_error::what(); }
// error categories
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct tc_cat : error_category { const char* n; constexpr tc_cat(const char* s) : n(s) {} const char* name() const noexcept override { return n; } string message(int) const override { return n; } };
static tc_cat tc_k[4] = {tc_cat("generic"), tc_cat("system"), tc_cat("future"), tc_cat("iostream")}; static const tc_cat& tc_c(int k) { return tc_k[k]; }
const error_category& generic_category() noexcept { return tc_c(0); }
const error_category& system_category() noexcept { return tc_c(1); }
}
const error_category& future_category() noexcept { return tc_c(2); }
const error_category& iostream_category() noexcept { return tc_c(3); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
ios_base::failure::failure(const string& s) : system_error(error_code(1, iostream_category()), s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() = default; const char* ios_base::failure::what() const noexcept { return system_error::what(); }
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
struct tc_future_error : future_error { explicit tc_future_error(int e) : future_error((future_errc)e) {} };
void __throw_future_error(int e) { throw future_error((future_errc)e); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s, error_code(1, iostream_category())); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s, error_code(1, iostream_category())); }
void __throw_bad_optional_access_(); 
const nothrow_t nothrow{};

// hashing as in libstdc++ (MurmurHash64A)
static inline size_t shift_mix(size_t v) { return v ^ (v >> 47); }
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const unsigned char* p = (const unsigned char*)ptr; const unsigned char* end = p + (len & ~(size_t)7); size_t h = seed ^ (len * mul);
  for (; p != end; p += 8) { size_t v; memcpy(&v, p, 8); h ^= shift_mix(v * mul) * mul; h *= mul; }
  if (len & 7) { size_t v = 0; for (int i = (int)(len & 7) - 1; i >= 0; i--) v = (v << 8) + p[i]; h ^= v; h *= mul; }
  return shift_mix(shift_mix(h) * mul);
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541};
  if (n == 0) return 1; for (size_t p : P) if (p >= n) { _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor); return p; } __tc_unsupported("large hash table");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { size_t m = elt + ins; if (!_M_next_resize && m < 11) m = 11; if (m >= bkt) { size_t want = m + 1; if (want < bkt * 2) want = bkt * 2; return {true, _M_next_bkt(want)}; } _M_next_resize = bkt; }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { __tc_unsupported("list swap"); }
}
// red-black trees
typedef _Rb_tree_node_base N;
static N* inc(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static N* decr(N* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
N* _Rb_tree_increment(N* x) noexcept { return inc(x); } const N* _Rb_tree_increment(const N* x) noexcept { return inc(const_cast<N*>(x)); } N* _Rb_tree_decrement(N* x) noexcept { return decr(x); } const N* _Rb_tree_decrement(const N* x) noexcept { return decr(const_cast<N*>(x)); }
static void rotl(N* x, N*& root) { N* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(N* x, N*& root) { N* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& header) noexcept {
  N*& root = header._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N* xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { N* y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { N* y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } }
  }
  root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* z, N& header) noexcept {
  N*& root = header._M_parent; N*& leftmost = header._M_left; N*& rightmost = header._M_right; N *y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        N* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
      } else {
        N* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
}
