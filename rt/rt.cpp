// Runtime library for the symbolic executor: the parts of libstdc++/libc that are not in headers.
// Not used when a counterexample is replayed natively (the real libraries are used there).
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <memory>
#include <chrono>
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <system_error>
#include <optional>
#include <variant>
#include <any>
#include <future>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cerrno>
#include <ctime>

template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
extern "C" { char __libc_single_threaded = 1; void *__dso_handle = nullptr; int *__errno_location() { static int e; return &e; } }
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "std::bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

static const char *dupz(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const string &s) { _M_p = dupz(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = dupz(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

#define EXC1(T) T::T(const string &s) : _M_msg(s) {} T::T(const char *s) : _M_msg(s, strlen(s)) {} T::~T() noexcept {} const char *T::what() const noexcept { return _M_msg._M_p; } \
  T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) {} T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T &&o) noexcept : exception(o), _M_msg(o._M_msg) {} T &T::operator=(T &&o) noexcept { _M_msg = o._M_msg; return *this; }
EXC1(logic_error)
EXC1(runtime_error)
#define EXC2(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
EXC2(domain_error, logic_error) EXC2(invalid_argument, logic_error) EXC2(length_error, logic_error) EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error) EXC2(overflow_error, runtime_error) EXC2(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw runtime_error("system_error"); }

// trees: plain binary search trees behind the red-black interface
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc(const_cast<_Rb_tree_node_base *>(x)); }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_parent->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  // unlink z
  _Rb_tree_node_base *next = inc(z), *prev = (z == h._M_left) ? nullptr : dec(z);
  bool wasL = z == h._M_left, wasR = z == h._M_right;
  _Rb_tree_node_base *rep;
  auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
    if (h._M_parent == a) h._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) { rep = z->_M_right; replace(z, rep); }
  else if (!z->_M_right) { rep = z->_M_left; replace(z, rep); }
  else {
    _Rb_tree_node_base *y = next; // has no left child
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (wasL) h._M_left = h._M_parent ? next : &h;
  if (wasR) h._M_right = h._M_parent ? (prev ? prev : next) : &h;
  if (h._M_parent) h._M_parent->_M_color = _S_black;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// one bucket: iteration order and lookups do not depend on hash values
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { _M_next_resize = (size_t)-1; return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}
size_t _Hash_bytes(const void *, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 0; }
} // std
extern "C" {
void verif_throw_bad_alloc() { throw std::bad_alloc(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
uint64_t verif_clock_ns() __attribute__((weak));
uint64_t verif_clock_ns() { static uint64_t t = 1600000000ull * 1000000000ull; return t; }
time_t time(time_t *t) { time_t r = (time_t)(verif_clock_ns() / 1000000000ull); if (t) *t = r; return r; }
}
namespace std {
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long)verif_clock_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long)verif_clock_ns())); }
} }
void thread::_M_start_thread(_State_ptr st, void (*)()) { st->_M_run(); _M_id._M_thread = 7; }
thread::_State::~_State() {}
void thread::join() { _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept {}
void condition_variable::notify_all() noexcept {}
void condition_variable::wait(unique_lock<mutex> &) {}
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct gcat : error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
static gcat g_gen, g_sys;
const error_category &generic_category() noexcept { return g_gen; }
const error_category &system_category() noexcept { return g_sys; }
}
}
