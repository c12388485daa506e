// Symbolic-mode runtime: C++ library pieces whose source is not in headers, written against the engine's primitives.
// operator new may fail symbolically (vp_alloc_fault), everything else mirrors libstdc++'s behaviour.
#include "vp.h"
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <memory>
#include <string>
template class std::basic_string<char>;
static void* vp_new(std::size_t n) {
  if (n > (1u << 23)) throw std::bad_alloc();
  if (vp_alloc_fault()) throw std::bad_alloc();
  return vp_malloc(n ? n : 1);
}
void* operator new(std::size_t n) { return vp_new(n); }
void* operator new[](std::size_t n) { return vp_new(n); }
void* operator new(std::size_t n, std::align_val_t) { return vp_new(n); }
void* operator new[](std::size_t n, std::align_val_t) { return vp_new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (n > (1u << 23) || vp_alloc_fault()) return nullptr; return vp_malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { if (n > (1u << 23) || vp_alloc_fault()) return nullptr; return vp_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vp_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vp_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vp_free(p); }
namespace std {
const nothrow_t nothrow{};
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const std::string&) : _M_p(nullptr) {}
__cow_string::__cow_string(const char*, size_t) : _M_p(nullptr) {}
__cow_string::__cow_string(const __cow_string&) noexcept : _M_p(nullptr) {}
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&&) noexcept : _M_p(nullptr) {}
__cow_string& __cow_string::operator=(__cow_string&&) noexcept { return *this; }
// The message strings of logic_error and runtime_error are not modelled (no property reads them).
logic_error::logic_error(const char* s) { (void)s; }
logic_error::logic_error(const string& s) { (void)s; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o) {}
logic_error& logic_error::operator=(const logic_error&) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "std::logic_error"; }
runtime_error::runtime_error(const char* s) { (void)s; }
runtime_error::runtime_error(const string& s) { (void)s; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o) {}
runtime_error& runtime_error::operator=(const runtime_error&) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "std::runtime_error"; }
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::~length_error() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
struct vp_system_error : runtime_error { vp_system_error() : runtime_error("system_error") {} };
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw vp_system_error(); }
}
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
// ---- node containers and atomic shared_ptr access, whose pieces live in libstdc++.so
#include <list>
#include <map>
#include <unordered_map>
#include <variant>
#include <optional>
#include <any>
#include <pthread.h>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base* tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933}; size_t r = 172933; for (size_t p : pr) if (p >= n) { r = p; break; }
  _M_next_resize = r; return r;   // maximum load factor 1
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > _M_next_resize) { size_t want = elt + ins > (_M_next_resize ? 0 : 11) ? elt + ins : 11; if (want >= bkt) return {true, _M_next_bkt(want + 1 > bkt * 2 ? want + 1 : bkt * 2)}; _M_next_resize = bkt; } return {false, 0}; }
}
// Search trees without rebalancing: the same order, links and iterators, only other shapes.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *nx = _Rb_tree_increment(z), *pv = z == h._M_left ? nullptr : _Rb_tree_decrement(z);
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  bool first = z == h._M_left, last = z == h._M_right;
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { if (first) h._M_left = nx; if (last) h._M_right = pv; }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ 1469598103934665603ULL; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ULL; return h; }
static pthread_mutex_t vp_sp_pool = PTHREAD_MUTEX_INITIALIZER;
_Sp_locker::_Sp_locker(const void*) noexcept { pthread_mutex_lock(&vp_sp_pool); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept { pthread_mutex_lock(&vp_sp_pool); }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&vp_sp_pool); }
}
#include <mutex>
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void)) { if (!__atomic_load_n(o, __ATOMIC_ACQUIRE)) { f(); __atomic_store_n(o, 2, __ATOMIC_RELEASE); } return 0; }

// ---- exception_ptr, condition variables (spurious wake-ups allowed: every notification wakes every waiter), clocks
#include <condition_variable>
#include <chrono>
extern "C" { void* vp_exc_current() noexcept; void vp_exc_ref(void*) noexcept; void vp_exc_unref(void*); [[noreturn]] void vp_exc_rethrow(void*); int sched_yield() noexcept; }
namespace std {
namespace __exception_ptr {
exception_ptr::exception_ptr(void* e) noexcept : _M_exception_object(e) { if (e) _M_addref(); }
void exception_ptr::_M_addref() noexcept { vp_exc_ref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { void* p = _M_exception_object; _M_exception_object = nullptr; vp_exc_unref(p); }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { void* p = vp_exc_current(); exception_ptr r; *(void**)&r = p; return r; }
void rethrow_exception(exception_ptr p) { void* o = *(void**)&p; vp_exc_rethrow(o); }
condition_variable::condition_variable() noexcept { *(int*)this = 0; }
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(0)); } system_clock::time_point system_clock::now() noexcept { return time_point(duration(0)); } } }
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept { __atomic_fetch_add((int*)c, 1, __ATOMIC_SEQ_CST); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { __atomic_fetch_add((int*)c, 1, __ATOMIC_SEQ_CST); return 0; }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { int v = __atomic_load_n((int*)c, __ATOMIC_SEQ_CST); pthread_mutex_unlock(m); while (__atomic_load_n((int*)c, __ATOMIC_SEQ_CST) == v) {} pthread_mutex_lock(m); return 0; }
