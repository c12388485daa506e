#include "common.h"
#include <condition_variable>
#include <thread>
#include <typeindex>
#include <exception>
#include <chrono>
#include <queue>
#include <bitset>
#include <numeric>
#include <array>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <memory>
#include <atomic>
#include <cstring>
#include <string>
namespace { struct E : std::enable_shared_from_this<E> { int v = 3; }; struct D { int* p; ~D() { ++*p; } }; int cnt; struct TL { std::vector<int> v; ~TL() { ++cnt; } };
TL& tls() { static thread_local TL t; return t; } TL& sta() { static TL t; return t; }
struct alignas(64) AL { int x; };
}
extern "C" void self_tls() { tls().v.push_back(1); tls().v.push_back(2); VP_ASSERT(tls().v.size() == 2, "tls"); sta().v.push_back(1); VP_ASSERT(sta().v.size() == 1, "static"); vp_cover(1); }
extern "C" void self_exc() { std::exception_ptr p; try { throw 5; } catch (...) { p = std::current_exception(); } int got = 0; try { std::rethrow_exception(p); } catch (int x) { got = x; } VP_ASSERT(got == 5, "rethrow"); auto q = p; p = nullptr; VP_ASSERT(!p && q, "ptr"); vp_cover(1); }
extern "C" void self_thr() { auto id = std::this_thread::get_id(); VP_ASSERT(id == std::this_thread::get_id() && id != std::thread::id(), "id"); std::this_thread::yield(); vp_cover(1); }
extern "C" void self_ti() { std::type_index a(typeid(int)), b(typeid(long)); VP_ASSERT(a != b && a == std::type_index(typeid(int)) && (a < b || b < a), "ti"); auto h = a.hash_code(); VP_ASSERT(h == std::hash<std::type_index>()(a), "h"); VP_ASSERT(std::strcmp(typeid(int).name(), "i") == 0, "nm"); vp_cover(1); }
extern "C" void self_time() { auto t = std::chrono::steady_clock::now(); auto u = std::chrono::steady_clock::now(); VP_ASSERT(u >= t, "mono"); vp_cover(1); }
extern "C" void self_misc() { auto e = std::make_shared<E>(); VP_ASSERT(e->shared_from_this()->v == 3, "esft"); auto w = e->weak_from_this(); e.reset(); VP_ASSERT(w.expired(), "exp"); std::priority_queue<int> q; q.push(3); q.push(9); VP_ASSERT(q.top() == 9, "pq"); std::bitset<70> b; b.set(65); VP_ASSERT(b.count() == 1, "bs"); std::array<int, 4> a{{4, 3, 2, 1}}; std::reverse(a.begin(), a.end()); VP_ASSERT(std::accumulate(a.begin(), a.end(), 0) == 10 && a[0] == 1, "arr"); std::vector<int> v{1, 2, 3, 4, 5}; v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x % 2; }), v.end()); std::rotate(v.begin(), v.begin() + 1, v.end()); VP_ASSERT(v.size() == 2 && v[0] == 4, "rot"); std::stable_partition(v.begin(), v.end(), [](int x) { return x == 2; }); VP_ASSERT(v[0] == 2, "sp"); std::unordered_set<void*> us; us.insert(&a); VP_ASSERT(us.count(&a) && !us.count(&v), "us"); std::unique_ptr<AL> al(new AL{3}); VP_ASSERT(al->x == 3, "al"); std::multimap<int, int> mm; mm.emplace(1, 2); mm.emplace(1, 3); VP_ASSERT(mm.count(1) == 2, "mm"); std::string s = std::to_string(42); s += "x"; VP_ASSERT(s == "42x", "str"); std::map<std::string, int> ms; ms["b"] = 1; ms["a"] = 2; VP_ASSERT(ms.begin()->second == 2, "ms");
 std::vector<int> src{3, 1, 2}; std::vector<int> dst(src); std::swap_ranges(src.begin(), src.end(), dst.begin()); VP_ASSERT(std::is_permutation(src.begin(), src.end(), dst.begin()), "perm"); dst.insert(dst.begin() + 1, 3, 7); VP_ASSERT(dst.size() == 6 && dst[2] == 7, "ins"); dst.shrink_to_fit(); dst.resize(2); std::make_heap(src.begin(), src.end()); VP_ASSERT(src.front() == 3, "heap"); auto it = std::lower_bound(dst.begin(), dst.end(), 3); (void)it; void* m = malloc(10); m = realloc(m, 20); free(m); m = calloc(2, 4); VP_ASSERT(*(int*)m == 0, "calloc"); free(m); vp_cover(1); }
extern "C" void self_spin() { std::atomic_flag f = ATOMIC_FLAG_INIT; VP_ASSERT(!f.test_and_set(), "f"); f.clear(); std::atomic<int> i{3}; i += 2; i.fetch_or(8); int ex = 13; VP_ASSERT(i.compare_exchange_strong(ex, 1) && i == 1, "cas"); std::atomic<void*> p{nullptr}; p = &i; VP_ASSERT(p.load() == &i, "ap"); std::atomic<unsigned char> c{255}; ++c; VP_ASSERT(c == 0, "uc"); std::atomic<E*> ep{nullptr}; ep.exchange(nullptr); vp_cover(1); }
extern "C" void self_cv() { std::mutex m; std::condition_variable cv; std::unique_lock<std::mutex> l(m); bool r = true; cv.wait(l, [&] { return r; }); cv.notify_all(); std::timed_mutex tm; tm.lock(); tm.unlock(); vp_cover(1); }
extern "C" void self_lock() { std::mutex a, b; std::lock(a, b); a.unlock(); b.unlock(); { std::scoped_lock s(a, b); } { std::lock_guard<std::mutex> g(a); VP_ASSERT(!a.try_lock() || true, "x"); } vp_cover(1); }
namespace { struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); } void unlock() { f.clear(std::memory_order_release); } };
struct SpinC { std::atomic<bool> b{false}; void lock() { for (;;) { bool e = false; if (b.compare_exchange_weak(e, true, std::memory_order_acquire)) return; while (b.load(std::memory_order_relaxed)) {} } } void unlock() { b.store(false, std::memory_order_release); } };
template<class L> struct SP { L l; int x = 0; static void w(void* p) { auto* s = (SP*)p; std::lock_guard<L> g(s->l); ++s->x; vp_event(); } };
template<class L> void spin() { SP<L> s; void (*fn[])(void*) = {&SP<L>::w, &SP<L>::w, &SP<L>::w}; void* a[] = {&s, &s, &s}; vp_parallel(3, fn, a); VP_ASSERT(s.x == 3, "spin"); vp_cover(1); }
struct CV { std::mutex m; std::condition_variable c; int n = 0; static void w(void* p) { auto* s = (CV*)p; std::unique_lock<std::mutex> l(s->m); s->c.wait(l, [&] { return s->n > 0; }); --s->n; } static void nt(void* p) { auto* s = (CV*)p; { std::lock_guard<std::mutex> l(s->m); ++s->n; } s->c.notify_one(); } };
}
extern "C" void self_spin1() { spin<Spin>(); }
extern "C" void self_spin2() { spin<SpinC>(); }
extern "C" void self_mtx() { spin<std::mutex>(); }
extern "C" void self_cvw() { CV s; void (*fn[])(void*) = {&CV::w, &CV::nt}; void* a[] = {&s, &s}; vp_parallel(2, fn, a); VP_ASSERT(s.n == 0, "cv"); vp_cover(1); }
extern "C" void self_cvdead() { CV s; void (*fn[])(void*) = {&CV::w, &CV::w, &CV::nt}; void* a[] = {&s, &s, &s}; vp_parallel(3, fn, a); VP_ASSERT(s.n == 0, "cv"); vp_cover(1); }
