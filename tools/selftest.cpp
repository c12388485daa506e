#include "common.h"
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <deque>
#include <functional>
#include <shared_mutex>
#include <cassert>
#include <variant>
#include <any>
#include <string>
#include <algorithm>
namespace { struct G { int* o; ~G() { *o = std::uncaught_exceptions(); } };
void cont() {
  std::list<int> l; for (int i = 0; i < 5; ++i) l.push_back(i); l.erase(std::next(l.begin(), 2)); l.splice(l.begin(), l, std::prev(l.end())); int a = 0; for (int x : l) a = a * 10 + x; VP_ASSERT(a == 4013, "list");
  std::map<int, int> m; int ks[] = {5, 1, 9, 3, 7, 0, 2, 8}; for (int k : ks) m[k] = k * k; m.erase(5); m.erase(0); m.erase(9); int s = 0; for (auto& p : m) s = s * 10 + p.first; VP_ASSERT(s == 12378, "map"); s = 0; for (auto it = m.rbegin(); it != m.rend(); ++it) s = s * 10 + it->first; VP_ASSERT(s == 87321, "map rev"); for (int k : ks) m.erase(k); VP_ASSERT(m.empty(), "empty"); m[3] = 1; VP_ASSERT(m.begin()->second == 1, "reuse");
  std::unordered_map<int, int> u; for (int i = 0; i < 100; ++i) u[i * 7] = i; for (int i = 0; i < 100; i += 2) u.erase(i * 7); int c = 0; for (auto& p : u) c += p.second; VP_ASSERT(c == 2500 && u.size() == 50, "umap"); u.reserve(300); VP_ASSERT(u.at(7) == 1, "at"); bool th = false; try { u.at(1); } catch (const std::out_of_range&) { th = true; } VP_ASSERT(th, "at throws");
  std::unordered_map<void*, std::string> us; us[&c] = "hello"; us[&s] = "a rather long string that is not stored inline"; VP_ASSERT(us[&c] == "hello" && us[&s].size() > 20, "strings");
  std::deque<std::function<int(int)>> d; int x = vp_int("x"); for (int i = 0; i < 40; ++i) d.push_back([i, x](int y) { return i + x + y; }); d.pop_front(); VP_ASSERT(d.front()(1) == 2 + x, "deque of functions");
  int un = -1; try { G g{&un}; throw 1; } catch (int) { VP_ASSERT(un == 1 && std::uncaught_exceptions() == 0, "uncaught"); }
  std::recursive_mutex rm; rm.lock(); rm.lock(); rm.unlock(); rm.unlock(); std::shared_mutex sm; { std::shared_lock<std::shared_mutex> a1(sm), a2(sm, std::try_to_lock); VP_ASSERT(bool(a2), "shared"); } { std::unique_lock<std::shared_mutex> a3(sm); } { std::shared_timed_mutex t; std::shared_lock<std::shared_timed_mutex> q(t); }
  auto sp = std::make_shared<int>(3); auto sq = std::atomic_load(&sp); std::atomic_store(&sp, std::make_shared<int>(4)); VP_ASSERT(*sq == 3 && *sp == 4, "atomic shared_ptr");
  std::variant<int, std::string> v = 3; v = std::string("q"); VP_ASSERT(std::get<1>(v) == "q", "variant"); std::any an = 5; VP_ASSERT(std::any_cast<int>(an) == 5, "any"); th = false; try { std::get<0>(v); } catch (const std::bad_variant_access&) { th = true; } VP_ASSERT(th, "bad variant");
  std::vector<int> w{3, 1, 2}; std::sort(w.begin(), w.end()); std::stable_sort(w.begin(), w.end()); VP_ASSERT(w[0] == 1 && w.at(2) == 3, "sort"); std::vector<bool> vb(100); vb[70] = true; VP_ASSERT(vb[70] && !vb[71], "vector<bool>"); static thread_local int tl = 5; ++tl; assert(tl == 6); std::set<int*> st; st.insert(&c); VP_ASSERT(st.count(&c) == 1, "set"); vp_cover(1);
  std::hash<std::string> hs; VP_ASSERT(hs("abc") == hs("abc"), "hash"); std::once_flag of; int once = 0; std::call_once(of, [&] { ++once; }); std::call_once(of, [&] { ++once; }); VP_ASSERT(once == 1, "once");
}}
extern "C" void self_cont() { cont(); }
