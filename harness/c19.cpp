// C19: optional comparisons form one consistent total order with nullopt least.
#include "common.h"
#include "optional.hpp"
namespace {
using opt::optional; using opt::nullopt;
int accesses;
struct Cls { int v; bool live; Cls(int x) : v(x), live(true) {} Cls(const Cls& o) : v(o.v), live(o.live) {} ~Cls() { live = false; }
  void ok() const { ++accesses; VP_ASSERT(live, "a comparison accesses a live value"); } 
  friend bool operator==(const Cls& a, const Cls& b) { a.ok(); b.ok(); return a.v == b.v; } friend bool operator!=(const Cls& a, const Cls& b) { a.ok(); b.ok(); return a.v != b.v; } friend bool operator<(const Cls& a, const Cls& b) { a.ok(); b.ok(); return a.v < b.v; }
  friend bool operator>(const Cls& a, const Cls& b) { a.ok(); b.ok(); return a.v > b.v; } friend bool operator<=(const Cls& a, const Cls& b) { a.ok(); b.ok(); return a.v <= b.v; } friend bool operator>=(const Cls& a, const Cls& b) { a.ok(); b.ok(); return a.v >= b.v; } };
enum E3 { E_A, E_B, E_C };
int arr[8];
template <class T> struct Mk; template <> struct Mk<int> { static int mk(int v) { return v; } static long long key(int v) { return v; } }; template <> struct Mk<unsigned char> { static unsigned char mk(int v) { return (unsigned char)v; } static long long key(int v) { return (unsigned char)v; } }; template <> struct Mk<bool> { static bool mk(int v) { return v & 1; } static long long key(int v) { return v & 1; } };
template <> struct Mk<Cls> { static Cls mk(int v) { return Cls(v); } static long long key(int v) { return v; } }; template <> struct Mk<unsigned> { static unsigned mk(int v) { return (unsigned)v; } static long long key(int v) { return (unsigned)v; } }; template <> struct Mk<long long> { static long long mk(int v) { return (long long)v << 20; } static long long key(int v) { return v; } }; template <> struct Mk<E3> { static E3 mk(int v) { return (E3)((unsigned)v % 3); } static long long key(int v) { return (unsigned)v % 3; } };
template <> struct Mk<int*> { static int* mk(int v) { return arr + (v & 7); } static long long key(int v) { return v & 7; } };
// expected order as an integer: disengaged least
struct Ord { bool e; long long k; }; bool lt(Ord a, Ord b) { return b.e && (!a.e || a.k < b.k); } bool eq(Ord a, Ord b) { return a.e == b.e && (!a.e || a.k == b.k); }
#define SIX(x, y, a, b, what) do { VP_ASSERT(((x) == (y)) == eq(a, b), what " =="); VP_ASSERT(((x) != (y)) == !eq(a, b), what " !="); VP_ASSERT(((x) < (y)) == lt(a, b), what " <"); VP_ASSERT(((x) > (y)) == lt(b, a), what " >"); VP_ASSERT(((x) <= (y)) == !lt(b, a), what " <="); VP_ASSERT(((x) >= (y)) == !lt(a, b), what " >="); } while (0)
template <class T> void order() {
  int va = vp_int("a"), vb = vp_int("b"), vv = vp_int("v"); bool ea = vp_flag("ea"), eb = vp_flag("eb"); optional<T> x, y; if (ea) x.emplace(Mk<T>::mk(va)); if (eb) y.emplace(Mk<T>::mk(vb));
  if (vp_flag("stale")) { if (!ea) { x.emplace(Mk<T>::mk(vb)); x.reset(); } if (!eb) { y.emplace(Mk<T>::mk(va)); y = nullopt; } vp_cover(4); }   // the storage of a disengaged optional holds an old value
  Ord a{ea, Mk<T>::key(va)}, b{eb, Mk<T>::key(vb)}, n{false, 0}, v{true, Mk<T>::key(vv)}; const optional<T>& cx = x; const optional<T>& cy = y; const T val = Mk<T>::mk(vv);
  accesses = 0;
  SIX(cx, cy, a, b, "optional against optional"); if (!ea || !eb) VP_ASSERT(accesses == 0, "no value of a disengaged optional is accessed"); SIX(cx, cx, a, a, "optional against itself"); accesses = 0; SIX(cx, nullopt, a, n, "optional against nullopt"); SIX(nullopt, cx, n, a, "nullopt against optional"); VP_ASSERT(accesses == 0, "comparison with nullopt accesses no value");
  SIX(cx, val, a, v, "optional against value"); SIX(val, cx, v, a, "value against optional");
  VP_ASSERT(cx.has_value() == ea && cy.has_value() == eb, "comparisons never change the operands"); if (ea) VP_ASSERT(*cx == Mk<T>::mk(va), "nor their values"); vp_cover(ea ? (eb ? 1 : 2) : 3); vp_log(ea + 2 * eb);
}
template <class T, class R> void reforder() {
  int va = vp_int("a"), vb = vp_int("b"), vv = vp_int("v"); bool ea = vp_flag("ea"), eb = vp_flag("eb"); T ta = Mk<T>::mk(va), tb = Mk<T>::mk(vb); bool same = vp_flag("same"); optional<R> x, y; if (ea) x.emplace(ta); if (eb) y.emplace(same ? ta : tb); if (same) vb = va;
  Ord a{ea, Mk<T>::key(va)}, b{eb, Mk<T>::key(vb)}, n{false, 0}, v{true, Mk<T>::key(vv)}; const T val = Mk<T>::mk(vv);
  SIX(x, y, a, b, "reference against reference"); SIX(x, nullopt, a, n, "reference against nullopt"); SIX(nullopt, x, n, a, "nullopt against reference"); SIX(x, val, a, v, "reference against value"); SIX(val, x, v, a, "value against reference"); vp_cover(ea ? (eb ? 1 : 2) : 3);
  VP_ASSERT(ta == Mk<T>::mk(va), "comparisons never change the bound objects");
}
// order laws over three optionals, stated without reference to an oracle
template <class T> void laws() {
  optional<T> o[3]; for (auto& x : o) if (vp_flag("e")) x.emplace(Mk<T>::mk(vp_int("v"))); const auto &x = o[0], &y = o[1], &z = o[2];
  VP_ASSERT((x < y) + (x == y) + (x > y) == 1, "exactly one of less, equal, greater"); VP_ASSERT(!(x < y && y < z) || x < z, "transitive"); VP_ASSERT(!(x == y && y == z) || x == z, "equality is transitive"); VP_ASSERT((x <= y) == (x < y || x == y) && (x >= y) == (y <= x) && (x > y) == (y < x) && (x != y) == !(x == y), "the operators agree"); VP_ASSERT((x == y) == (y == x), "symmetric"); VP_ASSERT((x < nullopt) == false && (nullopt <= x) && (x >= nullopt), "nullopt is least"); vp_cover(1);
}
void voids() { optional<void> v; VP_ASSERT(v == nullopt && nullopt == v && !(v != nullopt) && !(nullopt != v) && !(v < nullopt) && !(nullopt < v) && v <= nullopt && nullopt <= v && !(v > nullopt) && !(nullopt > v) && v >= nullopt && nullopt >= v, "a void optional equals nullopt"); vp_cover(1); }
// optionals as they come out of emissions
void results() { sig::signal<int(int)> s; bool c = vp_flag("c"); int v = vp_int("v"), w = vp_int("w"); if (c) s.connect([](int x) { return x; }); auto r = s(v); VP_ASSERT((r == nullopt) == !c && (r != nullopt) == c && (r == w) == (c && v == w) && (r < w) == (!c || v < w) && (w > r) == (!c || w > v) && (r >= w) == (c && v >= w), "results compare like optionals"); vp_cover(1); }
}
extern "C" void c19_int() { order<int>(); }
extern "C" void c19_uchar() { order<unsigned char>(); }
extern "C" void c19_bool() { order<bool>(); }
extern "C" void c19_unsigned() { order<unsigned>(); }
extern "C" void c19_ll() { order<long long>(); }
extern "C" void c19_enum() { order<E3>(); }
extern "C" void c19_ptr() { order<int*>(); }
extern "C" void c19_cls() { order<Cls>(); }
extern "C" void c19_ref() { reforder<int, int&>(); }
extern "C" void c19_cref() { reforder<int, const int&>(); }
extern "C" void c19_refcls() { reforder<Cls, Cls&>(); }
extern "C" void c19_crefcls() { reforder<Cls, const Cls&>(); }
extern "C" void c19_laws() { laws<int>(); }
extern "C" void c19_lawscls() { laws<Cls>(); }
extern "C" void c19_void() { voids(); }
extern "C" void c19_results() { results(); }
