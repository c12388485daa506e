// C17: an optional holds exactly the last value put into it, or nothing.
#include "common.h"
#include "optional.hpp"
namespace {
using opt::optional; using opt::nullopt;
enum Col { RED, GREEN };
// how a T is made from a symbolic int and read back; U is a different, convertible element type
template <class T> struct Tr;
template <> struct Tr<int> { using U = short; static int mk(int v) { return v; } static U mku(int v) { return (short)v; } static int uval(int v) { return (short)v; } static int get(const int& t) { return t; } static const bool mv = false; };
template <> struct Tr<bool> { using U = int; static bool mk(int v) { return v & 1; } static U mku(int v) { return v; } static int uval(int v) { return v != 0; } static int get(const bool& t) { return t; } static const bool mv = false; };
template <> struct Tr<Obj> { using U = int; static Obj mk(int v) { return Obj(v); } static U mku(int v) { return v; } static int uval(int v) { return v; } static int get(const Obj& t) { return t.v; } static const bool mv = true; };
// both sides are classes that notice being moved from
struct Src { int v; Src(int x = 0) : v(x) {} Src(const Src& o) : v(o.v) {} Src(Src&& o) : v(o.v) { o.v = -78; } Src& operator=(const Src& o) { v = o.v; return *this; } Src& operator=(Src&& o) { int t = o.v; o.v = -78; v = t; return *this; } bool operator==(const Src& o) const { return v == o.v; } };
struct Dst { int v; explicit Dst(int x = 0) : v(x) {} Dst(const Src& o) : v(o.v) {} Dst(Src&& o) : v(o.v) { o.v = -79; } Dst(const Dst& o) : v(o.v) {} Dst(Dst&& o) : v(o.v) { o.v = -80; } Dst& operator=(const Dst& o) { v = o.v; return *this; } Dst& operator=(Dst&& o) { int t = o.v; o.v = -80; v = t; return *this; } bool operator==(const Dst& o) const { return v == o.v; } };
template <> struct Tr<Dst> { using U = Src; static Dst mk(int v) { return Dst(v); } static U mku(int v) { return Src(v); } static int uval(int v) { return v; } static int get(const Dst& t) { return t.v; } static const bool mv = true; };
template <> struct Tr<long long> { using U = int; static long long mk(int v) { return (long long)v * 3; } static U mku(int v) { return v; } static int uval(int v) { return v; } static int get(const long long& t) { return (int)t; } static const bool mv = false; };
int pool[4]; template <> struct Tr<int*> { using U = int*; static int* mk(int v) { return pool + (v & 3); } static U mku(int v) { return mk(v); } static int uval(int v) { return v & 3; } static int get(int* const& t) { return (int)(t - pool); } static const bool mv = false; };
template <class T> int mval(int v) { T t = Tr<T>::mk(v); return Tr<T>::get(t); }
struct M { bool e = false; int v = 0; bool any = false; };   // any: engaged with an unspecified (moved-from) value
enum { O_DEF, O_NONE, O_COPYV, O_MOVEV, O_COND, O_COPY, O_MOVE, O_INPL, O_INPLIF, O_MAKE, O_MAKEIF, O_CONVC, O_CONVM, A_LV, A_CLV, A_RV, A_COPY, A_MOVE, A_SELF, A_SELFM, A_NONE, A_CONVC, A_CONVM, A_RESET, A_EMPL, A_SWAP, A_SSWAP, A_USWAP, A_EMPTY, NOPS };
template <class T> struct W {
  using O = optional<T>; using U = typename Tr<T>::U; static const int N = 3; O* o[N]; M m[N]; optional<U>* u; M um;
  W() { for (auto& p : o) p = new O; u = new optional<U>; }
  ~W() { for (auto p : o) delete p; delete u; }
  void check() {
    for (int i = 0; i < N; ++i) {
      const O& c = *o[i]; VP_ASSERT(c.has_value() == m[i].e && bool(c) == m[i].e && c.is_initialized() == m[i].e && (c.get_ptr() != nullptr) == m[i].e, "engaged exactly when the last operation put a value in");
      if (m[i].e && !m[i].any) VP_ASSERT(Tr<T>::get(*c) == m[i].v, "holds the last value put in"); if (m[i].e) vp_log(m[i].any ? 1 : 2);
    }
    VP_ASSERT(u->has_value() == um.e, "a converted source keeps its state"); if (um.e && !um.any) VP_ASSERT(**u == Tr<T>::mku(um.v), "a converted source keeps its value");
  }
  void rep(int i, O* n) { delete o[i]; o[i] = n; }
  void put(int i, int raw) { m[i].e = true; m[i].any = false; m[i].v = mval<T>(raw); }
  void step() {
    int op = vp_pick(NOPS, "op"); int i = vp_pick(2, "i"), j = 1 - i; vp_cover(1 + op); int raw = vp_int("v"); bool cond;
    M old = m[i];
    switch (op) {
      case O_DEF: rep(i, new O); m[i] = M(); break;
      case O_NONE: rep(i, new O(nullopt)); m[i] = M(); break;
      case O_COPYV: { const T v = Tr<T>::mk(raw); rep(i, new O(v)); put(i, raw); VP_ASSERT(Tr<T>::get(v) == mval<T>(raw), "the source value is unchanged"); break; }
      case O_MOVEV: { rep(i, new O(Tr<T>::mk(raw))); put(i, raw); break; }
      case O_COND: { cond = vp_flag("cond"); rep(i, new O(cond, Tr<T>::mk(raw))); m[i] = M(); if (cond) put(i, raw); break; }
      case O_COPY: { const O& c = *o[j]; rep(i, new O(c)); m[i] = m[j]; break; }
      case O_MOVE: { rep(i, new O(std::move(*o[j]))); m[i] = m[j]; if (Tr<T>::mv) m[j].any = m[j].e; break; }
      case O_INPL: { rep(i, new O(opt::in_place, Tr<T>::mk(raw))); put(i, raw); break; }
      case O_INPLIF: { cond = vp_flag("cond"); rep(i, new O(opt::in_place_if, cond, Tr<T>::mk(raw))); m[i] = M(); if (cond) put(i, raw); break; }
      case O_MAKE: { rep(i, new O(opt::make_optional(Tr<T>::mk(raw)))); put(i, raw); break; }
      case O_MAKEIF: { cond = vp_flag("cond"); rep(i, new O(opt::make_optional(cond, Tr<T>::mk(raw)))); m[i] = M(); if (cond) put(i, raw); break; }
      case O_CONVC: { const optional<U>& c = *u; rep(i, new O(c)); m[i] = M(); if (um.e) { m[i].e = true; m[i].v = Tr<T>::uval(um.v); } break; }
      case O_CONVM: { optional<U> t(*u); rep(i, new O(std::move(t))); VP_ASSERT(t.has_value() == um.e, "source state"); m[i] = M(); if (um.e) { m[i].e = true; m[i].v = Tr<T>::uval(um.v); } break; }
      case A_LV: { T v = Tr<T>::mk(raw); *o[i] = v; put(i, raw); VP_ASSERT(Tr<T>::get(v) == mval<T>(raw), "the source value is unchanged"); break; }
      case A_CLV: { const T v = Tr<T>::mk(raw); *o[i] = v; put(i, raw); break; }
      case A_RV: { *o[i] = Tr<T>::mk(raw); put(i, raw); break; }
      case A_COPY: { *o[i] = static_cast<const O&>(*o[j]); m[i] = m[j]; break; }
      case A_MOVE: { *o[i] = std::move(*o[j]); m[i] = m[j]; if (Tr<T>::mv) m[j].any = m[j].e; break; }
      case A_SELF: { O& r = *o[i]; *o[i] = r; break; }
      case A_SELFM: { O& r = *o[i]; *o[i] = std::move(r); break; }
      case A_NONE: *o[i] = nullopt; m[i] = M(); break;
      case A_CONVC: { *o[i] = static_cast<const optional<U>&>(*u); m[i] = M(); if (um.e) { m[i].e = true; m[i].v = Tr<T>::uval(um.v); } break; }
      case A_CONVM: { optional<U> t(*u); *o[i] = std::move(t); m[i] = M(); if (um.e) { m[i].e = true; m[i].v = Tr<T>::uval(um.v); } break; }
      case A_RESET: o[i]->reset(); m[i] = M(); break;
      case A_EMPL: { o[i]->emplace(Tr<T>::mk(raw)); put(i, raw); break; }
      case A_SWAP: { o[i]->swap(*o[j]); std::swap(m[i], m[j]); break; }
      case A_SSWAP: { std::swap(*o[i], *o[j]); std::swap(m[i], m[j]); break; }
      case A_USWAP: { using std::swap; swap(*o[i], *o[2]); std::swap(m[i], m[2]); break; }
      case A_EMPTY: { *o[i] = O(); m[i] = M(); break; }
    }
    (void)old; check();
  }
};
template <class T> void machine(int steps) {
  int64_t l0 = vp_live();
  {
    W<T> w; using Tt = Tr<T>; for (int i = 0; i < 3; ++i) if (vp_flag("init")) { int v = vp_int("v"); delete w.o[i]; w.o[i] = new optional<T>(Tt::mk(v)); w.put(i, v); }
    if (vp_flag("uinit")) { int v = vp_int("u"); *w.u = Tt::mku(v); w.um.e = true; w.um.v = v; }
    w.check(); for (int s = 0; s < steps; ++s) w.step();
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// reference optionals and void optionals as values
void refs(int steps) {
  int x[3] = {vp_int("x0"), vp_int("x1"), vp_int("x2")}; int y[3] = {x[0], x[1], x[2]}; optional<int&> o[2]; int at[2] = {-1, -1};
  for (int s = 0; s < steps; ++s) {
    int i = vp_pick(2, "i"), k = vp_pick(3, "k"), op = vp_pick(11, "op"); vp_cover(1 + op);
    switch (op) {
      case 0: o[i] = optional<int&>(x[k]); at[i] = k; break; case 1: o[i] = o[1 - i]; at[i] = at[1 - i]; break; case 2: o[i] = nullopt; at[i] = -1; break; case 3: o[i].reset(); at[i] = -1; break; case 4: o[i].emplace(x[k]); at[i] = k; break;
      case 5: o[0].swap(o[1]); std::swap(at[0], at[1]); break; case 6: std::swap(o[0], o[1]); std::swap(at[0], at[1]); break; case 7: { optional<int&> c(o[i]); o[1 - i] = std::move(c); at[1 - i] = at[i]; break; } case 8: o[i] = opt::make_optional(std::ref(x[k])); at[i] = k; break;
      case 9: { optional<int&> c(opt::in_place, x[k]); o[i] = c; at[i] = k; break; } case 10: { o[i] = o[i]; optional<int&> n(nullopt); VP_ASSERT(!n, "nullopt"); break; }
    }
    for (int q = 0; q < 2; ++q) { VP_ASSERT(o[q].has_value() == (at[q] >= 0) && bool(o[q]) == (at[q] >= 0), "engaged exactly when bound"); if (at[q] >= 0) VP_ASSERT(&*o[q] == &x[at[q]], "bound to the last object"); } for (int q = 0; q < 3; ++q) VP_ASSERT(x[q] == y[q], "binding never assigns through");
  }
}
void voids() {
  optional<void> a, b(nullopt), c(a); int x = vp_int("x"); switch (vp_pick(6, "op")) { case 0: a = nullopt; break; case 1: a = b; break; case 2: a.emplace(x); break; case 3: a.swap(b); break; case 4: a.reset(); break; case 5: a = x; break; } VP_ASSERT(!a && !a.has_value() && !b && !c, "void optionals are always disengaged"); vp_cover(1);
}
// element types that need several constructor arguments, initializer lists, or are not copyable / not movable
struct Two { int a, b; Two(int x, int y) : a(x), b(y) {} }; struct IL { int n, first, extra; IL(std::initializer_list<int> l, int e = 0) : n((int)l.size()), first(*l.begin()), extra(e) {} };
struct MO { int v; MO(int x) : v(x) {} MO(MO&& o) : v(o.v) { o.v = -1; } MO& operator=(MO&& o) { v = o.v; o.v = -1; return *this; } MO(const MO&) = delete; MO& operator=(const MO&) = delete; };
struct Agg { int a[4]; Agg(int x) { for (int i = 0; i < 4; ++i) a[i] = x + i; } };
struct alignas(64) Al { int v; long long d; Al(int x) : v(x), d(x & 7) {} };
struct Amp { int v; Amp(int x) : v(x) {} Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } bool operator==(const Amp& o) const { return v == o.v; } };   // only std::addressof gives its address
struct Comma { int v; Comma(int x) : v(x) {} template <class T> void operator,(const T&) const { VP_ASSERT(false, "overloaded comma called"); } };
void special() {
  int x = vp_int("x"), y = vp_int("y"), z = vp_int("z"); bool c = vp_flag("c"); int k = vp_pick(15, "k"); vp_cover(1 + k);
  switch (k) {
    case 0: { optional<Two> o(opt::in_place, x, y); VP_ASSERT(o && o->a == x && o->b == y, "in place"); o.emplace(z, x); VP_ASSERT(o && o->a == z && o->b == x, "emplace"); break; }
    case 1: { optional<Two> o(opt::in_place_if, c, x, y); VP_ASSERT(bool(o) == c && (!c || (o->a == x && o->b == y)), "conditional"); o.emplace(z, y); VP_ASSERT(o && o->a == z && o->b == y, "emplace"); o = nullopt; VP_ASSERT(!o, "none"); break; }
    case 2: { optional<IL> o(opt::in_place, {x, y, z}); VP_ASSERT(o && o->n == 3 && o->first == x, "initializer list"); optional<IL> p(opt::in_place, {y, z}, x); VP_ASSERT(p && p->n == 2 && p->first == y && p->extra == x, "list and argument"); o = p; VP_ASSERT(o->n == 2 && o->extra == x, "copy"); break; }
    case 3: { optional<IL> o(opt::in_place_if, c, {x, y}, z); VP_ASSERT(bool(o) == c && (!c || (o->n == 2 && o->first == x && o->extra == z)), "conditional list"); break; }
    case 4: { optional<MO> o(MO{x}); optional<MO> p; p = std::move(o); VP_ASSERT(p && p->v == x && o, "move only"); optional<MO> q(std::move(p)); VP_ASSERT(q && q->v == x && p, "move construct"); q = MO(y); VP_ASSERT(q && q->v == y, "assign"); q.swap(p); VP_ASSERT(p && p->v == y && q, "swap"); optional<MO> e; e.swap(p); VP_ASSERT(e && e->v == y && !p, "swap with a disengaged one"); break; }
    case 5: { optional<Agg> o(Agg{x}), p; if (c) p = o; VP_ASSERT(bool(p) == c, "copy"); if (c) for (int i = 0; i < 4; ++i) VP_ASSERT(p->a[i] == x + i && o->a[i] == x + i, "whole object"); break; }
    case 6: { auto o = opt::make_optional<Two>(x, y); VP_ASSERT(o && o->a == x && o->b == y, "make_optional"); break; }
    case 7: { optional<const int> o(x); VP_ASSERT(o && *o == x, "const element"); optional<const int> p(o); VP_ASSERT(p && *p == x, "copy"); p.reset(); VP_ASSERT(!p, "reset"); p.emplace(y); VP_ASSERT(p && *p == y, "emplace"); break; }
    case 8: { optional<Col> o; VP_ASSERT(!o, "enum"); o = GREEN; VP_ASSERT(o && *o == GREEN, "enum"); optional<Col> p = o; o = RED; VP_ASSERT(*p == GREEN && *o == RED, "copies are independent"); break; }
    case 9: { optional<optional<int>> o; VP_ASSERT(!o, "nested"); o.emplace(x); VP_ASSERT(o && *o && **o == x, "nested"); o.emplace(nullopt); VP_ASSERT(o && !*o, "engaged with a disengaged one"); break; }
    case 10: { optional<int> o = x; optional<bool> b; b = optional<bool>(c); VP_ASSERT(b && *b == c, "bool value is not the engaged state"); b = optional<bool>(c, bool(x & 1)); VP_ASSERT(bool(b) == c && (!c || *b == bool(x & 1)), "conditional bool"); b = false; VP_ASSERT(b && !*b, "engaged with false"); VP_ASSERT(o && *o == x, "bystander"); break; }
    case 12: { struct H { char c; optional<Al> o; char d; optional<double> e; } h[2]; for (auto& q : h) { q.c = q.d = 1; q.o = Al(x); q.e = 1.5; } for (auto& q : h) { VP_ASSERT((reinterpret_cast<uintptr_t>(q.o.get_ptr()) & 63) == 0 && (reinterpret_cast<uintptr_t>(q.e.get_ptr()) & 7) == 0, "elements are aligned"); VP_ASSERT(q.o->v == x && q.o->d == (x & 7) && *q.e == 1.5 && q.c == 1 && q.d == 1, "and hold their value, and nothing next to them changes"); } h[0].o.swap(h[1].o); h[1].o = h[0].o; VP_ASSERT(h[1].o->v == x && h[0].d == 1 && h[1].c == 1, "again"); break; }
    case 13: { optional<Amp> o(Amp{x}), p; p = o; VP_ASSERT(p && (*p).v == x && p->v == x && p.value().v == x && p.get_ptr()->v == x, "an element with its own operator&"); p.emplace(y); p.swap(o); VP_ASSERT(o->v == y && p->v == x, "swapped"); o.reset(); VP_ASSERT(!o && p.get_ptr() != nullptr, "reset"); Amp a(z), b(y); optional<Amp&> r(a); VP_ASSERT(std::addressof(*r) == std::addressof(a) && r->v == z, "bound to the object"); r = optional<Amp&>(b); VP_ASSERT(std::addressof(*r) == std::addressof(b), "rebound"); r.emplace(a); VP_ASSERT(std::addressof(r.value()) == std::addressof(a) && a.v == z && b.v == y, "emplaced"); break; }
    case 14: { optional<Comma> o(Comma{x}), p(o); p = Comma(y); o.swap(p); VP_ASSERT(o->v == y && p->v == x, "an element with its own comma"); struct Big { int a[40]; int last; Big(int q) : last(q) { for (int& t : a) t = q; } }; optional<Big> bo(Big{x}), bp; bp = bo; bo = Big(y); VP_ASSERT(bp->a[0] == x && bp->a[39] == x && bp->last == x && bo->last == y && bo->a[20] == y, "large elements"); std::swap(bo, bp); VP_ASSERT(bo->a[39] == x && bp->last == y, "large elements swapped"); break; }
    case 11: { int v = x; auto o = opt::make_optional(v); auto p = opt::make_optional(std::ref(v)); v = y; VP_ASSERT(o && *o == x && p && *p == y, "make_optional copies values and binds references"); *p = z; VP_ASSERT(v == z && *o == x, "alias"); break; }
  }
}
}
extern "C" void c17_int() { machine<int>(Q(2, 3)); }
extern "C" void c17_obj() { machine<Obj>(Q(2, 3)); }
extern "C" void c17_conv() { machine<Dst>(Q(2, 3)); }
extern "C" void c17_bool() { machine<bool>(Q(1, 2)); }
extern "C" void c17_ptr() { machine<int*>(Q(1, 2)); }
extern "C" void c17_ll() { machine<long long>(Q(1, 2)); }
extern "C" void c17_refs() { refs(Q(2, 4)); }
extern "C" void c17_void() { voids(); }
extern "C" void c17_special() { special(); }
