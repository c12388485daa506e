// C20: accessors yield the value, the fallback, or bad_optional_access.
#include "common.h"
#include "optional.hpp"
namespace {
using opt::optional; using opt::nullopt;
struct P { int v, w; int moved = 0, copied = 0; P(int x, int y = 0) : v(x), w(y) {} P(const P& o) : v(o.v), w(o.w), copied(o.copied + 1) {} P(P&& o) : v(o.v), w(o.w), moved(o.moved + 1) { o.v = -5; } P& operator=(const P& o) { v = o.v; w = o.w; return *this; } P& operator=(P&& o) { v = o.v; w = o.w; o.v = -5; return *this; } int get() const { return v; } };
template <class T> struct Tr; template <> struct Tr<int> { static int mk(int v) { return v; } static int rd(const int& t) { return t; } static void wr(int& t, int v) { t = v; } }; template <> struct Tr<P> { static P mk(int v) { return P(v); } static int rd(const P& t) { return t.v; } static void wr(P& t, int v) { t.v = v; } }; template <> struct Tr<unsigned char> { static unsigned char mk(int v) { return (unsigned char)v; } static int rd(const unsigned char& t) { return t; } static void wr(unsigned char& t, int v) { t = (unsigned char)v; } };
template <class T> int val(int v) { return Tr<T>::rd(Tr<T>::mk(v)); }
template <class F> bool throws(F f) { try { f(); return false; } catch (const opt::bad_optional_access&) { return true; } }
// a non-rvalue accessor changes nothing
template <class T> void access() {
  int v = vp_int("v"), f = vp_int("f"), n = vp_int("n"); bool e = vp_flag("e"); optional<T> o; if (e) o = Tr<T>::mk(v); else if (vp_flag("stale")) { o = Tr<T>::mk(n); o.reset(); } const optional<T>& c = o; T fb = Tr<T>::mk(f); const T cfb = Tr<T>::mk(f); T* gp = o.get_ptr(); int ev = val<T>(v), ef = val<T>(f);
  VP_ASSERT((gp != nullptr) == e && (c.get_ptr() != nullptr) == e && opt::get_pointer(o) == gp && opt::get_pointer(c) == gp && opt::get(&o) == gp && opt::get(&c) == gp, "the pointer accessors are null exactly when disengaged");
  VP_ASSERT(bool(o) == e && o.has_value() == e && o.is_initialized() == e, "state");
  VP_ASSERT(throws([&] { (void)o.value(); }) == !e && throws([&] { (void)c.value(); }) == !e, "value() throws bad_optional_access exactly when disengaged");
  VP_ASSERT(Tr<T>::rd(c.value_or(fb)) == (e ? ev : ef) && Tr<T>::rd(o.value_or(Tr<T>::mk(f))) == (e ? ev : ef) && Tr<T>::rd(c.value_or(cfb)) == (e ? ev : ef), "value_or gives the value or the fallback");
  VP_ASSERT(&c.get_value_or(cfb) == (e ? gp : &cfb) && &o.get_value_or(fb) == (e ? gp : &fb), "get_value_or refers to the value or the fallback"); VP_ASSERT(&opt::get_optional_value_or(c, cfb) == (e ? gp : &cfb) && &opt::get_optional_value_or(o, fb) == (e ? gp : &fb), "so does get_optional_value_or");
  VP_ASSERT(Tr<T>::rd(fb) == ef && Tr<T>::rd(cfb) == ef, "the fallback is not changed"); VP_ASSERT(bool(o) == e, "accessors do not change the state");
  if (e) {
    VP_ASSERT(&*o == gp && &*c == gp && o.operator->() == gp && c.operator->() == gp && &o.get() == gp && &c.get() == gp && &o.value() == gp && &c.value() == gp && &opt::get(o) == gp && &opt::get(c) == gp, "all accessors give the held object itself"); VP_ASSERT(Tr<T>::rd(*c) == ev, "and its value");
    int how = vp_pick(8, "how"); vp_cover(10 + how); T* r = nullptr; switch (how) { case 0: r = &*o; break; case 1: r = o.operator->(); break; case 2: r = &o.get(); break; case 3: r = &o.value(); break; case 4: r = o.get_ptr(); break; case 5: r = &opt::get(o); break; case 6: r = &o.get_value_or(fb); break; default: r = opt::get_pointer(o); break; }
    Tr<T>::wr(*r, n); VP_ASSERT(o && Tr<T>::rd(*c) == val<T>(n) && Tr<T>::rd(c.value()) == val<T>(n) && Tr<T>::rd(c.value_or(cfb)) == val<T>(n), "a change through any accessor is a change of the held value"); vp_cover(1);
  } else { vp_cover(2); T& r = o.get_value_or(fb); Tr<T>::wr(r, n); VP_ASSERT(!o && Tr<T>::rd(fb) == val<T>(n), "the fallback reference is the caller's object"); }
}
// rvalue accessors give the value (moving it out is all they may change)
template <class T> void rvalue() {
  int v = vp_int("v"), f = vp_int("f"); bool e = vp_flag("e"); optional<T> o; if (e) o = Tr<T>::mk(v); int how = vp_pick(3, "how"); vp_cover(1 + how); if (!e && how == 1) return; int ev = val<T>(v), ef = val<T>(f);
  switch (how) { case 0: { bool t = false; try { T r = std::move(o).value(); VP_ASSERT(Tr<T>::rd(r) == ev, "rvalue value()"); } catch (const opt::bad_optional_access&) { t = true; } VP_ASSERT(t == !e, "throws exactly when disengaged"); break; } case 1: { T r = *std::move(o); VP_ASSERT(Tr<T>::rd(r) == ev, "rvalue dereference"); break; } default: { T r = std::move(o).value_or(Tr<T>::mk(f)); VP_ASSERT(Tr<T>::rd(r) == (e ? ev : ef), "rvalue value_or"); break; } }
  VP_ASSERT(bool(o) == e, "still engaged"); if (e) { o = Tr<T>::mk(f); VP_ASSERT(Tr<T>::rd(*o) == ef, "usable"); }
}
void moves() {   // copies and moves of the element
  int v = vp_int("v"); optional<P> o(P{v}); const auto& c = o; int c0 = o->copied; P a = c.value_or(P(1)); VP_ASSERT(a.copied == c0 + 1 && o->v == v, "value_or of an lvalue copies"); P b = std::move(o).value_or(P(1)); VP_ASSERT(b.v == v && b.copied == c0, "value_or of an rvalue moves"); optional<P> q(P{v}); P d = *std::move(q); VP_ASSERT(d.copied == 0 && d.v == v, "dereferencing an rvalue moves"); optional<P> r(P{v}); P g = std::move(r).value(); VP_ASSERT(g.copied == 0 && g.v == v, "value of an rvalue moves"); VP_ASSERT(o->get() == o->v && (*o).w == 0, "members"); vp_cover(1);
  struct Mv { int x; operator P() const { return P(x, 3); } }; optional<P> e; VP_ASSERT(e.value_or(Mv{v}).v == v, "the fallback may need a conversion"); optional<int> i; VP_ASSERT(i.value_or((short)v) == (short)v && i.value_or('a') == 'a', "converted fallback");
}
// reference optionals alias and rebind
template <class R> void refs() {
  using B = typename std::remove_const<R>::type; int a0 = vp_int("a"), b0 = vp_int("b"), n = vp_int("n"), f = vp_int("f"); B x(a0), y(b0); optional<R&> o, p(y); int k = vp_pick(7, "k"); vp_cover(1 + k); bool bound = true;
  switch (k) { case 0: o = optional<R&>(x); break; case 1: o.emplace(x); break; case 2: { optional<R&> t(x); o = t; break; } case 3: { const optional<R&> t(x); o = t; break; } case 4: { optional<R&> t(opt::in_place, x); o = std::move(t); break; } case 5: { o = p; o = opt::make_optional(std::ref(static_cast<R&>(x))); break; } default: { optional<R&> t(y); t = nullopt; o = t; bound = false; } }
  VP_ASSERT(bool(o) == bound && o.has_value() == bound && throws([&] { (void)o.value(); }) == !bound, "value() of an unbound one throws");
  VP_ASSERT(o.value_or(B(f)) == (bound ? B(a0) : B(f)), "value_or"); VP_ASSERT(x == B(a0) && y == B(b0), "binding does not assign through"); if (!bound) return;
  VP_ASSERT(&*o == &x && o.operator->() == &x && &o.value() == &x, "all accessors give the bound object"); x = B(n); VP_ASSERT(*o == B(n) && o.value() == B(n) && o.value_or(B(f)) == B(n), "aliases the object"); VP_ASSERT(&*p == &y, "the other one");
  o = p; VP_ASSERT(&*o == &y && x == B(n) && y == B(b0), "assignment rebinds"); const optional<R&> co(o); VP_ASSERT(&*co == &y && &co.value() == &y, "const access gives the same object"); optional<R&> q(o); o.reset(); VP_ASSERT(!o && q && &*q == &y, "independent binding"); o.swap(q); VP_ASSERT(o && &*o == &y && !q, "swap");
}
void mutref() { int x = vp_int("x"), n = vp_int("n"), m = vp_int("m"); optional<int&> o(x); *o = n; VP_ASSERT(x == n, "write through"); o.value() = m; VP_ASSERT(x == m, "write through value()"); const optional<int&> c(o); *c = n; VP_ASSERT(x == n, "a const reference optional gives the object itself"); P p(n); optional<P&> q(p); q->v = m; VP_ASSERT(p.v == m && q->get() == m, "arrow"); q->v = n; (*q).w = m; VP_ASSERT(p.v == n && p.w == m, "members"); vp_cover(1); }
void voids() { optional<void> v; int x = vp_int("x"); VP_ASSERT(!v && !v.has_value() && throws([&] { v.value(); }), "a void optional is disengaged and its value() throws"); VP_ASSERT(v.value_or(x) == x && &v.value_or(x) == &x && v.value_or(5) == 5, "its fallback"); v.emplace(x); v = x; v.reset(); optional<void> w(v); v.swap(w); VP_ASSERT(!v && !w && !w.has_value(), "always disengaged"); vp_cover(1); }
// the exception: a std::logic_error, and the optional is usable afterwards
void exc() { optional<int> o; bool t = false; try { o.value() = 1; } catch (const std::logic_error&) { t = true; } VP_ASSERT(t && !o, "bad_optional_access is a logic_error and nothing changed"); int v = vp_int("v"); o = v; VP_ASSERT(o.value() == v, "usable"); const optional<P> c; t = false; try { c.value(); } catch (const opt::bad_optional_access&) { t = true; } VP_ASSERT(t, "const"); vp_cover(1); }
}
extern "C" void c20_int() { access<int>(); }
extern "C" void c20_uchar() { access<unsigned char>(); }
extern "C" void c20_cls() { access<P>(); }
extern "C" void c20_rint() { rvalue<int>(); }
extern "C" void c20_rcls() { rvalue<P>(); }
extern "C" void c20_moves() { moves(); }
extern "C" void c20_ref() { refs<int>(); }
extern "C" void c20_cref() { refs<const int>(); }
extern "C" void c20_refobj() { refs<Obj>(); }
extern "C" void c20_mutref() { mutref(); }
extern "C" void c20_void() { voids(); }
extern "C" void c20_exc() { exc(); }
