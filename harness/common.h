// Shared pieces of the harnesses: trace of invocations and callables with symbolic identity and results.
#pragma once
#include "vp.h"
#include "signals.hpp"
#ifndef TIER
#define TIER 0
#endif
template <class A, class B> struct tier_ { };
constexpr int Q(int quick, int thorough) { return TIER ? thorough : quick; }
struct Trace {
  int n = 0; int id[96]; int arg[96];
  void clear() { n = 0; }
  void add(int i, int a = 0) { VP_ASSERT(n < 96, "a slot was invoked more often than possible"); id[n] = i; arg[n] = a; ++n; }
};
inline Trace TR;
// A result class (not scalar: uses the class-type optional).
struct Obj {
  int v; Obj(int x = 0) : v(x) {} Obj(const Obj& o) : v(o.v) {} Obj(Obj&& o) : v(o.v) { o.v = -77; }
  Obj& operator=(const Obj& o) { v = o.v; return *this; } Obj& operator=(Obj&& o) { v = o.v; if (&o != this) o.v = -77; return *this; } ~Obj() { v = -99; }
  bool operator==(const Obj& o) const { return v == o.v; }
};
template <class R> inline R mk(int v) { return R(v); }
template <> inline void mk<void>(int) {}
template <class O> inline bool res_is(const O& o, bool eng, int v);
template <> inline bool res_is(const opt::optional<void>& o, bool, int) { return !o; }
template <> inline bool res_is(const opt::optional<int>& o, bool eng, int v) { return bool(o) == eng && (!eng || *o == v); }
template <> inline bool res_is(const opt::optional<bool>& o, bool eng, int v) { return bool(o) == eng && (!eng || *o == bool(v)); }
template <> inline bool res_is(const opt::optional<Obj>& o, bool eng, int v) { return bool(o) == eng && (!eng || o->v == v); }
// Callable with an identity (for the trace), a comparison key and a result.
template <class R> struct Fn {
  int id; uint8_t key; int ret;
  R operator()(int x) { TR.add(id, x); return mk<R>(ret); }
  bool operator==(const Fn& o) const { return key == o.key; }
};
template <class R> struct Target {
  int id = 0; int ret = 0;
  R call(int x) { TR.add(id, x); return mk<R>(ret); }
};
inline int f_id[4], f_ret[4];
template <class R, int K> R freefn(int x) { TR.add(f_id[K], x); return mk<R>(f_ret[K]); }
inline uint8_t sym8(const char* n) { return (uint8_t)vp_sym(8, n); }
// Scale entries: many slots, many repetitions, deep recursion (counters and thresholds inside the implementation must not show).
const int BIGN = 420;
struct Big { int n = 0; int id[BIGN]; void add(int i) { VP_ASSERT(n < BIGN, "invoked more often than possible"); id[n++] = i; } void clear() { n = 0; } };
inline Big BT;
template <class R> struct BFn { int id; int key; int ret; R operator()(int) { BT.add(id); return mk<R>(ret); } bool operator==(const BFn& o) const { return key == o.key; } };
// Live heap blocks, counted after one ordinary use of the library, so that whatever an implementation sets up once (function-local statics) is not taken for a leak.
template <class R> inline void warm_up() {
  sig::signal<R(int)> s; Target<R> t; auto a = s.connect(Fn<R>{1, 1, 1}); auto b = s.connect(&Target<R>::call, &t); sig::scoped_connection sc = s.connect_scoped(Fn<R>{2, 2, 2}); s(1); { auto k = a.blocker(); s(1); } a.disconnect(); s.disconnect(Fn<R>{3, 3, 3}); sig::slot<R(int)> f(Fn<R>{4, 4, 4}); f(1); s(1);
}
inline int64_t base_live() { warm_up<void>(); warm_up<int>(); TR.clear(); return vp_live(); }
