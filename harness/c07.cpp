// C07: disconnecting by callable removes all and only the equal slots.
#include "common.h"
#include "inem.h"
namespace {
const int NS = 5;
template <class R> struct Fn2 { int id; uint8_t key; R operator()(int x) { TR.add(id, x); return mk<R>(0); } bool operator==(const Fn2& o) const { return key == o.key; } };
int curid[8];
template <class R> R g0(int x) { TR.add(100, x); return mk<R>(0); }
template <class R> R g1(int x) { TR.add(101, x); return mk<R>(0); }
template <class R> struct O {   // comparable object, bound by copy or by pointer
  int id; uint8_t key; R call(int x) { TR.add(id, x); return mk<R>(0); } R call2(int x) { TR.add(id, x); return mk<R>(0); } bool operator==(const O& o) const { return key == o.key; }
};
template <class R> struct NC { int id; uint8_t key; R operator()(int x) { TR.add(id, x); return mk<R>(0); } };   // not comparable
enum { FN, FN2, FP, PMF, COPY, LAM, TRK, NK };
template <class R> struct W {
  sig::signal<R(int)> s; int n = 0; int kind[NS]; uint8_t key[NS]; sig::connection c[NS]; bool conn[NS]; int aux[NS]; O<R> ob[2] = {{200, 1}, {201, 1}}; std::shared_ptr<O<R>> sp = std::make_shared<O<R>>();
  void add(int kd) {
    int i = n++; kind[i] = kd; conn[i] = true; aux[i] = 0; key[i] = 0;
    if (kd == FN) { key[i] = sym8("key"); if (i & 1) c[i] = s.connect(sig::slot<R(int)>(Fn<R>{i, key[i], 0})); else c[i] = s.connect(Fn<R>{i, key[i], 0}); }
    else if (kd == FN2) { key[i] = sym8("key"); c[i] = s.connect(Fn2<R>{i, key[i]}); }
    else if (kd == FP) { aux[i] = vp_pick(2, "fp"); c[i] = s.connect(aux[i] ? &g1<R> : &g0<R>); }
    else if (kd == PMF) { aux[i] = vp_pick(4, "pm"); c[i] = s.connect(aux[i] & 1 ? &O<R>::call2 : &O<R>::call, &ob[aux[i] >> 1]); }
    else if (kd == COPY) { key[i] = sym8("key"); O<R> o{i, key[i]}; c[i] = s.connect(&O<R>::call, o); }
    else if (kd == LAM) { c[i] = s.connect(NC<R>{i, 1}); }
    else { sp->id = 300; c[i] = s.connect(&O<R>::call, sp); }
  }
  void check() {
    TR.clear(); s(1); int total = 0;
    for (int i = 0; i < n; ++i) { VP_ASSERT(c[i].connected() == conn[i], "connections of removed slots report disconnected, the others connected"); total += conn[i]; }
    VP_ASSERT(TR.n == total, "all remaining slots are invoked, no other"); vp_log(TR.n);
    for (int i = 0; i < n; ++i) if (conn[i]) { int want = kind[i] == FP ? 100 + aux[i] : kind[i] == PMF ? 200 + (aux[i] >> 1) : kind[i] == TRK ? 300 : i; bool f = false; for (int j = 0; j < TR.n; ++j) if (TR.id[j] == want) f = true; VP_ASSERT(f, "remaining slot still runs"); }
  }
};
template <class R> void run(int maxn, int rounds) {
  TR.clear(); W<R> w; int n = vp_pick(maxn + 1, "n"); for (int i = 0; i < n; ++i) w.add(vp_pick(NK, "kind"));
  if (n && vp_pick(2, "pre")) { w.c[0].disconnect(); w.conn[0] = false; }
  for (int r = 0; r < rounds; ++r) {
    int q = vp_pick(NK + 2, "query"); size_t exp = 0, got = 99; bool expthrow = false, threw = false; bool match[NS] = {}; uint8_t k = 0; int aux = 0;
    if (q == FN || q == FN2 || q == COPY || q == NK) k = sym8("q"); if (q == FP) aux = vp_pick(2, "qf"); if (q == PMF) aux = vp_pick(4, "qp");
    for (int i = 0; i < w.n; ++i) if (w.conn[i] && w.kind[i] == (q == NK ? (int)FN : q)) {
      if (q == FN || q == FN2 || q == COPY || q == NK) match[i] = w.key[i] == k; else if (q == FP || q == PMF) match[i] = w.aux[i] == aux; else expthrow = true;
      if (match[i]) ++exp;
    }
    try {
      if (q == FN) got = w.s.disconnect(Fn<R>{77, k, 9}); else if (q == FN2) got = w.s.disconnect(Fn2<R>{77, k}); else if (q == FP) got = w.s.disconnect(aux ? &g1<R> : &g0<R>);
      else if (q == PMF) got = w.s.disconnect(aux & 1 ? &O<R>::call2 : &O<R>::call, &w.ob[aux >> 1]); else if (q == COPY) { O<R> o{5, k}; got = w.s.disconnect(&O<R>::call, o); }
      else if (q == LAM) got = w.s.disconnect(NC<R>{5, 1}); else if (q == TRK) got = w.s.disconnect(&O<R>::call, w.sp);
      else if (q == NK) { sig::slot<R(int)> sl(Fn<R>{5, k, 1}); if (vp_pick(2, "qblk")) sl.block(); got = w.s.disconnect(sl); }
      else { sig::slot<R(int)> e; got = w.s.disconnect(e); exp = 0; }
    } catch (const sig::not_comparable_exception&) { threw = true; }
    VP_ASSERT(threw == expthrow, "not_comparable_exception exactly when a needed comparison is not supported");
    if (!threw) { VP_ASSERT(got == exp, "returns the number of slots removed"); for (int i = 0; i < w.n; ++i) if (match[i]) w.conn[i] = false; vp_cover(exp > 1 ? 2 : exp ? 1 : 3); if (exp) vp_cover(10 + q); } else vp_cover(4);
    w.check();
  }
  w.s.connect(Fn<R>{60, 0, 0}); TR.clear(); w.s(2); VP_ASSERT(TR.n >= 1 && TR.id[TR.n - 1] == 60, "the signal stays usable"); vp_cover(5);
}
// long runs of equal slots: every removal of neighbours, first and last
void many(int n) {
  TR.clear(); sig::signal<int(int)> s; sig::connection c[12]; bool eq[12]; uint8_t q = sym8("q"); size_t e = 0;
  for (int i = 0; i < n; ++i) { uint8_t k = sym8("k"); c[i] = s.connect(Fn<int>{i, k, 0}); eq[i] = k == q; e += eq[i]; }
  VP_ASSERT(s.disconnect(Fn<int>{99, q, 0}) == e, "number of removed slots"); TR.clear(); s(1); VP_ASSERT(TR.n == n - (int)e, "the others remain"); bool seen[12] = {};
  for (int j = 0; j < TR.n; ++j) { VP_ASSERT(!seen[TR.id[j]] && !eq[TR.id[j]], "a removed slot ran, or one ran twice"); seen[TR.id[j]] = true; }
  for (int i = 0; i < n; ++i) VP_ASSERT(c[i].connected() == !eq[i], "connected()"); VP_ASSERT(s.disconnect(Fn<int>{99, q, 0}) == 0, "nothing left to remove");
  for (int i = 0; i < n; ++i) VP_ASSERT(c[i].disconnect() == !eq[i], "every remaining connection can be ended"); TR.clear(); s(1); VP_ASSERT(TR.n == 0, "empty"); vp_cover(1);
}
// a large signal: every slot compared, runs of matches at any stride
void stride(int n) {
  static sig::connection c[300]; BT.clear();
  {
    sig::signal<int(int)> s; const int strides[] = {1, 2, 3, 7, 16, 1000}; int st = strides[vp_pick(6, "st")], off = vp_pick(2, "off"); size_t e = 0; auto hit = [&](int i) { return i % st == off % st && (st != 1000 || i == off); }; for (int i = 0; i < n; ++i) { c[i] = s.connect(BFn<int>{i, hit(i) ? 1 : 2, i}); e += hit(i); }
    VP_ASSERT(s.disconnect(BFn<int>{0, 1, 0}) == e, "number of removed slots"); s(1); VP_ASSERT(BT.n == n - (int)e, "the others remain"); static bool seen[300]; for (bool& x : seen) x = false; for (int j = 0; j < BT.n; ++j) { VP_ASSERT(!hit(BT.id[j]) && !seen[BT.id[j]], "a removed slot ran, or one twice"); seen[BT.id[j]] = true; }
    for (int i = 0; i < n; ++i) VP_ASSERT(c[i].connected() == !hit(i) && c[i].disconnect() == !hit(i), "every connection knows"); BT.clear(); s(1); VP_ASSERT(BT.n == 0, "empty"); vp_cover(1);
  }
  for (auto& x : c) x = sig::connection();
}
}
extern "C" void c07_void() { run<void>(Q(3, 3), Q(1, 2)); }
extern "C" void c07_int() { run<int>(2, Q(1, 2)); }
extern "C" void c07_many() { many(Q(6, 9)); }
extern "C" void c07_stride() { stride(260); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::ERASE, inem::BLOCK, inem::UNBLOCK, inem::DISC, inem::CONNECT, inem::EMIT, inem::ASSIGN_EMPTY}; }
extern "C" void c07_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_PLAIN, 3, 0, Q(2, 3))); }
extern "C" void c07_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_PLAIN, 2, Q(1, 2), 2)); }
// the same callable passed as an lvalue, a const lvalue, an rvalue or inside a slot, to connect and to disconnect
namespace {
template <class R> struct CF { int id; uint8_t key; R operator()(int x) const { TR.add(id, x); return mk<R>(0); } bool operator==(const CF& o) const { return key == o.key; } };
template <class R> struct DO : O<R> { int d = 0; };
template <class T, class F> auto pass(int how, const T& v, F f) -> decltype(f(T(v))) { T l(v); const T c(v); switch (how) { case 0: return f(l); case 1: return f(c); default: return f(T(v)); } }
template <class R> void cats() {
  TR.clear(); sig::signal<R(int)> s; using SL = sig::slot<R(int)>; uint8_t k = sym8("k"), q = sym8("q"); int kind = vp_pick(6, "kind"), ch = vp_pick(3, "how"), via = vp_pick(3, "via"), qh = vp_pick(3, "qhow"), qv = vp_pick(2, "qvia"); bool eq = false; std::size_t got = 0; sig::connection c; sig::scoped_connection sc;
  auto other = s.connect(Fn2<R>{70, 1}); O<R> ob[2] = {{200, 1}, {201, 1}}; int w = vp_pick(2, "which"), qw = kind == 0 || kind == 4 ? 0 : vp_pick(2, "qwhich");
  auto con = [&](auto&&... f) { if (via == 0) { c = s.connect(std::forward<decltype(f)>(f)...); } else if (via == 1) { sc = s.connect_scoped(std::forward<decltype(f)>(f)...); } else { SL sl(std::forward<decltype(f)>(f)...); c = s.connect(sl); } return 0; };
  auto dis = [&](auto&&... f) -> std::size_t { if (qv == 0) return s.disconnect(std::forward<decltype(f)>(f)...); SL sl(std::forward<decltype(f)>(f)...); return s.disconnect(sl); };
  using PM = R (O<R>::*)(int); using P = O<R>*; using FP_ = R (*)(int);
  switch (kind) {
    case 0: pass(ch, CF<R>{5, k}, con); got = pass(qh, CF<R>{6, q}, dis); eq = k == q; break;
    case 1: if (ch == 0) con(g0<R>); else if (ch == 1) con(&g0<R>); else { FP_ v = &g0<R>; con(v); } if (qh == 0) got = qw ? dis(g1<R>) : dis(g0<R>); else if (qh == 1) got = dis(qw ? &g1<R> : &g0<R>); else { const FP_ v = qw ? &g1<R> : &g0<R>; got = dis(v); } eq = !qw; break;
    case 2: pass(ch, (P)&ob[w], [&](auto&& p) { return con(&O<R>::call, std::forward<decltype(p)>(p)); }); got = pass(qh, (P)&ob[qw], [&](auto&& p) { return dis(&O<R>::call, std::forward<decltype(p)>(p)); }); eq = w == qw; break;
    case 3: pass(ch, (PM)(w ? &O<R>::call2 : &O<R>::call), [&](auto&& m) { return con(std::forward<decltype(m)>(m), &ob[0]); }); got = pass(qh, (PM)(qw ? &O<R>::call2 : &O<R>::call), [&](auto&& m) { return dis(std::forward<decltype(m)>(m), &ob[0]); }); eq = w == qw; break;
    case 4: { O<R> a{7, k}, b{8, q}; if (ch == 0) con(&O<R>::call, a); else con(&O<R>::call, O<R>(a)); got = qh == 0 ? dis(&O<R>::call, b) : dis(&O<R>::call, O<R>(b)); eq = k == q; break; }
    default: { DO<R> d[2]; d[0].id = 30; d[1].id = 31; pass(ch, &d[w], [&](auto&& p) { return con(&O<R>::call, std::forward<decltype(p)>(p)); }); got = pass(qh, &d[qw], [&](auto&& p) { return dis(&O<R>::call, std::forward<decltype(p)>(p)); }); eq = w == qw; if (!eq) { TR.clear(); s(1); VP_ASSERT(TR.n == 2, "still there"); } s.disconnect(&O<R>::call, &d[w]); }
  }
  VP_ASSERT(got == (eq ? 1u : 0u), "an equal callable of the same type is found however it was passed"); vp_cover(1 + kind); vp_cover(eq ? 10 : 11);
  if (kind < 5) { VP_ASSERT((via == 1 ? sc.connected() : c.connected()) == !eq, "and its connection ends"); TR.clear(); s(1); VP_ASSERT(TR.n == (eq ? 1 : 2), "and only it"); } VP_ASSERT(other.connected(), "other slots stay"); vp_log(eq);
}
}
extern "C" void c07_cat_void() { cats<void>(); }
extern "C" void c07_cat_int() { cats<int>(); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::ERASE, inem::DISC, inem::CONNECT, inem::EMIT}; }
extern "C" void c07_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_PLAIN, 2, Q(0, 1), Q(4, 4))); }
namespace { const int dup_void[] = {inem::STOP, inem::ERASE, inem::CONNECT, inem::EMIT, inem::DISC}; }
extern "C" void c07_dup_void() { inem::run<void>(inem::conf(dup_void, inem::K_DUP, 3, Q(0, 1), Q(3, 4))); }
namespace { const int dup_int[] = {inem::STOP, inem::ERASE, inem::CONNECT, inem::EMIT, inem::DISC}; }
extern "C" void c07_dup_int() { inem::run<int>(inem::conf(dup_int, inem::K_DUP, 3, Q(1, 1), Q(3, 4))); }
