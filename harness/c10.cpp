// C10: an exception leaving a slot, combiner or comparison leaves the signal intact.
#include "common.h"
#include "inem.h"
namespace {
struct Ex { int v; }; struct ExD : Ex { int w; };
int th_idx, th_kind, th_val; const int NS = 4; int ncmp, cmp_at; int copies_until; bool arm_copy;
void maybe_throw(int id) { if (id == th_idx) { if (th_kind == 0) throw th_val; if (th_kind == 1) throw Ex{th_val}; ExD d; d.v = th_val; d.w = 3; throw d; } }
template <class R> struct F { int id; uint8_t key; int ret; R operator()(int x) { TR.add(id, x); maybe_throw(id); return mk<R>(ret); } bool operator==(const F& o) const { if (cmp_at >= 0 && ncmp++ == cmp_at) throw Ex{th_val}; return key == o.key; } };
template <class R> struct T { int id = 0, ret = 0; R call(int x) { TR.add(id, x); maybe_throw(id); return mk<R>(ret); } };
bool caught; int cval;
template <class Fun> void guarded(Fun f) { caught = false; cval = 0; try { f(); } catch (const ExD& e) { caught = true; cval = e.v; VP_ASSERT(th_kind == 2 && e.w == 3, "exception type unchanged"); } catch (const Ex& e) { caught = true; cval = e.v; VP_ASSERT(th_kind == 1, "exception type unchanged"); } catch (int v) { caught = true; cval = v; VP_ASSERT(th_kind == 0, "exception type unchanged"); } }
template <class R> struct W {
  sig::signal<R(int)> s; sig::connection c[NS]; T<R> t; std::shared_ptr<T<R>> sp = std::make_shared<T<R>>(); int ret[NS]; bool blk[NS] = {}, conn[NS]; int ord[NS], m = 0; uint8_t key[NS];
  W(int n) { for (int i = 0; i < n; ++i) { ret[i] = vp_int("ret"); conn[i] = true; ord[m++] = i; key[i] = (uint8_t)i; if (i == 1) { t.id = 1; t.ret = ret[1]; c[1] = s.connect(&T<R>::call, &t); } else if (i == 2) { sp->id = 2; sp->ret = ret[2]; c[2] = s.connect(&T<R>::call, sp); } else c[i] = s.connect(F<R>{i, (uint8_t)i, ret[i]}); } }
  void emit() {
    TR.clear(); int x = vp_int("x"); opt::optional<R> r; guarded([&] { r = s(x); }); int j = 0, last = -1; bool thr = false;
    for (int i = 0; i < m; ++i) { int id = ord[i]; if (blk[id]) continue; VP_ASSERT(j < TR.n && TR.id[j] == id && TR.arg[j] == x, "slots up to the throwing one are invoked in order"); ++j; if (id == th_idx) { thr = true; break; } last = id; }
    VP_ASSERT(TR.n == j, "no slot after the throwing one is invoked"); VP_ASSERT(caught == thr, "the exception propagates to the emitter"); if (thr) VP_ASSERT(cval == th_val, "exception unchanged"); else VP_ASSERT(res_is(r, last >= 0, last >= 0 ? ret[last] : 0), "result");
    for (int i = 0; i < m; ++i) VP_ASSERT(c[ord[i]].connected() && c[ord[i]].blocked() == blk[ord[i]], "connected set and blocked states are unaffected"); vp_log(TR.n);
  }
  void rem(int i) { conn[i] = false; int p = 0; while (ord[p] != i) ++p; ord[p] = ord[--m]; }
};
template <class R> void slots(int steps) {
  TR.clear(); int64_t l0 = base_live(); cmp_at = -1; ncmp = 0;
  {
    int n = vp_pick(NS, "n") + 1; W<R> w(n); th_idx = (int)vp_pick(NS + 1, "thr") - 1; th_kind = vp_pick(3, "tk"); th_val = vp_int("tv"); if (th_idx >= n) return;
    w.emit(); vp_cover(th_idx >= 0 ? 1 : 2);
    for (int k = 0; k < steps; ++k) {
      int op = vp_pick(6, "op"); if (op == 0) break;
      int i = vp_pick(n, "i");
      if (op == 1) { if (!w.conn[i]) break; VP_ASSERT(w.c[i].disconnect(), "disconnect after an exception"); w.rem(i); vp_cover(3); } else if (op == 2) { if (!w.conn[i]) break; w.c[i].block(); w.blk[i] = true; vp_cover(4); } else if (op == 3) { th_idx = i; vp_cover(5); } else if (op == 4) { th_idx = -1; vp_cover(6); }
      else { bool e = w.conn[i] && i != 1 && i != 2; VP_ASSERT(w.s.disconnect(F<R>{0, (uint8_t)i, 0}) == (e ? 1u : 0u), "disconnect by callable after an exception"); if (e) w.rem(i); vp_cover(7); }
      w.emit();
    }
    th_idx = -1; auto nc = w.s.connect(F<R>{3, 200, 1}); VP_ASSERT(nc.connected(), "connect after an exception");
  }
  VP_ASSERT(vp_live() == l0, "nothing is leaked");
}
// ---- combiners that throw at the k-th element (before or after dereferencing it), or at the end
struct CPlan { int at; bool before; } cp;
struct CC { using result_type = int; template <class It> int operator()(It f, It l) const { int k = 0; for (; f != l; ++f, ++k) { if (cp.before && k == cp.at) throw Ex{th_val}; *f; if (!cp.before && k == cp.at) throw Ex{th_val}; } if (k == cp.at) throw Ex{th_val}; return k; } };
template <class R> void comb() {
  TR.clear(); int64_t l0 = base_live();
  {
    th_idx = -1; th_kind = 1; cmp_at = -1; th_val = vp_int("tv"); sig::signal<R(int), CC> s; sig::connection c[3]; int n = vp_pick(4, "n"); for (int i = 0; i < n; ++i) c[i] = s.connect(F<R>{i, (uint8_t)i, i}); cp.at = vp_pick(5, "at"); cp.before = vp_pick(2, "bef"); bool thr = cp.at <= n; int inv = cp.at >= n ? n : cp.at + (cp.before ? 0 : 1);
    for (int k = 0; k < 2; ++k) { TR.clear(); int r = -1; guarded([&] { r = s(1); }); VP_ASSERT(caught == thr && (!thr || cval == th_val), "combiner exception propagates"); VP_ASSERT(TR.n == inv, "slots dereferenced before the exception ran, no other"); if (!thr) VP_ASSERT(r == n, "result"); for (int i = 0; i < n; ++i) VP_ASSERT(c[i].connected() && TR.n <= n, "signal intact"); }
    cp.at = 99; TR.clear(); VP_ASSERT(s(1) == n && TR.n == n, "usable afterwards"); for (int i = 0; i < n; ++i) VP_ASSERT(c[i].disconnect(), "modifiable afterwards"); vp_cover(thr ? 1 : 2);
  }
  VP_ASSERT(vp_live() == l0, "nothing is leaked");
}
// ---- comparison throwing at the k-th comparison
template <class R> void compare() {
  TR.clear(); int64_t l0 = base_live();
  {
    th_idx = -1; th_kind = 1; cmp_at = -1; ncmp = 0; th_val = vp_int("tv"); sig::signal<R(int)> s; sig::connection c[5]; int n = vp_pick(Q(4, 6), "n"); uint8_t key[5], q = sym8("q"); bool eq[5]; for (int i = 0; i < n; ++i) { key[i] = sym8("k"); c[i] = s.connect(F<R>{i, key[i], i}); eq[i] = key[i] == q; }
    cmp_at = (int)vp_pick(6, "at"); ncmp = 0; size_t r = 0; guarded([&] { r = s.disconnect(F<R>{9, q, 9}); }); cmp_at = -1;
    if (caught) { VP_ASSERT(cval == th_val, "comparison exception unchanged"); vp_cover(1); } else { size_t e = 0; for (int i = 0; i < n; ++i) e += eq[i]; VP_ASSERT(r == e, "all equal slots removed"); vp_cover(2); }
    TR.clear(); s(1); bool seen[5] = {}; for (int j = 0; j < TR.n; ++j) { VP_ASSERT(!seen[TR.id[j]], "once"); seen[TR.id[j]] = true; }
    for (int i = 0; i < n; ++i) { VP_ASSERT(seen[i] == c[i].connected(), "a slot runs exactly if its connection says so"); if (!eq[i]) VP_ASSERT(seen[i], "a slot that is not equal stays connected"); if (!caught) VP_ASSERT(seen[i] == !eq[i], "equal slots are gone"); }
    for (int i = 0; i < n; ++i) VP_ASSERT(c[i].disconnect() == seen[i], "modifiable afterwards"); TR.clear(); s(1); VP_ASSERT(TR.n == 0, "empty"); s.connect(F<R>{7, 7, 7}); s(1); VP_ASSERT(TR.n == 1, "usable");
  }
  VP_ASSERT(vp_live() == l0, "nothing is leaked");
}
// ---- argument and result copies that throw
struct TC { int v; TC(int x) : v(x) { } TC(const TC& o) : v(o.v) { if (arm_copy && copies_until-- == 0) throw Ex{th_val}; } TC(TC&& o) noexcept : v(o.v) {} TC& operator=(const TC& o) { if (arm_copy && copies_until-- == 0) throw Ex{th_val}; v = o.v; return *this; } };
void copies() {
  TR.clear(); int64_t l0 = base_live();
  {
    th_kind = 1; th_val = vp_int("tv"); arm_copy = false; sig::signal<TC(TC)> s; int n = vp_pick(4, "n"); sig::connection c[3]; for (int i = 0; i < n; ++i) c[i] = s.connect([i](const TC& t) { TR.add(i, t.v); return TC(t.v + i); });
    int x = vp_int("x"); TC a(x); copies_until = vp_pick(8, "at"); arm_copy = true; int seen = 0; guarded([&] { auto r = s(a); if (n) VP_ASSERT(r && r->v == x + n - 1, "result"); }); arm_copy = false; vp_cover(caught ? 1 : 2); if (caught) VP_ASSERT(cval == th_val, "exception unchanged"); else VP_ASSERT(TR.n == n, "all ran");
    for (int j = 0; j < TR.n; ++j) VP_ASSERT(TR.id[j] == j && TR.arg[j] == x, "a prefix of the slots ran"); TR.clear(); auto r = s(a); VP_ASSERT(TR.n == n && bool(r) == (n > 0), "usable afterwards"); for (int i = 0; i < n; ++i) VP_ASSERT(c[i].disconnect(), "modifiable afterwards");
  }
  VP_ASSERT(vp_live() == l0, "nothing is leaked");
}
// ---- exceptions through nested emissions
template <class R> void nested() {
  TR.clear(); int64_t l0 = base_live();
  {
    th_kind = 1; th_val = vp_int("tv"); cmp_at = -1; sig::signal<R(int)> s; bool swallow = vp_pick(2, "swallow"); int when = vp_pick(3, "when");
    auto c0 = s.connect([&](int d) { TR.add(0, d); if (d == 0) { if (swallow) { try { s(1); } catch (const Ex& e) { VP_ASSERT(e.v == th_val, "inner exception"); TR.add(50, d); } } else s(1); } return mk<R>(1); });
    auto c1 = s.connect([&](int d) { TR.add(1, d); if (d == when) throw Ex{th_val}; if (d == 1 && when == 2) c0.disconnect(); return mk<R>(2); });
    guarded([&] { s(0); }); bool inner = when == 1, outer = when == 0; bool exp = inner ? !swallow : outer; VP_ASSERT(caught == exp, "propagates out of every emission that does not catch it"); if (caught) VP_ASSERT(cval == th_val, "unchanged");
    VP_ASSERT(c1.connected() && c0.connected() == (when != 2), "set unaffected"); when = 9; TR.clear(); s(1); VP_ASSERT(TR.n == 1 + c0.connected(), "usable afterwards"); vp_cover(1); vp_log(TR.n);
  }
  VP_ASSERT(vp_live() == l0, "nothing is leaked");
}
// many failing emissions in a row, also nested ones: nothing accumulates
template <class R> void repeat(int n) {
  TR.clear(); int64_t l0 = base_live();
  {
    th_kind = 1; th_val = vp_int("tv"); cmp_at = -1; int how = vp_pick(4, "how"); bool armed = true; sig::signal<R(int)> s; auto c0 = s.connect(F<R>{0, 0, 1});
    auto c1 = s.connect([&](int d) { TR.add(1, d); if (armed) { if (how == 1 && d < 3) s(d + 1); if (how == 3) { auto t = s.connect(F<R>{5, 5, 5}); t.disconnect(); } throw Ex{th_val}; } return mk<R>(2); }); auto c2 = s.connect(F<R>{2, 2, 3}); th_idx = -1; if (how == 2) { cmp_at = 0; }
    for (int k = 0; k < n; ++k) { TR.clear(); if (how == 2) { ncmp = 0; guarded([&] { s.disconnect(F<R>{0, 9, 0}); }); VP_ASSERT(caught && cval == th_val, "the comparison's exception arrives"); continue; } guarded([&] { s(0); }); VP_ASSERT(caught && cval == th_val, "the exception arrives every time"); VP_ASSERT(TR.n == (how == 1 ? 8 : 2), "slots up to the throwing one"); }
    armed = false; cmp_at = -1; TR.clear(); auto r = s(0); VP_ASSERT(TR.n == 3 && TR.id[0] == 0 && TR.id[1] == 1 && TR.id[2] == 2 && res_is(r, true, 3), "all slots run afterwards"); VP_ASSERT(c0.connected() && c1.connected() && c2.connected(), "all connected");
    auto c3 = s.connect(F<R>{3, 3, 4}); TR.clear(); s(0); VP_ASSERT(TR.n == 4 && TR.id[3] == 3, "a new slot runs"); VP_ASSERT(c0.disconnect() && !c0.connected(), "disconnect takes effect"); TR.clear(); s(0); VP_ASSERT(TR.n == 3 && TR.id[0] == 3 && TR.id[1] == 1 && TR.id[2] == 2, "and is gone at once"); if (how == 2) { } else VP_ASSERT(c1.disconnect(), "disconnect"); c2.block(); TR.clear(); s(0); VP_ASSERT(TR.n == (how == 2 ? 2 : 1), "block takes effect"); vp_cover(1); vp_log(TR.n);
  }
  VP_ASSERT(vp_live() == l0, "nothing is leaked");
}
}
extern "C" void c10_void() { slots<void>(Q(2, 3)); }
extern "C" void c10_int() { slots<int>(Q(2, 3)); }
extern "C" void c10_obj() { slots<Obj>(Q(1, 2)); }
extern "C" void c10_comb() { if (vp_pick(2, "r")) comb<void>(); else comb<int>(); }
extern "C" void c10_cmp() { if (vp_pick(2, "r")) compare<void>(); else compare<int>(); }
extern "C" void c10_misc() { switch (vp_pick(3, "m")) { case 0: copies(); break; case 1: nested<void>(); break; default: nested<int>(); break; } }
extern "C" void c10_repeat() { if (vp_pick(2, "r")) repeat<void>(Q(260, 1100)); else repeat<int>(Q(260, 1100)); }
// past every 16-bit count
extern "C" void c10_wrap() {
  int n = 0, ret = vp_int("ret"); bool armed = true; sig::signal<int()> s; auto a = s.connect([&] { ++n; return 1; }); auto b = s.connect([&]() -> int { if (armed) throw 5; ++n; return ret; }); const int T = 65600; int got = 0;
  for (int k = 0; k < T; ++k) { vp_cover(255); try { s(); VP_ASSERT(false, "the exception arrives"); } catch (int e) { got += e; } }
  VP_ASSERT(got == 5 * T && n == T && a.connected() && b.connected(), "the exception arrives every time"); armed = false; n = 0; auto r = s(); VP_ASSERT(r && *r == ret && n == 2, "all slots run afterwards"); VP_ASSERT(a.disconnect(), "disconnect"); n = 0; s(); VP_ASSERT(n == 1, "takes effect"); vp_cover(1);
}
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::THROW, inem::EMIT, inem::DISC, inem::ERASE, inem::BLOCK, inem::UNBLOCK, inem::CONNECT}; }
extern "C" void c10_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_PLAIN, 3, 0, Q(2, 3))); }
extern "C" void c10_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_PLAIN, 2, Q(1, 2), Q(2, 3))); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::THROW, inem::DISC, inem::CONNECT, inem::EMIT}; }
extern "C" void c10_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(0, 0), Q(5, 5))); }
